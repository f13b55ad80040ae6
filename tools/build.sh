# Sourced from /verif: build the checker from /repo's working tree.
# The library is always recompiled (no reliance on file times).
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET 2>/dev/null
find /verif/target/release/.fingerprint -maxdepth 1 -name 'minisign-*' -exec rm -rf -- {} + 2>/dev/null
BUILD_LOG=$(cd mc && cargo build --release --offline 2>&1) || { printf '%s\n' "$BUILD_LOG" | tail -60; echo "the checker does not build against this tree"; return 1; }
# C19 also runs a build whose memory accesses are traced (without it, the check
# still explores everything else and says so in its evidence).
traced_build() {
  export MC_TRACED=/verif/target/traced/release/mc
  rm -f -- /verif/target/traced/release/mc
  find /verif/target/traced/release/.fingerprint -maxdepth 1 \( -name 'minisign-*' -o -name 'mcops-*' \) -exec rm -rf -- {} + 2>/dev/null
  (cd mc && RUSTC_WRAPPER=/verif/tools/tracewrap.sh CARGO_TARGET_DIR=/verif/target/traced cargo build --release --offline >/dev/null 2>&1) || echo "note: no traced build"
}
# C24 also compiles the arithmetic modules with their internals reachable, as
# far as the tree still has them (otherwise it goes through the public API only).
inner_build() {
  MC_BIN=/verif/target/inner/release/mc
  rm -f -- /verif/target/inner/release/mc
  find /verif/target/inner/release/.fingerprint -maxdepth 1 \( -name 'minisign-*' -o -name 'wb-*' \) -exec rm -rf -- {} + 2>/dev/null
  local f ok=
  inner_try() { (cd mc && CARGO_TARGET_DIR=/verif/target/inner cargo build --release --offline --features "$1" >/dev/null 2>&1); }
  if ! inner_try wb_hash,wb_field,wb_scalar,wb_group; then
    for f in wb_hash wb_field wb_scalar wb_group; do inner_try "$f" && ok="$ok,$f"; done
    echo "note: internal functions reachable in: ${ok#,}"
    [ -n "$ok" ] && inner_try "${ok#,}" || MC_BIN=/verif/target/release/mc
  fi
}
# C28 runs a build whose branches and addresses are recorded.
leak_build() {
  MC_BIN=/verif/target/leak/release/mc
  rm -f -- /verif/target/leak/release/mc
  find /verif/target/leak/release/.fingerprint -maxdepth 1 \( -name 'minisign-*' -o -name 'mcops-*' \) -exec rm -rf -- {} + 2>/dev/null
  (cd mc && RUSTC_WRAPPER=/verif/tools/leakwrap.sh CARGO_TARGET_DIR=/verif/target/leak CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false cargo build --release --offline --features leak >/dev/null 2>&1) || { echo "the recording build failed"; return 1; }
}
# ... and follows the machine code of ordinary builds of the library.
machine_build() {
  export MC_MACHINE=
  local b name opt lto pids=
  for b in "$@"; do
    IFS=, read -r name opt lto <<<"$b"
    rm -f -- "/verif/target/m-$name/release/mcm"
    find "/verif/target/m-$name/release/.fingerprint" -maxdepth 1 \( -name 'minisign-*' -o -name 'mcops-*' -o -name 'mcm-*' \) -exec rm -rf -- {} + 2>/dev/null
    (cd mcm && CARGO_TARGET_DIR=/verif/target/m-$name CARGO_PROFILE_RELEASE_OPT_LEVEL=$opt CARGO_PROFILE_RELEASE_LTO=$lto cargo build --release --offline >/dev/null 2>&1) &
    pids="$pids $!"
    MC_MACHINE="$MC_MACHINE:$name=/verif/target/m-$name/release/mcm"
  done
  wait $pids
}
return 0
