#!/bin/bash
# RUSTC_WRAPPER: compile the library and the operations of C19 so that their
# memory accesses call the hooks in mc/src/conc.rs (the instrumentation pass of
# ThreadSanitizer, without its runtime).
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case $a in
      minisign|mcops) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Zunstable-options ;;
      mc) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer -Zunstable-options ;;
    esac
  fi
  prev=$a
done
exec "$rustc" "$@"
