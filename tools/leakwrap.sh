#!/bin/bash
# RUSTC_WRAPPER: compile the library, its Base64 codec and the operations of C28
# so that every basic block taken and every address read or written is reported
# to mc/src/leak.rs (LLVM's SanitizerCoverage pass, without its runtime).
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case $a in
      minisign|mcops|ct_codecs) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-divs -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
    esac
  fi
  prev=$a
done
exec "$rustc" "$@"
