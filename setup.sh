#!/bin/bash
# Build everything once (a fresh sandbox has no build output) and self-test the reference model.
cd "$(dirname "$0")" || exit 1
. tools/build.sh || exit 1
traced_build
inner_build
leak_build
machine_build O3,3,off Os,s,off
target/release/mc selftest
