#!/bin/bash
# build.sh OUTDIR : compiles the probe plugins
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
for f in *.c; do
  clang --target=wasm32 -O1 -nostdlib -fno-builtin -Wno-infinite-recursion -Wl,--no-entry -Wl,-z,stack-size=16384 -o "$1/${f%.c}.wasm" "$f"
done
