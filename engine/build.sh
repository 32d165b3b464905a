#!/bin/bash
# builds the engine with the stable toolchain; no dependencies
set -e
cd "$(dirname "$0")"
OUT=${1:-../.build}
mkdir -p "$OUT"
TC=$(rustc +nightly --print sysroot)/lib
LL=$(ls $TC/libLLVM.so.* | head -1)
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib
if [ ! -e "$Z3/libz3.so" ]; then Z3=/usr/lib/x86_64-linux-gnu; fi
LLVM_LIB="$LL" rustc --edition 2021 -O -A warnings -C overflow-checks=off -C debuginfo=0 src/main.rs -o "$OUT/llsym.tmp" \
  -C link-arg="$Z3/libz3.so" -C link-arg=-Wl,-rpath,"$Z3" 2>&1
mv "$OUT/llsym.tmp" "$OUT/llsym"
