#!/bin/bash
# Builds build/ppdump (idempotent, keyed by the source hash).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
h=$(sha256sum ppdump/ppdump.cpp | cut -c1-16)
out=build/ppdump-$h
[ -x "$out" ] && { echo "$out"; exit 0; }
L=/usr/lib/llvm-18
lib=$(ls $L/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
g++ -std=c++17 -O1 -fno-rtti -w -I$L/include ppdump/ppdump.cpp -o "$out.tmp$$" "$lib" -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib >&2
mv "$out.tmp$$" "$out"
echo "$out"
