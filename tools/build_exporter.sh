#!/bin/bash
# Builds the AST exporter into /verif/build (kept out of git). Idempotent, offline.
set -e
cd "$(dirname "$0")/.."
mkdir -p build
LIB=/usr/lib/llvm-18/lib
CPP=$(ls $LIB/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
LLVM=$(ls $LIB/libLLVM-18.so $LIB/libLLVM.so* /usr/lib/x86_64-linux-gnu/libLLVM*18* 2>/dev/null | head -1)
if [ ! -x build/exporter ] || [ exporter/exporter.cpp -nt build/exporter ]; then
  clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include exporter/exporter.cpp -o build/exporter.tmp.$$ \
    "$CPP" "$LLVM" -Wl,-rpath,$LIB -Wl,-rpath,/usr/lib/x86_64-linux-gnu
  mv build/exporter.tmp.$$ build/exporter
fi
