#!/bin/bash
# Builds the framework from the committed files (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/astx ] || [ tool/astx.cpp -nt build/astx ]; then
  clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include tool/astx.cpp -o build/astx.tmp.$$ \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv build/astx.tmp.$$ build/astx
fi
