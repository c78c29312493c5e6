#!/bin/bash
# build the symbolic executor: build.sh OUT
set -e
cd "$(dirname "$0")"
exec g++ -std=c++17 -O2 -g1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS symex.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
