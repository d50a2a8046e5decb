#!/bin/bash
# builds cxxfacts into $1
set -e
cd "$(dirname "$0")"
L=$(llvm-config-18 --prefix 2>/dev/null || echo /usr/lib/llvm-18)
clang++ -O1 -std=c++17 -fno-rtti -fno-exceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w \
  -I$L/include cxxfacts.cpp -o "$1.tmp$$" -L$L/lib -Wl,-rpath,$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
mv "$1.tmp$$" "$1"
