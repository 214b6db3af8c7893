#!/bin/sh
# builds the extractor into $1 (binary path)
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
/usr/bin/clang++-18 -std=c++17 -fno-rtti -O0 -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
	cg3x.cpp -o "$1" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
