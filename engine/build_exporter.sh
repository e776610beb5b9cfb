#!/bin/bash
# builds the AST fact exporter into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/exporter}
mkdir -p "$(dirname "$out")"
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/exporter.cpp" -o "$out.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
