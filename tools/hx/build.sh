#!/bin/bash
# Builds the AST extractor (needs the preinstalled LLVM 18 development files).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/hx"
if [ -x "$out" ] && [ "$out" -nt "$here/hx.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp="$out.tmp.$$"
g++ -std=c++17 -O1 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   "$here/hx.cpp" -o "$tmp" -L$L/lib -Wl,-rpath,$L/lib $L/lib/libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" "$out"
