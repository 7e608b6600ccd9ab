#!/bin/bash
# builds the engine if it is missing or older than its sources
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
exec 9>build/.lock; flock 9
h=$(cat engine/vsx.cpp engine/bdd.h | sha1sum | cut -d' ' -f1)
if [ -x build/vsx ] && [ "$(cat build/vsx.sha 2>/dev/null)" = "$h" ]; then exit 0; fi
clang++ -O2 -std=c++17 -w -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS engine/vsx.cpp -o build/vsx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread && mv build/vsx.tmp build/vsx && echo "$h" > build/vsx.sha
