#!/bin/bash
# Builds the symbolic executor and the libstdc++ model bitcode into /verif/build.
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
new() { [ ! -e "$1" ] && return 0; for f in "${@:2}"; do [ "$f" -nt "$1" ] && return 0; done; return 1; }
if new "$OUT/symir" symir.cpp expr.h solver.h; then
  LC=/usr/lib/llvm-18/bin/llvm-config
  clang++ -O2 -std=c++20 -I"$($LC --includedir)" -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    symir.cpp -o "$OUT/symir.tmp" -L"$($LC --libdir)" -lLLVM-18 -lz3 -lpthread
  mv "$OUT/symir.tmp" "$OUT/symir"
fi

if new "$OUT/runtime.bc" runtime.cpp shim/sym_streams.h shim/sym_pre.h build.sh; then
  clang++ -std=c++17 -O2 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -emit-llvm -c -include shim/sym_pre.h -isystem shim runtime.cpp -o "$OUT/runtime.tmp"
  mv "$OUT/runtime.tmp" "$OUT/runtime.bc"
fi

