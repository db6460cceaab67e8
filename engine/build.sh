#!/bin/bash
# Builds the symbolic executor (idempotent).
set -e
cd "$(dirname "$0")"
OUT="${1:-../build}"; mkdir -p "$OUT/eng"
CXX=/usr/lib/llvm-18/bin/clang++
FL="-std=c++20 -O2 -g0 -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE"
pids=()
for f in decode exec natives main; do
  if [ ! -f $OUT/eng/$f.o ] || [ -n "$(find . -name '*.[ch]pp' -newer $OUT/eng/$f.o | head -1)" ]; then $CXX $FL -c $f.cpp -o $OUT/eng/$f.o & pids+=($!); fi
done
if [ ! -f $OUT/eng/sat.o ] || [ sat.cpp -nt $OUT/eng/sat.o ]; then g++ -O2 -c sat.cpp -o $OUT/eng/sat.o & pids+=($!); fi
for p in "${pids[@]}"; do wait $p; done
if [ ! -f $OUT/sx ] || [ -n "$(find $OUT/eng -name '*.o' -newer $OUT/sx | head -1)" ]; then
$CXX $OUT/eng/*.o -o $OUT/sx -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 /usr/lib/libminisat.a -Wl,-rpath,/usr/lib/llvm-18/lib; fi
