#!/bin/bash
# Builds the symbolic engine and its runtime into symx/build.
set -e
cd "$(dirname "$0")"
mkdir -p build
CXX=/usr/bin/clang++-18
LC=/usr/bin/llvm-config-18
FL="-O2 -g0 -std=c++17 $($LC --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -w"
pids=()
for s in expr solver symx; do
  if [ ! -f build/$s.o ] || [ -n "$(find src -newer build/$s.o -print -quit)" ]; then $CXX $FL -c src/$s.cpp -o build/$s.o & pids+=($!); fi
done
$CXX -std=c++11 -isystem include -include sx_pre.h -O1 -U__OPTIMIZE__ -D__NO_CTYPE=1 -fno-builtin -fno-vectorize -fno-slp-vectorize -w -emit-llvm -c rt/rt.cpp -o build/rt.bc & pids+=($!)
$CXX -std=c++11 -O1 -g -w -c rt/native.cpp -o build/native.o & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
$CXX build/expr.o build/solver.o build/symx.o -o build/symx $($LC --ldflags) -lLLVM-18 -lz3 -lpthread
echo built
