#!/bin/bash
# Builds the symbolic executor into the directory given as the first argument.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
LC=/usr/lib/llvm-18/bin/llvm-config
FLAGS="-O2 -std=c++20 -fno-rtti -I$($LC --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
CXX=clang++
for f in expr solver ysym; do
  $CXX $FLAGS -c "$here/$f.cpp" -o "$out/$f.o" &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
$CXX "$out/expr.o" "$out/solver.o" "$out/ysym.o" -o "$out/ysym" $($LC --ldflags) -lLLVM-18 -lz3
