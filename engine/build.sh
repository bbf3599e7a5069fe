#!/bin/sh
# Builds the executor: build.sh OUT
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
out=$1; mkdir -p "$(dirname "$out")"; t=$(mktemp -d)
for f in expr solver exec; do
  g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -I$Z/include -c $f.cpp -o $t/$f.o &
done
for p in $(jobs -p 2>/dev/null); do :; done; wait
g++ -o $t/exec $t/expr.o $t/solver.o $t/exec.o -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lcryptopp
mv $t/exec "$out"; rm -r "$t"
