#!/bin/bash
# build.sh OUTDIR : builds the symbolic executor
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CX="-O2 -std=c++17 -w"
g++ $CX $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//') -c "$D/interp.cpp" -o "$O/interp.o" &
g++ $CX -c "$D/builtins.cpp" -o "$O/builtins.o" &
g++ $CX -c "$D/expr.cpp" -o "$O/expr.o" &
g++ $CX -c "$D/field.cpp" -o "$O/field.o" &
g++ $CX -I$Z3/include -c "$D/solver.cpp" -o "$O/solver.o" &
for p in $(jobs -p); do wait $p; done
g++ "$O"/*.o -o "$O/symx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -lgmpxx -lgmp
mv "$O/symx.tmp" "$O/symx"
