#!/bin/bash
# builds the symbolic executor into $1 (default: /verif/build)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}; mkdir -p "$OUT"; OUT=$(cd "$OUT"; pwd)
Z=$(/opt/veriftools/pyvenv/bin/python -c 'import z3,os;print(os.path.dirname(z3.__file__))')
CXX="g++ -std=c++17 -O2 -w -I$Z/include"
LC=$(ls /usr/bin/llvm-config-18 /usr/lib/llvm-18/bin/llvm-config 2>/dev/null | head -1)
$CXX -c expr.cpp -o "$OUT/expr.o" &
$CXX -isystem $($LC --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -c exec.cpp -o "$OUT/exec.o" &
wait %1; wait %2
g++ "$OUT/expr.o" "$OUT/exec.o" -o "$OUT/symex" -L$Z/lib -l:libz3.so -Wl,-rpath,$Z/lib $($LC --ldflags) -lLLVM-18 -Wl,-rpath,$($LC --libdir)
echo built "$OUT/symex"
