#!/bin/bash
# builds the engine into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LF="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//')"
CXX="clang++ -std=c++17 -O2 -w $LF -I$Z3/include"
$CXX -c $D/expr.cpp -o $O/expr.o & p1=$!
$CXX -c $D/solver.cpp -o $O/solver.o & p2=$!
$CXX -c $D/exec.cpp -o $O/exec.o & p3=$!
wait $p1; wait $p2; wait $p3
clang++ -o $O/symx.tmp $O/expr.o $O/solver.o $O/exec.o -L/usr/lib/llvm-18/lib -lLLVM-18 $Z3/lib/libz3.so -Wl,-rpath,$Z3/lib -lpthread
mv $O/symx.tmp $O/symx
