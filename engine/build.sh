#!/bin/bash
# builds /verif/engine/dvc
set -e
cd "$(dirname "$0")"
CXX="clang++-18 -std=c++17 -O2 -fno-rtti"
FL="$(llvm-config-18 --cppflags 2>/dev/null || echo -I/usr/lib/llvm-18/include) -w"
mkdir -p ../build
# the newer z3 library ships with the Python tooling; fall back to the system one
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3D/lib/libz3.so ]; then FL="-I$Z3D/include $FL"; ZL="$Z3D/lib/libz3.so -Wl,-rpath,$Z3D/lib"; else ZL=-lz3; fi
for f in expr solver exec; do
  if [ ! -f ../build/$f.o ] || [ $f.cpp -nt ../build/$f.o ] || [ expr.h -nt ../build/$f.o ] || [ solver.h -nt ../build/$f.o ]; then
    X="-fexceptions"
    ( $CXX $X $FL -c $f.cpp -o ../build/$f.o ) &
  fi
done
for p in $(jobs -p); do wait $p; done
$CXX ../build/expr.o ../build/solver.o ../build/exec.o -o ../build/dvc -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
