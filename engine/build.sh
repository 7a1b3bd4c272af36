#!/bin/bash
# builds the engine into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out/eng"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e "$Z/include/z3.h" ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
FL="$(llvm-config-18 --cppflags) -std=c++20 -O2 -g1 -fexceptions -Wno-deprecated-declarations $ZI"
pids=()
for f in expr solver mem opt translate exec handlers main; do
  clang++-18 $FL -c "$here/$f.cpp" -o "$out/eng/$f.o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
clang++-18 "$out"/eng/*.o -o "$out/symx" $(llvm-config-18 --ldflags --libs) $ZL -lpthread
