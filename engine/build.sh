#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out/obj"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=; ZL=-lz3; fi
CF="$(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//;s/-D_GNU_SOURCE//') -std=c++20 -O2 -g0 $ZI"
pids=()
for f in expr solver lower engine builtins main selftest; do
  g++ $CF -c "$here/$f.cpp" -o "$out/obj/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ "$out"/obj/{expr,solver,lower,engine,builtins,main,selftest}.o -o "$out/symex.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
mv "$out/symex.tmp" "$out/symex"
