#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
Z3V=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXXF="-O2 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags 2>/dev/null || llvm-config --cppflags)"
LL="$(llvm-config-18 --ldflags --libs core irreader support demangle 2>/dev/null || llvm-config --ldflags --libs core irreader support demangle)"
ZI=""; ZL="-lz3"
if [ "${VS_Z3:-sys}" = "new" ] && [ -e $Z3V/lib/libz3.so ]; then ZI="-I$Z3V/include"; ZL="-L$Z3V/lib -lz3 -Wl,-rpath,$Z3V/lib"; fi
g++ $CXXF -w -c "$here/expr.cpp" -o "$out/expr.o" &
g++ $CXXF $ZI -w -c "$here/solver.cpp" -o "$out/solver.o" &
g++ $CXXF -w -c "$here/engine.cpp" -o "$out/engine.o" &
wait %1; wait %2; wait %3
g++ -o "$out/symex.tmp" "$out/engine.o" "$out/expr.o" "$out/solver.o" $LL $ZL -ldl -lpthread
mv "$out/symex.tmp" "$out/symex"
rm -f "$out/engine.o" "$out/expr.o" "$out/solver.o"
