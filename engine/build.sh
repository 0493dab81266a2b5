#!/bin/bash
# Builds the engine (pass plugin, symbolic runtime, native replay runtime) into
# $1 (default /verif/build).  Offline; uses only preinstalled tools.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
H=$(cat "$HERE"/*.cpp "$HERE"/*.h "$HERE/build.sh" | sha256sum | cut -c1-16)
if [ -f "$OUT/engine.hash" ] && [ "$(cat "$OUT/engine.hash")" = "$H" ]; then exit 0; fi
T=$(mktemp -d "$OUT/tmp.XXXXXX")
( clang++-18 -O1 -fPIC -shared $(llvm-config-18 --cxxflags) "$HERE/SymPass.cpp" -o "$T/SymPass.so" ) & A=$!
( clang++-18 -std=c++20 -O2 -g0 -c -I"$HERE" -I$Z/include "$HERE/symrt.cpp" -o "$T/symrt.o" ) & B=$!
( clang++-18 -std=gnu++20 -O1 -c -DSYM_NATIVE -I"$HERE" "$HERE/symnative.cpp" -o "$T/symnative.o" ) & C=$!
( clang++-18 -std=gnu++20 -O2 -c "$HERE/symrace.cpp" -o "$T/symrace.o" ) & D=$!
wait $A; wait $B; wait $C; wait $D
mv "$T"/* "$OUT/"
rmdir "$T"
echo "$H" > "$OUT/engine.hash"
