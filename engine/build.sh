#!/bin/bash
# Builds the symbolic executor into /verif/build (offline; needs only installed tools).
set -eu
here=$(dirname "$(realpath "$0")")
out=$here/../build
mkdir -p "$out"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -e "$out/dsym" ] || [ "$here/dsym.cpp" -nt "$out/dsym" ] || [ "$here/exec.inc" -nt "$out/dsym" ] || [ "$here/num.hpp" -nt "$out/dsym" ]; then
	g++ -O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -I$Z3D/include "$here/dsym.cpp" -o "$out/dsym.tmp.$$" \
		-L/usr/lib/llvm-18/lib -lLLVM-18 $Z3D/lib/libz3.so -Wl,-rpath,$Z3D/lib -lgmpxx -lgmp
	mv "$out/dsym.tmp.$$" "$out/dsym"
fi
