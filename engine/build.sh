#!/bin/bash
# builds the prover into /verif/build (about 15 s)
set -e
d=$(cd "$(dirname "$0")" && pwd); b=$d/../build; mkdir -p "$b"
z=$(echo /opt/veriftools/pyvenv/lib/python3*/site-packages/z3)
g++ -std=c++20 -O1 -w -I/usr/lib/llvm-18/include -I"$z/include" "$d/vfy.cpp" -o "$b/vfy.tmp.$$" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$z/lib" -lz3 -Wl,-rpath,"$z/lib"
mv "$b/vfy.tmp.$$" "$b/vfy"
