#!/bin/bash
# usage: build.sh OUT
set -e
cd "$(dirname "$0")"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -O2 -std=c++17 -w -I$Z3D/include $(llvm-config-18 --cppflags 2>/dev/null || /usr/lib/llvm-18/bin/llvm-config --cppflags) sx.cpp -o "$1" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3D/lib -l:libz3.so -Wl,-rpath,$Z3D/lib -Wl,-rpath,/usr/lib/llvm-18/lib
