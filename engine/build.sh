#!/bin/bash
# builds the symbolic executor into $1
set -e
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
D=$(cd "$(dirname "$0")" && pwd)
clang++ -O2 -std=c++17 -w -I$Z3D/include -I$(llvm-config-18 --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $D/vse.cpp -o "$1" -L$(llvm-config-18 --libdir) -lLLVM-18 -L$Z3D/lib -lz3 -Wl,-rpath,$Z3D/lib
