#!/bin/bash
# Builds the symbolic executor into $1.
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
cd "$(dirname "$0")" || exit 1
exec g++ -std=c++17 -O2 -w -rdynamic -I$Z/include $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions \
    main.cpp expr.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -ldl
