#!/bin/bash
# Builds the symbolic executor into /verif/.build (ignored by git).
set -e
cd "$(dirname "$0")"
B=../.build
mkdir -p $B
if [ -x $B/symx ] && [ $B/symx -nt symx.cpp ] && [ $B/symx -nt expr.h ] && [ $B/symx -nt solver.h ] && [ $B/symx -nt state.h ]; then exit 0; fi
clang++-18 -std=c++20 -O2 -fexceptions -I/usr/lib/llvm-18/include $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//;s/-Wsuggest-override//g') \
  symx.cpp -o $B/symx.tmp $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv $B/symx.tmp $B/symx
