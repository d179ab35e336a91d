#!/bin/bash
# builds the symbolic executor; the result is cached next to the sources
set -e
cd "$(dirname "$0")"
OUT=${1:-bin/vsym}
mkdir -p "$(dirname "$OUT")"
FL="-std=c++17 -O2 -fno-exceptions -fexceptions -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//')"
T=$(mktemp -d)
for f in expr solver vsym; do clang++ $FL -c $f.cpp -o $T/$f.o & done; wait
clang++ -O2 $T/*.o -o "$OUT" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
rm -r "$T"
