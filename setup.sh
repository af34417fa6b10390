#!/bin/bash
# Builds the analysers from the committed sources, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build
LC=/usr/bin/llvm-config-18
CXX=/usr/lib/llvm-18/bin/clang++
if [ ! -x build/oblcheck ] || [ tools/oblcheck.cpp -nt build/oblcheck ]; then
    $CXX -O1 $($LC --cxxflags) -std=c++17 tools/oblcheck.cpp -o build/oblcheck.tmp.$$ $($LC --ldflags --libs core irreader analysis support demangle bitreader bitwriter)
    mv build/oblcheck.tmp.$$ build/oblcheck
fi
