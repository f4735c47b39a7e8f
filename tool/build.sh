#!/bin/bash
# builds the analysers into /verif/build (offline)
set -e
cd "$(dirname "$0")"; O=../build; mkdir -p $O
CXX=${CXX:-clang++-18}; command -v $CXX >/dev/null || CXX=clang++
$CXX -O2 -g0 $(llvm-config-18 --cxxflags) -std=c++17 -fexceptions -w absint.cpp -o $O/absint -L/usr/lib/llvm-18/lib -lLLVM-18
$CXX -O1 -g0 -fno-rtti -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') astlint.cpp -o $O/astlint -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18
$CXX -O1 -g0 $(llvm-config-18 --cxxflags) -std=c++17 -fexceptions -w bitflow.cpp -o $O/bitflow -L/usr/lib/llvm-18/lib -lLLVM-18
