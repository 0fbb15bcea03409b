#!/bin/bash
# builds the AST extractor into $1
set -e
cd "$(dirname "$0")"
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') extract.cc -o "$1" $(llvm-config-18 --ldflags) -l:libclang-cpp.so.18.1 -lLLVM-18
