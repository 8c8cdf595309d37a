#!/bin/bash
# builds the abstract interpreter into /verif/engine/bin (not committed)
cd "$(dirname "$0")" && mkdir -p bin && \
clang++-18 -std=c++17 -O2 -fno-rtti $(llvm-config-18 --cppflags) engine.cpp -o bin/vfa $(llvm-config-18 --ldflags) -lLLVM-18
