#!/bin/bash
# Compiles demo.cpp against the modules that build.sh built and runs it: 0 when the property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O0 -w -fms-extensions -include "$D/compat.h" -I"$D" -I"$R/basiclog/include" -I"$R/basicsys/include" -I"$R/basicmath/include" \
  -I"$R/basicimg/include" -isystem "$R/basic_thrid_libs/lib_opencv/341/include" "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group "$R"/_build/libbasic*.a -Wl,--end-group -Wl,--unresolved-symbols=ignore-all -rdynamic -lpthread
cd "$T"
OMP_NUM_THREADS=8 timeout 120 ./demo
