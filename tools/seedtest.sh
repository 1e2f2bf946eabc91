#!/bin/bash
# builds a scratch copy of the repository and runs its unit tests there
R=$1
B=$R/_seedbuild
cmake -S $R/cmake -B $B -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=Debug \
  -Ddependencies_gtest_dir=/usr/src/googletest/googletest -Dhas_output_path=1 \
  -DCMAKE_RUNTIME_OUTPUT_DIRECTORY=$B/bin -DLIBRARY_OUTPUT_PATH=$B/lib -Wno-deprecated >/dev/null 2>&1
ninja -C $B -j8 > $B/log 2>&1 || { echo BUILD-FAILED; tail -5 $B/log; exit 1; }
mkdir -p $B/run && cd $B/run && timeout 600 $B/bin/core_testsd --gtest_filter='-TConnector.testFunc:TSocket.testFunc' 2>&1 | tail -6
