#!/bin/bash
# build a native driver by hand: nb.sh SRC OUT [flags]
src=$1; out=$2; shift 2
g++ -std=c++17 -O1 -g -w -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= -DNDEBUG -I/repo/include -I/repo -I/repo/src -I/repo/ext/lz4 -I/verif/stubs/tsl_native -I/verif/stubs/nanothread/include -I/verif/harness -I/verif/native "$@" /verif/native/$src -o $out -lpthread -ldl -no-pie -fno-pie -Wl,--unresolved-symbols=ignore-all
