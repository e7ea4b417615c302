#!/bin/sh
# bc.sh OUT SRC [flags...]: compile one source to bitcode for the executor
out=$1; src=$2; shift 2
d=$(dirname "$0")
exec clang++-18 -std=c++17 -O1 -g1 -emit-llvm -c -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_ASSERTIONS -include $d/psx_pre.h -isystem $d/shadow -I$d "$@" "$src" -o "$out"
