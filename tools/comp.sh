#!/bin/bash
# comp.sh spec.cpp out.json
o=${2%.json}
clang++-18 --target=wasm64-unknown-unknown -std=c++17 -fno-access-control -O1 -Xclang -disable-llvm-passes -Xclang -mno-constructor-aliases -fexceptions -fcxx-exceptions -ffp-contract=off -fno-math-errno -g1 -D__x86_64__ -DXOV_SYM -nostdinc++ -nostdlibinc -w -isystem /verif/xov/shim -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu -isystem /usr/include -I /verif/xov -I ${XOV_REPO:-/repo} $(grep -qm1 "^#define XOV_CONCRETE" $1 && echo -DXOV_CONCRETE) -include xov_std.h -emit-llvm -c $1 -o $o.bc && opt-18 -passes='sroa,loop-simplify' $o.bc -o $o.2.bc && /tmp/irdump $o.2.bc > $2
