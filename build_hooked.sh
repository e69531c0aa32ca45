#!/bin/bash
# compile $1/hooked.ll, the program with switch points inserted by tools/hooks.py, natively: $1/hooked
set -e
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
LIB=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
$LIB/bin/llc -O0 -filetype=obj -relocation-model=pic $1/hooked.ll -o $1/hooked.o
cc $1/hooked.o $(ls $LIB/lib/libcompiler_builtins-*.rlib) -o $1/hooked -lgcc_s -lpthread -ldl -lm -lc
rm -f $1/hooked.o
