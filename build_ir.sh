#!/bin/bash
# build the harness crate against /repo's working tree and leave the whole-program LLVM IR in $1/harness.ll
set -e
OUT=$1
. /opt/vp/env.sh >/dev/null 2>&1 || true
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_PRIMARY_PACKAGE=1
export CARGO_TARGET_DIR=$OUT/ir-target RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Ctarget-cpu=x86-64"
cd "$(dirname "$0")/harness"
rm -f $CARGO_TARGET_DIR/release/deps/harness-*.ll
cargo rustc --offline --release -- --emit=llvm-ir
ls -S $CARGO_TARGET_DIR/release/deps/harness-*.ll | grep -v rcgu | head -1 | xargs -I{} cp {} $OUT/harness.ll
