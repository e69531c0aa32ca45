#!/bin/bash
# build the symbolic execution engine and the IR of the harness (checks do the same; this only shows that it works)
set -e
cd "$(dirname "$0")"; mkdir -p out
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd engine && CARGO_TARGET_DIR=../out/engine-target cargo build --offline --release)
bash build_ir.sh "$PWD/out"
