#!/bin/bash
# builds demo.rs against the crate built in the current directory and runs it in a scratch folder
set -e
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
deps=$PWD/target/debug/deps
lib() { ls -t "$deps"/lib"$1"-*.rlib | head -1; }
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
rustc --edition 2021 -L dependency="$deps" --extern osm_io="$(lib osm_io)" --extern anyhow="$(lib anyhow)" --extern prost="$(lib prost)" -o "$w/demo" "$d/demo.rs"
cd "$w"
timeout 200 ./demo
