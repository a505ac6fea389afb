#!/bin/bash
# exit 0: the property holds for the history in main.rs; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER=
unset RUSTFLAGS
mkdir -p "$w/src"
cp "$here/main.rs" "$here/common.rs" "$w/src/"
cp "$repo/Cargo.lock" "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
octane = { path = "$repo", features = ["extended_queries"] }
tokio = { version = "0.3", features = ["net", "io-util", "rt-multi-thread", "rt"] }
libc = "0.2"
cookie = "0.14"
[profile.dev]
debug = 0
[workspace]
T
cd "$w" || exit 2
cargo build --offline -q > build.log 2>&1 || { cat build.log; exit 2; }
mkdir scratch && cd scratch && timeout 120 ../target/debug/demo
