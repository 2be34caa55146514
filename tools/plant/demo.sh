#!/bin/bash
# Runs demo.rs (beside this file) against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/rkdemo.XXXXXX) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/rk.rs" "$tmp/src/rk.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rust-raknet = { path = "$repo" }
tokio = { version = "1.20.1", features = ["full"] }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd "$tmp" || exit 2
cargo build --offline -q 2>build.log || { cat build.log; exit 2; }
timeout -k 1 150 "$tmp/target/debug/demo"
