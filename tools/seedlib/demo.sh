#!/bin/bash
# Run with cwd = the repository, after its build. Builds demo.rs (and the helper modules beside it) against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/*.rs "$w/src/"
mv "$w/src/demo.rs" "$w/src/main.rs"
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
resolver = "2"
[dependencies]
tket = { path = "$repo/tket", features = ["portmatching"] }
tket-qsystem = { path = "$repo/tket-qsystem" }
serde_json = "1"
itertools = "0.14"
smol_str = "0.3"
serde = { version = "1", features = ["derive"] }
T
[ -f "$repo/target/vp-ws/Cargo.lock" ] && cp "$repo/target/vp-ws/Cargo.lock" "$w/Cargo.lock"
export HOME=${HOME:-/root} PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$repo/target
cd "$w" && cargo build --offline -q 2>"$w/log" || { tail -20 "$w/log"; exit 2; }
timeout 200 "$repo/target/debug/demo"
