#!/bin/bash
# Builds and runs the demonstration beside this script against the yamux in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/net.rs" "$tmp/src/"
[ ! -f "$repo/Cargo.lock" ] || cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
yamux = { path = "$repo/yamux" }
futures = { version = "0.3", default-features = false, features = ["std", "executor"] }
T
cd "$tmp"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet
timeout 60 "$tmp/target/debug/demo"
