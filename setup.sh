#!/bin/bash
# builds the symbolic executor and, once, everything the checks rebuild from /repo
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd symex && cargo build --release --offline)
python3 check.py --build
