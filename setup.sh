#!/bin/bash
# Builds the framework once (checks rebuild what they need themselves).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
cargo build --offline -q --workspace
