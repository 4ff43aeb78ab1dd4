#!/bin/bash
# Builds the engine once, so that a broken toolchain shows up here.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$PWD/work/t-symex cargo build --release --offline --locked --manifest-path symex/Cargo.toml
work/t-symex/release/symex --version
