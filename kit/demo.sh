#!/bin/bash
# Builds main.rs with /repo's current sources (the crates that are not available offline are replaced by the
# stand-ins in kit/stubs) and runs it in a scratch directory.
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r "$d/kit/." "$t/"
cp "$d/main.rs" "$t/demo/src/main.rs"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t/demo"
cargo build --offline --locked -q >"$t/log" 2>&1 || { cat "$t/log"; exit 2; }
timeout 100 "$t/target/debug/demo" </dev/null 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
