# build one harness crate: b.sh NAME -> path of .ll
cd /verif/harness/$1 && export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/work/t-$1
cargo rustc --release --lib --crate-type staticlib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error|Finished" -A9
ls $CARGO_TARGET_DIR/release/deps/*.ll
