#!/bin/bash
# development helper: build the harness
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg doodle_verif -Awarnings"
cargo build --offline --manifest-path /verif/harness/Cargo.toml 2>&1 | grep -E "^error" -A 9 | head -${1:-100}
