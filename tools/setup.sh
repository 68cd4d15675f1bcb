#!/bin/bash
# Builds the monitors once (each check rebuilds on its own what it needs).
cd /verif || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg doodle_verif -Awarnings"
mkdir -p evidence build
cargo build -q --offline --manifest-path harness/Cargo.toml
