#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Builds the monitors against /repo's current tree and runs one of them.
# exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: no verdict.
set -u
ID=$1; TIER=${2:-quick}
cd /verif || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg doodle_verif -Awarnings"
mkdir -p evidence build
cargo build -q --offline --manifest-path harness/Cargo.toml 2>build/cargo-$ID.log || { tail -40 build/cargo-$ID.log; exit 2; }
[ -x tools/pre-$ID.sh ] && { tools/pre-$ID.sh "$TIER" || exit 2; }
target/debug/dvh run "$ID" "$TIER"
