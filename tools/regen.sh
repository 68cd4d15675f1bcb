#!/bin/bash
# development helper: regenerate /repo/generated/gencode.rs with the current code generator
cd /repo && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build -q --offline 2>&1 | grep -E "^error" -A9
target/debug/doodle format --output rust --dest /tmp/regen.rs && cp /tmp/regen.rs generated/gencode.rs; rm -f /tmp/regen.rs
git diff --stat
