#!/bin/bash
# development helper: does the code generated from the shipped formats equal the committed one?
cd /repo && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build -q --offline 2>&1 | grep -E "^error" -A5; target/debug/doodle format --output rust --dest /tmp/same.rs && cmp /tmp/same.rs generated/gencode.rs && echo same; rm -f /tmp/same.rs
