#!/bin/bash
# Builds every explorer once, offline.
cd "$(dirname "${BASH_SOURCE[0]}")/mc" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$(dirname "$PWD")/target}
cargo build --release --offline --locked --bins
