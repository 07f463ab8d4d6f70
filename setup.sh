#!/bin/bash
# Builds the conformance harness (and siderust) from the committed files, offline.
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(dirname "$PWD")/target"
cargo build --offline --locked || exit 1
tlc -h >/dev/null 2>&1 || true
