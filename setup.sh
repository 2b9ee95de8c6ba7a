#!/bin/bash
# Builds the extractor and the harness binaries from the committed files (offline).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=../target/extract cargo build --offline -q)
(cd harness && RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=1.85.0 CARGO_TARGET_DIR=../target/harness cargo build --offline -q --bins)
echo setup done
