#!/bin/bash
# builds the extractor and the replay harness (checks rebuild what they need themselves)
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR=.cache/ext RUSTFLAGS=-Awarnings cargo build --offline --release -q --manifest-path extract/Cargo.toml
CARGO_TARGET_DIR=.cache/rt RUSTFLAGS=-Awarnings cargo build --offline --release -q --manifest-path replay/Cargo.toml || true
(cd /repo/programs/hmmcl-sandbox && CARGO_TARGET_DIR=/verif/.cache/exp RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Awarnings cargo rustc --offline --lib --profile check -- -Zunpretty=expanded > /verif/.cache/expanded.rs) || true
