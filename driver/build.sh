#!/bin/bash
# builds the MIR dumper (nightly + rustc-dev), offline
set -e
cd "$(dirname "$0")"
N=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu
RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-C link-arg=-Wl,-rpath,$N/lib" \
  CARGO_TARGET_DIR=../build/driver cargo build --offline --release -q
