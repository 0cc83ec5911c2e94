#!/bin/bash
# builds demo.rs (beside this script) against the contract in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
oraiswap-v3 = { path = "$repo/contracts/oraiswap-v3", features = ["library"] }
oraiswap-v3-wasm = { path = "$repo/wasm" }
decimal = { path = "$repo/packages/decimal" }
cosmwasm-std = "=1.2"
cw20 = "1.0.1"
[profile.dev]
debug = false
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run -q --offline
