#!/bin/bash
# Builds the little program main.rs against the vertigo crate of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
vertigo = { path = "$repo/crates/vertigo", features = ["chrono"] }
[profile.dev]
debug = false
[workspace]
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
(cd "$t" && cargo build -q --offline --target-dir "$t/target" 2>"$t/log") || { cat "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo"
