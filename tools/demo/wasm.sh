#!/bin/bash
# Builds the little program lib.rs against the vertigo crate of the current directory and drives it (run.mjs) in a simulated browser.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir "$t/src"; cp "$here/lib.rs" "$t/src/lib.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
vertigo = { path = "$repo/crates/vertigo", features = ["chrono"] }
log = "0.4"
[profile.dev]
debug = false
[workspace]
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
(cd "$t" && cargo build -q --offline --target wasm32-unknown-unknown --target-dir "$t/target" 2>"$t/log") || { cat "$t/log"; exit 2; }
node --stack-size=4000 "$here/run.mjs" "$t/target/wasm32-unknown-unknown/debug/demo.wasm" "$repo/crates/vertigo/src/driver_module/wasm_run.js"
