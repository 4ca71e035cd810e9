#!/bin/bash
# Builds the command line tool of the current directory and the little program lib.rs, and asks the running server for pages (run.mjs).
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir "$t/src"; cp "$here/lib.rs" "$t/src/lib.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
vertigo = { path = "$repo/crates/vertigo", features = ["chrono"] }
log = "0.4"
[profile.dev]
debug = false
[workspace]
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
(cd "$t" && CARGO_INCREMENTAL=0 cargo build -q --offline --target wasm32-unknown-unknown --target-dir "$t/target" 2>"$t/log") || { cat "$t/log"; exit 2; }
# the settings of the build, so that what it compiled is used
(. /opt/vp/env.sh 2>/dev/null; cd "$repo" && cargo build -q --workspace --all-features --bin vertigo --offline 2>"$t/log") || { cat "$t/log"; exit 2; }
mkdir "$t/dest"; cp "$t/target/wasm32-unknown-unknown/debug/demo.wasm" "$t/dest/app.wasm"
echo '{"run_js":"/build/run.js","wasm":"/build/app.wasm"}' > "$t/dest/index.json"
timeout 120 node "$here/run.mjs" "$repo/target/debug/vertigo" "$t/dest"
