#!/bin/bash
# build.sh <part>...   parts: app ts cli
# Builds from /repo's current working tree into /verif/target (git-ignored).
set -e
cd "$(dirname "$0")"
ROOT=$(pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p target
exec 9>target/.lock
flock 9
for part in "$@"; do
  case "$part" in
    app) (cd app && cargo build -q --target wasm32-unknown-unknown --target-dir "$ROOT/target/app" --offline --locked 2>"$ROOT/target/app.log") || { cat target/app.log >&2; exit 3; } ;;
    # programs generated for one property: a derive or macro that rejects them is reported by that check
    tiny) (cd tiny && cargo build -q --target wasm32-unknown-unknown --target-dir "$ROOT/target/tiny" --offline --locked 2>"$ROOT/target/tiny.log") || { cat target/tiny.log >&2; exit 3; } ;;
    types) rm -f target/types.log.failed
         (cd types && cargo build -q --target wasm32-unknown-unknown --target-dir "$ROOT/target/types" --offline --locked 2>"$ROOT/target/types.log") || mv target/types.log target/types.log.failed ;;
    ts) /opt/veriftools/node/node_modules/.bin/esbuild /repo/crates/vertigo/src/driver_module/src_js/index.ts --bundle --format=iife --target=es2022 --log-level=error --tsconfig-raw='{}' --outfile=target/ts_run.js || exit 3 ;;
    cli) [ -f /repo/Cargo.lock ] || cp cli.lock /repo/Cargo.lock
         (cd /repo && cargo build -q -p vertigo-cli --bin vertigo --target-dir "$ROOT/target/cli" --offline --config 'profile.dev.package."*".opt-level=1' 2>"$ROOT/target/cli.log") || { cat target/cli.log >&2; exit 3; } ;;
  esac
done
