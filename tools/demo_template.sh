#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
# exit 0: behaves as the property says; nonzero: it does not.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}"
export RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D="$(mktemp -d)" || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" && cp "$HERE/main.rs" "$D/src/main.rs" && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
hexodsp = { path = "$REPO" }
serde_json = "1.0"
[workspace]
[profile.dev]
opt-level = 1
debug = false
T
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$D/target}"
cd "$D" || exit 3
cargo build --offline >"$D/log" 2>&1 || { tail -30 "$D/log"; exit 3; }
mkdir "$D/run" && cd "$D/run" || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
