export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}"
export RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export HX_VERIF="$(pwd)"
export CARGO_TARGET_DIR="$HX_VERIF/target"
export VERIF_SEED="${VERIF_SEED:-1}"
HX_BIN="$CARGO_TARGET_DIR/debug/hxcheck"
build() {
  local log="$HX_VERIF/build.log"
  mkdir -p "$HX_VERIF/target"
  if ! cargo build --offline --locked --manifest-path "$HX_VERIF/harness/Cargo.toml" >"$log" 2>&1; then
    echo "error: harness build failed" >&2; tail -n 60 "$log" >&2; return 1
  fi
}
