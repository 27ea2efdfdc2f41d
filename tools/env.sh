# Sourced: offline build environment (pinned toolchain, vendored crates, target dir outside /repo).
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-11-14 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${VK_TARGET:-$ROOT/target}
export RUSTFLAGS="--cfg kogarashi_verif -Awarnings"
build() {
  local d="$ROOT/harness/$1"
  local log="$CARGO_TARGET_DIR/build-$1.log"
  mkdir -p "$CARGO_TARGET_DIR"
  ( cd "$d" && cargo build --release --offline \
      --config 'source.crates-io.replace-with="vp-vendor"' \
      --config 'source.vp-vendor.directory="/opt/vp/vendor"' ) >"$log" 2>&1 \
    || { grep -E '^(error|warning: unused)' -A 12 "$log" | head -80; return 1; }
}
