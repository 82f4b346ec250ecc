# Sourced by setup.sh and check.sh
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS=-Awarnings
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT
REPO=/repo
export CARGO_TARGET_DIR=$VERIF_ROOT/target
# the build scripts of russell do not watch the C code, but they watch CFLAGS
CFLAGS="-DC_CODE_HASH=0x$(cd $REPO && find russell_*/c_code -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
export CFLAGS

# build NAME: builds one harness from the current working tree of /repo
build() {
  mkdir -p "$CARGO_TARGET_DIR"
  # cargo decides by modification times; make sure by content as well
  local now last
  now=$(cd $REPO && find Cargo.toml russell_*/src russell_*/c_code russell_*/data russell_*/Cargo.toml russell_*/build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
  last=$(cat "$CARGO_TARGET_DIR/src.hash" 2>/dev/null)
  if [ "$now" != "$last" ]; then
    if [ -d "$CARGO_TARGET_DIR/debug/.fingerprint" ]; then
      find "$CARGO_TARGET_DIR/debug/.fingerprint" -mindepth 1 -maxdepth 1 -name 'russell_*' -exec rm -rf {} +
    fi
    echo "$now" > "$CARGO_TARGET_DIR/src.hash"
  fi
  (cd "$VERIF_ROOT/h/$1" && cargo build --offline --quiet)
}
