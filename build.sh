#!/bin/bash
# Build the harness against /repo's current working tree (offline). Prints only on failure.
set -u
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="${GBT_RUSTFLAGS:-}"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.gbt-lock"
flock 9
# cargo goes by file times; go by content as well
now="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.gbt-stamp" 2>/dev/null)" != "$now" ]; then
  (cd "$V/harness" && cargo clean --offline --release -p generic-btree -p gbt-harness) >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/.gbt-build.log"
if ! (cd "$V/harness" && cargo build --offline --release --locked) >"$log" 2>&1; then
  rm -f "$CARGO_TARGET_DIR/.gbt-stamp"
  echo "ERROR: the harness does not build against /repo" >&2
  grep -A12 '^error' "$log" | head -40 >&2
  exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/.gbt-stamp"
