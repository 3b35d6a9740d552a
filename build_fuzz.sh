#!/bin/bash
# Build the coverage-guided fuzzer (thorough tier) against /repo's current working tree (offline). Prints its path.
set -u
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target/fuzz" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.gbt-lock"
flock 9
now="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.gbt-stamp" 2>/dev/null)" != "$now" ]; then
  (cd "$V/fuzz" && cargo clean --offline --release --target x86_64-unknown-linux-gnu -p generic-btree -p gbt-harness -p gbt-fuzz) >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/.gbt-build.log"
if ! (cd "$V/fuzz" && cargo build --offline --release --locked --target x86_64-unknown-linux-gnu) >"$log" 2>&1; then
  rm -f "$CARGO_TARGET_DIR/.gbt-stamp"
  echo "ERROR: the fuzzer does not build against /repo" >&2
  grep -A12 '^error' "$log" | head -40 >&2
  exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/.gbt-stamp"
echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/gbt-fuzz"
