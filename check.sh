#!/bin/bash
# ./check.sh <ID> [--replay FILE]   - build the check of one property against /repo and run it
# ./check.sh --build                - build everything (setup)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=/verif/target
cd /verif/harness || exit 2
# cargo compares mtimes only: always look at /repo's sources afresh
rm -rf /verif/target/release/.fingerprint/magog-*
if [ "$1" = --build ]; then
  exec cargo build --release --offline --bins
fi
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=$(mktemp)
if ! cargo build --release --offline --bin "$bin" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "check $id: build failed" >&2
  exit 2
fi
rm -f "$log"
exec "/verif/target/release/$bin" "$@"
