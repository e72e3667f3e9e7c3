#!/bin/bash
# usage: check.sh ID | check.sh replay FILE | check.sh --build
# Builds the harness against /repo's current tree and runs one property's check.
# Exit: 0 held, 1 violation (VIOLATION line on stdout), 2 error of the check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
target="$here/harness/target"
mkdir -p "$target" "$here/evidence"

build() {
  exec 9>"$target/.check.lock"
  flock 9
  # File times say nothing about a checked-out or patched tree: rebuild by content.
  local sum
  sum="$(cd /repo && { find src -type f -print0; printf 'Cargo.toml\0README.md\0'; } | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$target/.bnf.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$target/.bnf.sum"
    (cd "$here/harness" && cargo clean --release --offline -p bnf) >/dev/null 2>&1
  fi
  local log="$target/.build.log"
  # the second build leaves out the one mode that needs more than the plain signatures (C05)
  if ! (cd "$here/harness" && cargo build --release --offline) >"$log" 2>&1 &&
     ! (cd "$here/harness" && cargo build --release --offline --no-default-features) >>"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
  fi
  printf '%s\n' "$sum" >"$target/.bnf.sum"
  export BNF_SUM="$sum"
  exec 9>&-
}

case "${1:-}" in
  --build) build; exec "$target/release/bnfcheck" prebuild ;;
  replay) build; exec "$target/release/bnfcheck" replay "$2" ;;
  C[0-9][0-9]) build; exec "$target/release/bnfcheck" run "$1" ;;
  *) echo "usage: check.sh ID | replay FILE | --build" >&2; exit 2 ;;
esac
