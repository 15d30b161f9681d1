#!/bin/bash
# check.sh check ID quick|thorough     build the harness from /repo's current tree, run one property's check
# check.sh replay ID TIER SEED INDEX   run one case again, verbosely
# check.sh build                       only build
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${VH_TOOLCHAIN:-$(sed -n 's/.*RUSTUP_TOOLCHAIN=\([^ ;]*\).*/\1/p' /opt/vp/env.sh 2>/dev/null | tr -d '"'"'" | head -1)}"
[ -n "$RUSTUP_TOOLCHAIN" ] || unset RUSTUP_TOOLCHAIN
export RUSTFLAGS=-Awarnings
build() {
  ( cd harness && CARGO_TARGET_DIR="$VERIF_DIR/harness/target" cargo build --offline -q 2>&1 ) || { echo "harness does not build"; exit 2; }
}
# the command line tool, for the checks that run it
build_cli() {
  ( cd harness && CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$VERIF_DIR/harness/target/cli" cargo build --offline -q --manifest-path /repo/Cargo.toml -p asciidork-cli 2>&1 ) || { echo "command line tool does not build"; exit 2; }
}
needs_cli() { case "$1" in C23|C29) build_cli ;; esac; }
VH="$VERIF_DIR/harness/target/debug/vh"
cmd=${1:-}; shift
case "$cmd" in
  build) build; build_cli ;;
  check) needs_cli "${1:-}"; build; exec "$VH" check "$@" ;;
  replay) needs_cli "${1:-}"; build; exec "$VH" replay "$@" ;;
  *) echo "usage: check.sh check ID TIER | replay ID TIER SEED INDEX" >&2; exit 2 ;;
esac
