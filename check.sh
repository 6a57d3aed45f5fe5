#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     (exit 0: held, 1: VIOLATION, 2: error)
#        check.sh build                       (compile only)
#        check.sh replay FILE                 (run one recorded case again)
# Rebuilds venial from /repo's working tree every time.
set -u
cd "$(dirname "$0")" || exit 2
export VMC_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/.build"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="" CARGO_ENCODED_RUSTFLAGS=""
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" evidence replay
log="$CARGO_TARGET_DIR/build.log"
(
  flock 9
  # never trust file times to decide whether /repo changed
  one() {
    cargo clean --profile "$1" --offline --manifest-path mc/Cargo.toml -p venial &&
      cargo build --profile "$1" --offline --manifest-path mc/Cargo.toml
  }
  one plain >"$log.plain" 2>&1 &
  one release >"$log" 2>&1 || exit 1
  wait $! || { cat "$log.plain" >>"$log"; exit 1; }
) 9>"$CARGO_TARGET_DIR/lock" || { tail -n 60 "$log" >&2; echo "the check could not be built" >&2; exit 2; }
case "${1:-}" in
  build) exit 0 ;;
  replay) "$CARGO_TARGET_DIR/release/vmc" replay "$2" && exec "$CARGO_TARGET_DIR/plain/vmc" replay "$2" ;;
  *) exec "$CARGO_TARGET_DIR/release/vmc" check "$1" "${2:-quick}" ;;
esac
