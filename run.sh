#!/bin/bash
# run.sh <id> quick|thorough | replay <file> | build | list
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/mc/target" RUST_BACKTRACE=0
build() {
  python3 mc/prep.py "${VERIF_SRC:-/repo/src}" >mc/prep.log 2>&1 || { cat mc/prep.log >&2; return 1; }
  # parts that call inner interfaces directly are left out when those have changed
  for f in pools,codecs codecs pools ""; do
    (cd mc && cargo build --offline --quiet -p sys --bin check --features "$f" >build.log 2>&1) && return 0
  done
  tail -40 mc/build.log >&2
  return 1
}
build || exit 2
[ -e mc/sut/gen/ISOLATE ] && export VERIF_ISOLATE=1
mkdir -p evidence replays
case "${1:-}" in
  build) exit 0 ;;
  list) exec "$CARGO_TARGET_DIR/debug/check" list ;;
  replay) exec "$CARGO_TARGET_DIR/debug/check" replay "$2" ;;
  *) exec "$CARGO_TARGET_DIR/debug/check" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
