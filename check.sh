#!/bin/bash
# usage: check.sh build | check.sh <property> quick|thorough | check.sh replay FILE
# Builds the model checker together with the library from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD" CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
mkdir -p out evidence
log=out/build.$$.log
if ! (cd harness && cargo build --offline --locked --target-dir "$MC_ROOT/out/target") >"$log" 2>&1; then
  cat "$log" >&2
  echo "the model checker does not build against /repo" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) exec out/target/debug/mc replay "$2" ;;
  *) exec out/target/debug/mc check "$1" "${2:-quick}" ;;
esac
