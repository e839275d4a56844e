#!/bin/bash
# usage: confirm.sh ID...: a planted bug compiles, passes the stable tests, and its demonstration tells it apart.
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  d="$V/seeded/$id"
  W=/tmp/wt.$id; rm -rf "$W"; cp -a /repo "$W"; cd "$W" && git checkout -q -- .
  res="$id:"
  bash "$d/demo.sh" >/tmp/wt.$id.log 2>&1 && res="$res clean-ok" || { res="$res CLEAN-FAILS"; tail -3 /tmp/wt.$id.log; }
  if git apply "$d/patch.diff"; then
    n=$(cargo test --offline -- --test-threads 1 --skip gripper::tests:: 2>&1 | grep "^test result" | awk '{p+=$4;f+=$6} END{print p"/"f"failed"}')
    res="$res tests:$n"
    bash "$d/demo.sh" >/tmp/wt.$id.log 2>&1; rc=$?
    res="$res demo=$rc $(grep -v '^ ' /tmp/wt.$id.log | tail -1 | cut -c1-160)"
  else res="$res NO-APPLY"; fi
  echo "$res"; cd /; rm -rf "$W" /tmp/wt.$id.log
done
