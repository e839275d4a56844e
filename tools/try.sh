#!/bin/bash
# usage: try.sh BUG PROPERTY...: applies a planted bug to /repo, runs quick checks, undoes it.
b=$1; shift
V="$(cd "$(dirname "$0")/.." && pwd)"
git -C /repo apply "$V/seeded/$b/patch.diff" || exit 2
for p in "$@"; do
  s=$(date +%s); timeout 900 bash "$V/check.sh" $p quick >/tmp/try.out 2>/dev/null; rc=$?
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.out | cut -c1-100)"
done
git -C /repo checkout -q -- .
