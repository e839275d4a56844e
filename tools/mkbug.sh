#!/bin/bash
# usage: mkbug.sh ID < python edit script using sub(file, old, new); fills seeded/ID with the patch and the demo support.
id=$1; V="$(cd "$(dirname "$0")/.." && pwd)"; d="$V/seeded/$id"; mkdir -p "$d"
W=/tmp/mk.$id; rm -rf "$W"; git clone -q /repo "$W"; cat > /tmp/mk.py
cd "$W" && python3 - <<'P'
def sub(f, a, b, n=1):
    s = open(f).read()
    assert s.count(a) == n, (f, s.count(a), a)
    open(f, 'w').write(s.replace(a, b))
exec(open('/tmp/mk.py').read())
P
git diff > "$d/patch.diff"; cp "$V"/tools/demo/{fake.rs,wire.rs,demo.sh,Cargo.lock} "$d/"
cd /; rm -rf "$W"; wc -l "$d/patch.diff"
