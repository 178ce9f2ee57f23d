#!/bin/bash
# usage: mkseed.sh <id> <property> <needs> <what>   (patched tree in /tmp/sw, demo main.go in /tmp/sw.main.go)
# Verifies a planted bug in the scratch copy /tmp/sw and stores it under seeded/<id>.
set -u
id=$1; prop=$2; needs=$3; what=$4
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
d=$here/seeded/$id
cd /tmp/sw || exit 3
git diff > /tmp/sw.diff
[ -s /tmp/sw.diff ] || { echo "no change in /tmp/sw"; exit 1; }
go build ./... || { echo "does not build"; exit 1; }
sed "s#/repo/#/tmp/sw/#g" /opt/vp/overlay.json > /tmp/sw.ov.json; go test -overlay /tmp/sw.ov.json -json -vet=off -count=1 -timeout 10m ./... > /tmp/sw.log 2>/dev/null
python3 /opt/vp/results.py /tmp/sw.json "gojson:/tmp/sw.log" >/dev/null
python3 - <<'P' || { echo "stable tests fail"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sw.json'))
def names(x): return set(x if isinstance(x,list) else x.keys())
base=b.get('stable') or b.get('passed') or b
ok=set(r.get('passed',[]))
miss=[t for t in base if t not in ok]
print("tests: missing", miss[:5]); sys.exit(1 if miss else 0)
P
mkdir -p "$d"; cp "$here"/tools/demo/demo.sh "$d"/; [ -n "${NOENV:-}" ] || cp "$here"/tools/demo/*.go "$d"/; cp /tmp/sw.main.go "$d"/main.go
bash "$d/demo.sh"; with=$?
git stash -q; bash "$d/demo.sh"; without=$?; git stash pop -q
echo "demo with=$with without=$without"
[ $with -ne 0 ] && [ $without -eq 0 ] || { echo "demo does not discriminate"; exit 1; }
cp /tmp/sw.diff "$d/patch.diff"
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
git checkout -q -- .
echo "stored $d"
