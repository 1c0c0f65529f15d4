#!/bin/bash
# seed.sh NAME -- confirms /verif/seeded/NAME: applies, builds, passes the stable tests,
# demo passes without and fails with it. Works on a scratch copy of /repo.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
N=$1; S=$V/seeded/$N
D=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cp -a "$S" "$D/demo"; rm -f "$D"/demo/*.diff "$D/demo/meta.json"
cd "$D/repo" || exit 2
for i in 1 2; do timeout 300 bash "$D/demo/demo.sh" > "$D/log" 2>&1 || { echo "$N: demo fails on the unchanged tree"; tail -20 "$D/log"; exit 1; }; done
git apply "$S/patch.diff" || { echo "$N: does not apply"; exit 1; }
go build ./... || { echo "$N: does not build"; exit 1; }
go test -json -vet=off -count=1 ./... > "$D/t.json" 2>&1
python3 - "$D/t.json" <<'P' || { echo "$N: breaks the stable tests"; exit 1; }
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
miss=st-ok
if miss: print(sorted(miss)); sys.exit(1)
P
for i in 1 2 3; do timeout 300 bash "$D/demo/demo.sh" > "$D/log" 2>&1 && { echo "$N: demo passes with the change"; exit 1; }; done
echo "$N: confirmed: $(grep -m1 -E '^\s+.*_test.go|panic:|FAIL' "$D/log" | cut -c1-150)"
