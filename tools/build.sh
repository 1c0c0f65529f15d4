#!/bin/bash
# build.sh OUTDIR [race] -- instruments /repo's working tree and builds the
# simulation harness as OUTDIR/sim (or OUTDIR/simrace). Exit 2 on any trouble.
set -u
OUT=$1; MODE=${2:-}
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
mkdir -p "$OUT" || exit 2
if [ ! -e "$OUT/instr.ok" ]; then
  (cd "$VERIF/instr" && go build -o "$OUT/instr" .) || exit 2
fi
genmod() {
  {
    sed -e 's#^module .*#module trcharness#' -e 's#^go .*#go 1.24#' -e '/^toolchain/d' "$REPO/go.mod"
    echo
    echo "require github.com/peterbourgon/trc v0.0.0-00010101000000-000000000000"
    echo "require trcsim v0.0.0-00010101000000-000000000000"
    echo "replace trcsim => $VERIF/sim"
    for d in "$OUT"/src/mod/*; do
      echo "replace $(awk '$1=="module"{print $2; exit}' "$d/go.mod") => $d"
    done
  } > "$OUT/go.mod"
  cp "$REPO/go.sum" "$OUT/go.sum"
}
compile() {
  if [ "$MODE" = race ]; then
    # The standard library's pools synchronize their users, which would hide
    # races from the detector (every Sprintf takes part): without reuse, they don't.
    pool=$(go env GOROOT)/src/sync/pool.go
    if sed -e 's/^func (p \*Pool) Put(x any) {$/&\n\tif p != nil { return }/' -e 's/^func (p \*Pool) Get() any {$/&\n\tif p != nil { if p.New == nil { return nil }; return p.New() }/' "$pool" > "$OUT/pool.go" && [ "$(grep -c 'if p != nil { ' "$OUT/pool.go")" = 2 ]; then
      echo "{\"Replace\":{\"$pool\":\"$OUT/pool.go\"}}" > "$OUT/overlay.json"
    else
      echo '{"Replace":{}}' > "$OUT/overlay.json"
    fi
    (cd "$VERIF/harness" && GOEXPERIMENT=nosizespecializedmalloc go build -modfile="$OUT/go.mod" -overlay="$OUT/overlay.json" -race -gcflags='trcsim/...=-race=false' -gcflags='trcsim/sync/atomic=' -gcflags='trcharness/...=-race=false' -o "$OUT/simrace" . ) 2> "$OUT/build.log"
  else
    (cd "$VERIF/harness" && go build -modfile="$OUT/go.mod" -o "$OUT/sim" . ) 2> "$OUT/build.log"
  fi
}
if [ -e "$OUT/instr.ok" ]; then compile && exit 0; cat "$OUT/build.log" >&2; exit 2; fi
# Yield points need nothing but valid Go; should a rewriting of an unusual
# construct not compile, fall back to fewer of them rather than give up.
for level in 2 1 0; do
  rm -rf "$OUT/src"
  "$OUT/instr" -repo "$REPO" -out "$OUT/src" -level $level > "$OUT/instr.log" || exit 2
  genmod
  if compile; then echo $level > "$OUT/instr.ok"; exit 0; fi
  echo "build at instrumentation level $level failed:" >&2
  head -20 "$OUT/build.log" >&2
done
exit 2
