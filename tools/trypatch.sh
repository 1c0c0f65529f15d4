#!/bin/bash
# trypatch.sh PATCH ID... -- runs checks against a scratch copy of /repo with PATCH applied.
set -u
case $1 in revert:*) R=${1#revert:} P=;; *) R= P=$(realpath "$1");; esac; shift
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/trypatch.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
(cd "$D/repo" && if [ -n "$R" ]; then git revert -n $R; else git apply ${REVERSE:-} "$P"; fi) || { echo "patch does not apply"; exit 3; }
for id in "$@"; do
  VERIF_REPO=$D/repo VERIF_OUT=$D/out VERIF_DATA=$D/data "$V/check" "$id" ${TIER:-quick} ${ARGS:-} > "$D/log" 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 '^violation of' "$D/log" | cut -c1-300)"
  [ $rc -gt 1 ] && tail -20 "$D/log"
  [ -n "${SHOW:-}" ] && cat "$D/log"
done
exit 0
