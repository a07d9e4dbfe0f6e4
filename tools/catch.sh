#!/bin/sh
# development: run each planted bug's own property check (or the checks given in $CHECKS) against a scratch copy with the bug
for id in "$@"; do
  id=$(basename "$id")
  w=$(mktemp -d /tmp/catch-XXXXXX)
  git clone -q ${SEED_REPO:-/repo} "$w/repo"
  if ! git -C "$w/repo" apply "${SEED_ROOT:-/verif}/seeded/$id/patch.diff"; then echo "$id DOES NOT APPLY"; rm -rf "$w"; continue; fi
  p=$(python3 -c "import json;print(json.load(open('${SEED_ROOT:-/verif}/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    cp -a ${SRC:-/verif}/lib ${SRC:-/verif}/checks ${SRC:-/verif}/check ${SRC:-/verif}/known_findings.txt "$w/" 2>/dev/null
    s=$(date +%s)
    out=$(cd "$w" && MC_REPO="$w/repo" ./check $c 2>&1); rc=$?
    e=$(date +%s)
    echo "$id $c rc=$rc $((e-s))s $(echo "$out" | grep -A3 -m1 '^VIOLATION' | sed 's/^ *//' | tr '\n' ' ' | cut -c1-400)"
  done
  rm -rf "$w"
done
