#!/bin/bash
# tools/runseeds.sh [tier] ID...: runs the check of each planted change against a scratch copy that has it
cd "$(dirname "$0")/.." || exit 2
tier=quick; case "$1" in quick|thorough) tier=$1; shift;; esac
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  w=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo/. "$w"
  (cd "$w" && git apply "$OLDPWD/seeded/$id/patch.diff") || { echo "$id does not apply"; rm -rf "$w"; continue; }
  p=${CHECK:-$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  s=$(date +%s); out=$(VF_REPO="$w" ./run "$p" $tier 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
  rm -rf "$w"
done
