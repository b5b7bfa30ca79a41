#!/bin/bash
# trybug.sh ID...: demo + check with and without the patch (no test suite unless T=1)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --short)" ] && { echo "repo dirty"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || exit 1
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
  VERIF_SEED=${VERIF_SEED:-1} python3 /verif/run.py $p --tier quick >/tmp/check.log 2>&1; c=$?
  t=""; [ "${T:-0}" = 1 ] && t=$(/tmp/t.sh | cut -c1-200)
  git -C /repo checkout -q -- .
  echo "$id demo=$a/$b check=$c $(grep -c '^VIOLATION' /tmp/check.log) $(grep '^VIOLATION' /tmp/check.log | head -1 | cut -c1-150) $t"
done
