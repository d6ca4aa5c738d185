#!/bin/bash
# validates seeded changes: seedcheck.sh id...   (demo clean, builds, tests, demo patched, check catches)
R=${VERIF_REPO:-/repo}; cd $R || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/sc.out 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -n "$NOTEST" ]; then n=skipped; else bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.log 2>&1; n=$(python3 -c "import json;d=json.load(open('/tmp/sc.json'));print(len(d['passed']),len(d['failed']))"); fi
  bash $d/demo.sh >/tmp/sc.out 2>&1; b=$?
  t0=$(date +%s)
  timeout 900 python3 /verif/run.py $prop >/tmp/sc.chk 2>/tmp/sc.err; c=$?
  t1=$(date +%s)
  git checkout -q -- .
  echo "$id $prop demo clean=$a patched=$b tests=[$n] check=$c $((t1-t0))s $(grep -v '^replay\|^VIOL\|^ *#' /tmp/sc.chk | head -1 | cut -c1-200) $( [ $c -ne 1 ] && tail -2 /tmp/sc.err)"
done
