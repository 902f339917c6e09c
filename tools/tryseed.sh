#!/bin/bash
# tryseed.sh ID... : demo + check with each change applied to /repo, then undone.
# Builds the library only; vcheck builds and tests everything.
B="ninja -C /repo/_build lib/scram/libscram.so bin/scram"
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo dirty; exit 1; }
  $B >/tmp/w/seedbuild.log 2>&1
  bash $d/demo.sh >/tmp/w/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  $B >/tmp/w/seedbuild.log 2>&1 || echo "$id: BUILD FAILED"
  bash $d/demo.sh >/tmp/w/demo1.log 2>&1; r1=$?
  rc=-; : >/tmp/w/check.log
  if [ -z "$NOCHECK" ]; then cd /verif; VERIF_SEED=1 timeout 900 python3-vt scv/check.py $p --tier quick >/tmp/w/check.log 2>&1; rc=$?; cd /repo; fi
  git checkout -q -- .
  echo "$id $p: demo clean=$r0 patched=$r1 check=$rc $(grep -c 'failed obligation' /tmp/w/check.log) obl; $(grep VIOLATION /tmp/w/check.log)"
done
$B >/tmp/w/seedbuild.log 2>&1
