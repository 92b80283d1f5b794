#!/bin/bash
# trybugs.sh ID...: runs the check of each planted bug's property on a changed scratch copy of /repo
cd "$(dirname "$0")/.."
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try_XXXXXX)
  cp -a /repo $w/repo
  git -C $w/repo apply "$PWD/seeded/$b/patch.diff" || { rm -rf $w; continue; }
  out=$(VERIF_REPO=$w/repo VERIF_SEED=1 bash check.sh $p quick 2>&1); rc=$?
  rm -rf $w
  echo "$b $p exit=$rc $(echo "$out" | grep -c VIOLATION) violations, $(echo "$out" | grep -m1 clause) $(echo "$out" | tail -1)"
done
