#!/bin/bash
# try.sh ID...: runs the check of each seeded change's property on a scratch copy of /repo with the change
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  T=$(mktemp -d /tmp/tryXXXX); cp -a /repo $T/repo
  git -C $T/repo apply /verif/seeded/$i/patch.diff || echo "no apply $i"
  YG_REPO=$T/repo YG_EVIDENCE=$T/ev timeout 900 python3-vt /verif/check.py $p > $T/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -E '^(VIOLATION|C[0-9]+:|failed obl)' $T/out | cut -c1-220 | tr '\n' '|')"
  rm -r -- "$T"
done
