#!/bin/bash
# mut.sh CHECK PATCHFILE...: runs a check against copies of /repo with a patch applied
chk=$1; shift
for p in "$@"; do
  d=$(mktemp -d /tmp/mut.XXXXXX); chmod 755 $d; cp -a /repo/. $d/repo 2>/dev/null || { mkdir $d/repo; cp -a /repo/. $d/repo/; }
  if ! git -C $d/repo apply "$p"; then echo "$p: does not apply"; rm -rf "$d"; continue; fi
  t=$(date +%s)
  VERIF_REPO=$d/repo VERIF_BUILD=$d/build VERIF_EVIDENCE=$d/ev python3 $(dirname $0)/check.py $chk > $d/out 2>&1; rc=$?
  echo "== $p: rc=$rc $(( $(date +%s) - t ))s $(grep -v '^$' $d/out | head -2 | cut -c1-200 | tr '\n' '|')"
  [ -n "$MUT_SHOW" ] && tail -30 $d/out
  rm -rf "$d"
done
