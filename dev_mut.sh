#!/bin/bash
# dev_mut.sh <patch> <prop>... : developer tool, runs quick checks against a scratch copy of /repo with a patch applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutXXXX)
git -C /repo worktree list >/dev/null
mkdir $d/repo; git -C /repo archive HEAD | tar -x -C $d/repo
(cd $d/repo && git init -q . && git apply "$p") || { echo "patch failed"; rm -rf $d; exit 9; }
for c in "$@"; do
  MC_REPO=$d/repo MC_BUILD=$d/b timeout 900 python3 /verif/check.py $c quick > $d/out 2>&1; rc=$?
  echo "$(basename $p) $c rc=$rc $(grep -m1 -B30 VIOLATION $d/out | head -1 | cut -c1-160) $(tail -1 $d/out | cut -c1-100)"
done
rm -rf $d
