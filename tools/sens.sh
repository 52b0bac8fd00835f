#!/bin/bash
# sens.sh PATCH CHECK... : run checks against a scratch copy of /repo with the
# patch applied (prefix the patch with "revert:" to give a commit to revert).
set -u
d=$(mktemp -d /tmp/sens.XXXXXX)
trap "rm -rf $d" EXIT
git -C /repo worktree list >/dev/null
cp -a /repo/pyslet "$d/" && mkdir "$d/.x"
p=$1; shift
if [[ $p == revert:* ]]; then
  git -C /repo show "${p#revert:}" | (cd "$d" && patch -p1 -R -s -f) || { echo "PATCH FAILED $p"; exit 3; }
else
  (cd "$d" && patch -p1 -s -f < "$p") || { echo "PATCH FAILED $p"; exit 3; }
fi
for c in "$@"; do
  VERIF_REPO=$d VERIF_SCRATCH=1 /verif/run_check.py $c --tier quick --no-min > $d/out 2>&1
  rc=$?
  echo "$p $c rc=$rc $(grep -E 'kind:|message:|scenario:' $d/out | tr -s ' ' | tr '\n' '|' | cut -c1-260)"
done
