#!/bin/bash
# seed.sh NAME [check-id ...]: in a scratch copy of /repo, confirm that a planted change behaves as claimed and
# run checks against it.
N=$1; shift
P=/verif/seeded/$N
S=/tmp/mut/$N
mkdir -p /tmp/mut; rm -rf "$S"; git clone -q /repo "$S" || exit 1
cd "$S"
bash $P/demo.sh >/tmp/mut/$N.log 2>&1; echo "$N demo unchanged: $?"
git apply $P/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash $P/demo.sh >>/tmp/mut/$N.log 2>&1; echo "$N demo patched: $?"
for c in "$@"; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$S VERIF_BUILD=/tmp/mut/build timeout 900 python3 check.py $c >/tmp/mut/$N.$c.log 2>&1; echo "$N check $c: rc=$? $(grep -m1 VIOLATION /tmp/mut/$N.$c.log)")
done
rm -rf "$S"
