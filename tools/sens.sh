#!/bin/bash
# sens.sh [--jobs N] ID...: runs each planted bug's quick check in a scratch copy of the committed /verif and /repo, so that
# both stay free for editing. Prints CAUGHT or MISSED. Nothing a check does depends on this.
w=/tmp/sens
mkdir -p $w
exec 8>$w/.lock; flock 8
[ -d $w/repo ] || git clone -q /repo $w/repo
git -C $w/repo fetch -q origin && git -C $w/repo reset -q --hard "$(git -C /repo rev-parse HEAD)"
mkdir -p $w/verif
rsync -a --delete --exclude build --exclude .git --exclude evidence --exclude replays /verif/ $w/verif/ 2>/dev/null || {
  rm -rf /tmp/sens/verif/harness /tmp/sens/verif/tools; cp -a /verif/harness /verif/tools /verif/*.sh /verif/CMakeLists.txt /verif/known_findings.txt $w/verif/; }
sed -i "s#set(REPO /repo)#set(REPO $w/repo)#" $w/verif/CMakeLists.txt
cd $w/verif
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $w/repo apply /verif/seeded/$id/patch.diff || { echo "$id $prop DOES NOT APPLY"; continue; }
  VERIF_SEED=${SEED:-1} timeout 900 ./check.sh $prop quick >$w/$id.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " $w/$id.log; then echo "$id $prop CAUGHT $(grep -m1 -E 'FAILED|runtime error|ERROR|tag' $w/$id.log | cut -c1-160)"
  else echo "$id $prop MISSED rc=$rc"; fi
  git -C $w/repo checkout -q -- .
done
