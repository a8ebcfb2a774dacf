#!/bin/bash
# mkseed.sh ID: the current edit of /repo becomes seeded/ID/patch.diff; the
# edit is undone and the demo is run on both trees.
d=/verif/seeded/$1
mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
cd /repo
bash $d/demo.sh >/tmp/demo.clean 2>&1; a=$?
git apply $d/patch.diff
bash $d/demo.sh >/tmp/demo.bug 2>&1; b=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && /opt/venv/bin/python run.py $p > /tmp/seed.check 2>&1); c=$?
git checkout -- .
git status --short
tail -2 /tmp/demo.clean; echo "clean $a bug $b check $c"; tail -2 /tmp/demo.bug; grep -v pybullet /tmp/seed.check | tail -4
