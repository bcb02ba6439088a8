#!/bin/bash
# seedtest.sh ID [check...]: demo on the tree and with the change, then the checks with the change (default: its property)
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 2; }
bash "$d/demo.sh" >/tmp/demo.out 2>&1; a=$?
git apply "$d/patch.diff" || exit 2
bash "$d/demo.sh" >/tmp/demo2.out 2>&1; b=$?
echo "$id demo: unchanged=$a changed=$b"
[ $a = 0 ] || tail -5 /tmp/demo.out
[ $b != 0 ] || tail -5 /tmp/demo2.out
for p in ${*:-$prop}; do
    (cd /verif && timeout 900 bash check.sh $p quick > /tmp/seed.$id.$p.log 2>&1; echo "$id $p exit=$? $(grep -c ^VIOLATION /tmp/seed.$id.$p.log) violations; $(grep quick: /tmp/seed.$id.$p.log)")
done
git checkout -q -- .
