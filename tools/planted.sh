#!/bin/bash
# Developer helper: run each planted bug's check against it, on copies.  planted.sh [name-regex]
w=/tmp/planted.$$; mkdir -p $w/verif
git -C /verif archive HEAD | tar -x -C $w/verif
cp -a /verif/worlds* /verif/sim /verif/check.py $w/verif/
for d in /verif/seeded/*/; do
    id=$(basename "$d")
    [[ $id =~ ${1:-.} ]] || continue
    p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    mkdir $w/tree; git -C /repo archive HEAD | tar -x -C $w/tree
    (cd $w/tree && git init -q . && git apply "$d/patch.diff") || echo "$id DOES NOT APPLY"
    t=$SECONDS
    (cd $w/verif && MEOJSON_TREE=$w/tree VERIF_SEED=1 VERIF_TIER=quick nice -n 3 python3 check.py $p quick) > $w/out 2>&1
    rc=$?
    echo "$id $p $([ $rc = 1 ] && grep -q "^VIOLATION property=$p" $w/out && echo CAUGHT || echo "missed rc=$rc") $((SECONDS - t))s $(grep -E '^class |held:' $w/out | cut -c1-160 | head -1)"
    rm -rf $w/tree
done
rm -rf $w
