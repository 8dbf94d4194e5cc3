#!/bin/bash
# catch.sh id [props...]: run quick checks of committed verif against the planted bug
id=$1; shift
d=/tmp/ct-$id; rm -rf $d; mkdir -p $d
git clone -q /verif $d/verif; cp -a /repo $d/repo; git -C $d/repo checkout -q -- .
git -C $d/repo apply /verif/seeded/$id/patch.diff || exit 1
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd $d/verif
for p in "$@"; do s=$(date +%s); VERIF_SEED=${SEED:-1} SIM_REPO=$d/repo ./check.sh $p ${TIER:-quick} > /tmp/ct-$id.$p.log 2>&1; rc=$?; echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^\[' /tmp/ct-$id.$p.log | cut -c1-200)"; done
rm -rf $d
