#!/bin/bash
# sweep.sh tag tier seed props...  (runs from a clone of committed /verif)
tag=$1; t=$2; export VERIF_SEED=$3; shift 3
d=/tmp/sv-$tag; rm -rf /tmp/sv-$tag; git clone -q /verif $d || exit 1
mkdir -p /tmp/out-$tag
cd $d
for p in "$@"; do s=$(date +%s); timeout 900 ./check.sh $p $t > /tmp/out-$tag/$p 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(grep -E 'VIOLATION' /tmp/out-$tag/$p | head -1) $(tail -1 /tmp/out-$tag/$p|cut -c1-160)"; done
echo DONE
