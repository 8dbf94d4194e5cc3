#!/bin/bash
# tc.sh id [prop] : quick check of /tmp/w's sim against planted bug
id=$1; S=/tmp/w/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
rm -rf /tmp/mr.$id; git clone -q /repo /tmp/mr.$id; git -C /tmp/mr.$id apply $S/patch.diff || exit 9
o=$(SIM_MIN=${SIM_MIN:-8s} SIM_REPO=/tmp/mr.$id SIM_WALL=${SIM_WALL:-40s} SIM_VERIF=/tmp/w VERIF_SEED=${SEED:-1} /tmp/w/check.sh $p ${TIER:-quick} 2>&1); rc=$?
echo "$id $p rc=$rc $(echo "$o" | grep '^\[' | head -1 | cut -c1-150) | $(echo "$o" | tail -1 | sed 's/requests.*build/build/')"
rm -rf /tmp/mr.$id
