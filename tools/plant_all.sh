#!/bin/bash
# plant_all.sh [seeded dir...]   runs each planted bug against the check of its own property
[ $# -gt 0 ] || set -- /verif/seeded/*
for b; do p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])"); echo $(readlink -f $b) $p; done \
 | xargs -P ${PLANT_JOBS:-4} -L 1 $(dirname $0)/plant_check.sh 2>&1 | grep -v '^$'
