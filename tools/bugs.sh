#!/bin/bash
# tools/bugs.sh [ID...]: run the quick check of each planted bug's property with the bug applied to /repo
cd /verif
for d in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
	git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
	t=$(date +%s)
	timeout 900 ./run.sh $p quick >/tmp/bug-$d.log 2>&1; rc=$?
	git -C /repo checkout -- .
	echo "$d rc=$rc $(( $(date +%s)-t ))s $(grep -m1 -o 'VIOLATION property=[^ ]*' /tmp/bug-$d.log)"
done
