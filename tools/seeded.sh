#!/bin/bash
# seeded.sh ID...   runs the check of each planted bug's property against it
git -C /repo diff --quiet || { echo "/repo has uncommitted changes"; exit 2; }
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	echo "== $id ($p)"
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo APPLY FAILED; continue; }
	if grep -q '^+++ .*\.\(cpp\|h\)' "/verif/seeded/$id/patch.diff"; then :; fi
	(cd /verif && DST_NO_EVIDENCE=1 DST_MINIMISE=5 timeout 900 python3 check.py "$p" | cut -c1-300 | grep -v '^KNOWN' | tail -3)
	git -C /repo checkout -- .
done
