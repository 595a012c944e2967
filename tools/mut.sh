#!/bin/bash
# mut.sh PATCH CHECK...   runs checks against /repo with a patch, then undoes it
git -C /repo diff --quiet || { echo "/repo has uncommitted changes"; exit 2; }
PATCHFILE=$1
git -C /repo apply "$1" || exit 9
shift
for c in "$@"; do
	(cd /verif && DST_NO_EVIDENCE=1 DST_MINIMISE=8 timeout 900 python3 check.py "$c" | cut -c1-400)
done
git -C /repo apply -R "$PATCHFILE"
