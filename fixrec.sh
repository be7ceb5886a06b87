#!/bin/bash
# fixrec.sh PROP "commit subject" "what failed" [files...] -- commit the repair in /repo (all or the given files) and record it
set -e
P=$1 S=$2 W=$3; shift 3
if [ $# = 0 ]; then git -C /repo commit -qam "fix: $S"; else git -C /repo commit -qm "fix: $S" -- "$@"; fi
H=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$P $H $W" >> /verif/known_findings.jsonl
echo $H
