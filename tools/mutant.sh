#!/bin/bash
# usage: mutant.sh PATCH ID...   applies PATCH to a scratch copy of /repo and runs the checks on it
set -e
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
cd "$D/repo"
if [ "$REVERSE" ]; then git show "$REVERSE" | git apply -R; else git apply "$P"; fi
cp -a /verif/evidence "$D/evidence"
for id in "$@"; do VERIF_REPO="$D/repo" python3 /verif/vrun.py check "$id" 2>&1 | tail -${LINES_OUT:-14}; done
cp -a "$D/evidence/." /verif/evidence/
