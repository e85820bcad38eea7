#!/bin/bash
# mut.sh ID FILE PYEXPR [args]: run a check against a scratch copy in which FILE (below
# src/upstage_des) was changed by the python expression PYEXPR over its text s
set -u
id=$1 file=$2 expr=$3; shift 3
d=$(mktemp -d /tmp/mutXXXX)
cp -a /repo "$d/repo"
MUT_FILE="$d/repo/src/upstage_des/$file" MUT_EXPR="$expr" python3 - <<'PY'
import os
p=os.environ["MUT_FILE"]; s=open(p).read(); n=eval(os.environ["MUT_EXPR"])
assert n!=s,"nothing changed"
open(p,"w").write(n)
PY
VERIF_REPO=$d/repo bash check.sh "$id" quick "$@" | tail -4 | cut -c1-${CUT:-400}
case "$d" in /tmp/mut*) rm -r "$d";; esac
