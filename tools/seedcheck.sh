#!/bin/bash
# seedcheck.sh ID... : for each seeded change: applies, tests pass, demo 0 / nonzero, and what the check says.
# Works in a scratch copy of /repo; the check runs with VERIF_REPO pointing there.
set -u
cd "$(dirname "$0")/.."
TIER=${TIER:-quick}
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  d=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$d/repo"
  prop=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  mkdir "$d/demo"; cp -r seeded/$id/. "$d/demo/"; rm -f "$d/demo"/*.diff "$d/demo/meta.json"
  (cd "$d/repo" && bash "$d/demo/demo.sh" >"$d/clean.log" 2>&1); clean=$?
  if ! git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$d"; continue; fi
  (cd "$d/repo" && bash "$d/demo/demo.sh" >"$d/demo.log" 2>&1); bad=$?
  tests=$(cd "$d/repo" && PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -o addopts= -p no:cacheprovider src/upstage_des/test 2>&1 | tail -1)
  if [ "${NOCHECK:-}" ]; then out=-; else
  out=$(VERIF_REPO="$d/repo" ./check.sh $prop $TIER 2>&1 | grep -E "^(VIOLATION|OK|HARNESS|  part)" | cut -c1-150 | tr '\n' '|'); fi
  echo "$id prop=$prop clean=$clean patched=$bad tests=[$tests] check=[$out]"
  rm -rf "$d"
done
