#!/bin/bash
# check.sh ID quick|thorough [extra run.py args]: run one property's check on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
id="$1"; tier="$2"; shift 2
exec /opt/veriftools/pyvenv/bin/python "$here/harness/run.py" "$id" --tier "$tier" "$@"
