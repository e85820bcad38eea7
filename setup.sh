#!/bin/bash
# Nothing to compile: confirm that the interpreter, Hypothesis and the tree under test load.
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python - "$here" <<'PY'
import sys
sys.path.insert(0, sys.argv[1])
from harness import core
core.setup_paths()
import hypothesis, simpy, upstage_des.api
print("hypothesis", hypothesis.__version__, "simpy", simpy.__version__, upstage_des.api.__file__)
PY
