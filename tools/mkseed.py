"""Helper to write a seeded change: mkseed(id, property, edits, demo, needs, breaks)."""

import json
import subprocess
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SRC = "src/upstage_des/"
BASE = "832cb2a"


def mkseed(id, prop, edits, demo, needs, breaks):
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        for f, old, new in edits:
            p = Path(t, "repo", SRC + f)
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
            removed = [x for x in old.splitlines() if x not in new.splitlines()]
            base = subprocess.run(
                ["git", "-C", "/repo", "show", f"{BASE}:{SRC}{f}"], capture_output=True, text=True, check=True
            ).stdout.splitlines()
            for x in removed:
                if x not in base:
                    print(id, "NOT AN ORIGINAL LINE:", x)
            if not removed:
                print(id, "only adds lines")
        diff = subprocess.run(["git", "-C", t + "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    d = ROOT / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text(
        '#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" '
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
    (d / "meta.json").write_text(
        json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n"
    )
