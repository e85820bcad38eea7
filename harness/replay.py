"""Re-run one saved case without Hypothesis:  replay.py FILE.json  (exit 1 = still fails)."""

import importlib
import json
import sys
import traceback
import warnings
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from harness import core  # noqa: E402
from harness.run import find_module  # noqa: E402

warnings.simplefilter("ignore")
core.setup_paths()
d = json.loads(Path(sys.argv[1]).read_text())
pid = d.get("property") or sys.argv[2]
prop = importlib.import_module(find_module(pid)).PROP
try:
    core.execute(prop.part(d["part"]), d["case"], core.load_known(prop.id))
except core.Violation as e:
    if e.__cause__ is not None and "-v" in sys.argv:
        traceback.print_exception(e.__cause__)
    print(f"VIOLATION property={pid} replay={sys.argv[1]}\n  {e}")
    sys.exit(1)
print(f"OK property={pid}: the saved case passes")
