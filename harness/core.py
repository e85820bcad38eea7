"""Shared machinery: case execution, search driver, evidence and replay.

A property module defines ``PROP = Prop(...)`` with one or more ``Part``s.  Each
part is a Hypothesis strategy that produces a *plain JSON* case and a ``check``
that runs the real code on that case and compares it with an oracle.  The search
is Hypothesis; a shrunk failure is written as a replay file which ``replay.py``
re-executes without Hypothesis.
"""

from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from collections.abc import Callable
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any

ROOT = Path(__file__).resolve().parent.parent
FINDINGS_FILE = ROOT / "KNOWN_FINDINGS.txt"
HANG_CPU_SECONDS = 60.0


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class NeverEnds(Violation):
    """The code under test did not finish a case that normally takes milliseconds."""


class _Hang(BaseException):
    """Raised by the CPU-time alarm; not an Exception so that nothing swallows it."""


def load_known(prop_id: str) -> dict[str, str]:
    """Read the committed list of recorded (unrepaired) defects of a property."""
    out: dict[str, str] = {}
    if not FINDINGS_FILE.exists():
        return out
    for line in FINDINGS_FILE.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        body = line[len("finding:") :].strip()
        fields, _, what = body.partition(" -- ")
        kv = dict(tok.split("=", 1) for tok in fields.split())
        if kv.get("property") == prop_id:
            out[kv["key"]] = what
    return out


class Ctx:
    """What a check reports about the case it is running."""

    def __init__(self, known: dict[str, str]):
        self._known = known
        self.labels: set[str] = set()
        self.is_nontrivial = False
        self.hit_known: set[str] = set()

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nontrivial(self, cond: bool = True) -> None:
        if cond:
            self.is_nontrivial = True

    def ensure(self, cond: Any, msg: str | Callable[[], str], *args: Any) -> None:
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def known(self, key: str, msg: str) -> None:
        """A failure of exactly the recorded kind: tolerated only when listed."""
        if key in self._known:
            self.hit_known.add(key)
            return
        raise Violation(f"[{key}] {msg}")


@dataclass
class Part:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any, Ctx], None]
    quick: int = 300
    thorough: int = 6000


@dataclass
class Prop:
    id: str
    rule: str
    parts: list[Part]
    assumptions: list[str] = field(default_factory=list)
    #: key -> callable that re-runs the exact recorded failing input and returns a
    #: description when it still fails, else None.
    probes: dict[str, Callable[[], str | None]] = field(default_factory=dict)

    def part(self, name: str) -> Part:
        for p in self.parts:
            if p.name == name:
                return p
        raise HarnessError(f"no part {name}")


def _hang_handler(signum: int, frame: Any) -> None:
    raise _Hang


def execute(part: Part, case: Any, known: dict[str, str]) -> Ctx:
    """Run one case.  Raises Violation or HarnessError."""
    ctx = Ctx(known)
    signal.signal(signal.SIGVTALRM, _hang_handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_SECONDS)
    try:
        part.check(case, ctx)
    except (Violation, HarnessError):
        raise
    except _Hang as e:
        where = "; ".join(
            f"{Path(f.filename).name}:{f.name}" for f in traceback.extract_tb(e.__traceback__)[-5:-1]
        )
        raise NeverEnds(f"case still running after {HANG_CPU_SECONDS:.0f} s of CPU time, in {where}") from e
    except Exception as e:
        # An exception that the check did not expect: either the code under test
        # raised on an input it documents as valid, or what it returned could not
        # be used as documented.
        where = "; ".join(
            f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in traceback.extract_tb(e.__traceback__)[-4:]
        )
        raise Violation(f"unexpected {type(e).__name__}: {e} at {where}") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx


def norm(case: Any) -> Any:
    return json.loads(json.dumps(case))


def case_hash(part: str, case: Any) -> str:
    return hashlib.blake2b((part + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest()


@dataclass
class WorkerResult:
    evaluations: int = 0
    hashes: set[str] = field(default_factory=set)
    labels: Counter = field(default_factory=Counter)
    samples: list[Any] = field(default_factory=list)
    known_hits: Counter = field(default_factory=Counter)
    failure: dict[str, Any] | None = None
    harness_error: str | None = None
    skipped: int = 0
    per_part: Counter = field(default_factory=Counter)

    def to_json(self) -> dict[str, Any]:
        return {
            "evaluations": self.evaluations,
            "hashes": sorted(self.hashes),
            "labels": dict(self.labels),
            "samples": self.samples,
            "known_hits": dict(self.known_hits),
            "failure": self.failure,
            "harness_error": self.harness_error,
            "skipped": self.skipped,
            "per_part": dict(self.per_part),
        }


def derive_seed(*parts: Any) -> int:
    h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


def run_worker(
    prop: Prop,
    tier: str,
    seed: int,
    index: int,
    nworkers: int,
    stop_file: Path,
    deadline_s: float,
    scale: float = 1.0,
) -> WorkerResult:
    import hypothesis
    import hypothesis.internal.conjecture.engine as hengine
    from hypothesis import HealthCheck, Phase, given, settings

    hengine.MAX_SHRINKING_SECONDS = 60
    known = load_known(prop.id)
    res = WorkerResult()
    t0 = time.monotonic()

    def one_part(part: Part) -> bool:
        """Search one part; True to go on with the next."""
        total = part.quick if tier == "quick" else part.thorough
        n = max(1, int(round(total * scale / nworkers)))
        state: dict[str, Any] = {"last_fail": None, "n": 0}

        def body(case: Any) -> None:
            if state["last_fail"] is None and (stop_file.exists() or time.monotonic() - t0 > deadline_s):
                res.skipped += 1
                return
            case = norm(case)
            state["n"] += 1
            try:
                ctx = execute(part, case, known)
            except NeverEnds as e:
                state["last_fail"] = (case, str(e))
                stop_file.touch()
                raise KeyboardInterrupt from e
            except Violation as e:
                state["last_fail"] = (case, str(e))
                raise
            if state["last_fail"] is not None:
                return  # shrinking phase; do not count
            res.evaluations += 1
            res.per_part[part.name] += 1
            res.labels.update(f"{part.name}:{x}" for x in ctx.labels)
            res.known_hits.update(ctx.hit_known)
            if ctx.is_nontrivial:
                h = case_hash(part.name, case)
                if h not in res.hashes:
                    res.hashes.add(h)
                    if len([s for s in res.samples if s["part"] == part.name]) < 2:
                        res.samples.append({"part": part.name, "case": case})

        test = given(part.strategy())(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
        )(test)
        test = hypothesis.seed(derive_seed(seed, prop.id, part.name, index))(test)
        try:
            test()
        except HarnessError:
            res.harness_error = traceback.format_exc()
            return False
        except BaseException as e:  # noqa: BLE001
            if state["last_fail"] is None:
                res.harness_error = traceback.format_exc()
                return False
            case, msg = state["last_fail"]
            flaky = ""
            if not isinstance(e, Violation | KeyboardInterrupt):
                flaky = f" (unstable under re-execution: {type(e).__name__})"
            res.failure = {"part": part.name, "case": case, "message": msg + flaky}
            stop_file.touch()
            return False
        return True

    for part in prop.parts:
        if not one_part(part):
            break
    return res


def setup_paths() -> None:
    import hypothesis  # noqa: F401

    # never trust cached bytecode of the tree under test
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = str(Path(repo) / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    try:
        import simpy  # noqa: F401
    except ImportError:
        for cand in sorted(Path("/opt/venv/lib").glob("python3*/site-packages")):
            sys.path.append(str(cand))
    import simpy  # noqa: F401,F811
