"""Run one property's check:  run.py C01 [--tier quick|thorough] [--scale X]."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))

from harness import core  # noqa: E402

warnings.simplefilter("ignore")


def find_module(prop_id: str) -> str:
    hits = sorted((Path(__file__).parent / "props").glob(f"{prop_id.lower()}_*.py"))
    if len(hits) != 1:
        raise core.HarnessError(f"no module for {prop_id}")
    return f"harness.props.{hits[0].stem}"


def worker_main(prop_id, tier, seed, i, n, stop, deadline, scale, out):
    try:
        prop = importlib.import_module(find_module(prop_id)).PROP
        res = core.run_worker(prop, tier, seed, i, n, Path(stop), deadline, scale)
    except BaseException:
        res = core.WorkerResult(harness_error=traceback.format_exc())
    Path(out).write_text(json.dumps(res.to_json()))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--dist", action="store_true", help="print the label distribution")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    nworkers = a.workers or min(8, os.cpu_count() or 1)
    deadline = 600.0 if tier == "quick" else 5400.0
    t0 = time.monotonic()
    core.setup_paths()
    try:
        prop = importlib.import_module(find_module(a.prop)).PROP
    except Exception:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={a.prop}: cannot load the check")
        return 2
    known = core.load_known(prop.id)

    # 1. saved inputs first (fixed defects and past shrunk failures), no generator
    replays = sorted((core.ROOT / "regressions" / prop.id).glob("*.json"))
    failure = None
    n_replayed = 0
    labels: Counter = Counter()
    try:
        for r in replays:
            d = json.loads(r.read_text())
            n_replayed += 1
            try:
                core.execute(prop.part(d["part"]), d["case"], known)
            except core.Violation as e:
                failure = {"part": d["part"], "case": d["case"], "message": str(e)}
                break
        known_lines = []
        for key, what in known.items():
            if key in prop.probes:
                got = prop.probes[key]()
                if got is not None:
                    known_lines.append((key, what, got))
    except core.HarnessError:
        traceback.print_exc()
        return 2

    results = []
    if failure is None:
        with tempfile.TemporaryDirectory(prefix=f"verif-{prop.id}-") as tmp:
            stop = Path(tmp) / "stop"
            mpctx = mp.get_context("fork")
            procs = []
            for i in range(nworkers):
                out = Path(tmp) / f"w{i}.json"
                p = mpctx.Process(
                    target=worker_main,
                    args=(a.prop, tier, seed, i, nworkers, str(stop), deadline, a.scale, str(out)),
                )
                p.start()
                procs.append((p, out))
            for p, out in procs:
                p.join()
                if not out.exists():
                    results.append(core.WorkerResult(harness_error=f"worker died rc={p.exitcode}").to_json())
                else:
                    results.append(json.loads(out.read_text()))
    errors = [r["harness_error"] for r in results if r["harness_error"]]
    if failure is None:
        for r in results:
            if r["failure"]:
                if failure is None or len(json.dumps(r["failure"]["case"])) < len(
                    json.dumps(failure["case"])
                ):
                    failure = r["failure"]
    evaluations = sum(r["evaluations"] for r in results) + n_replayed
    hashes = set()
    samples = []
    known_hits: Counter = Counter()
    per_part: Counter = Counter()
    for r in results:
        hashes.update(r["hashes"])
        labels.update(r["labels"])
        known_hits.update(r["known_hits"])
        per_part.update(r["per_part"])
    for pt in prop.parts:
        got = [s for r in results for s in r["samples"] if s["part"] == pt.name]
        samples.extend(got[:2])
    if not samples and failure is not None:
        samples = [{"part": failure["part"], "case": failure["case"]}]
    skipped = sum(r["skipped"] for r in results)
    if not a.no_evidence:
        ev = {
            "property": prop.id,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(hashes),
                "rule": prop.rule,
                "samples": samples,
                "per_part": dict(per_part),
                "label_counts": dict(sorted(labels.items())),
                "replayed_saved_inputs": n_replayed,
                "known_finding_hits": dict(known_hits),
                "not_run_after_stop_or_budget": skipped,
                "workers": nworkers,
            },
            "assumptions": prop.assumptions,
            "wall_s": round(time.monotonic() - t0, 3),
            "violations": 1 if failure else 0,
        }
        evdir = core.ROOT / "evidence"
        evdir.mkdir(exist_ok=True)
        (evdir / f"{prop.id}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if a.dist:
        for k, v in sorted(labels.items()):
            print(f"   {k}: {v}")
    for key, what, got in known_lines:
        print(f"KNOWN-FINDING: property={prop.id} [{key}] {what} (reproduced: {got})")
    if failure is not None:
        rdir = core.ROOT / "evidence" / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        h = core.case_hash(failure["part"], failure["case"])
        path = rdir / f"{prop.id}-{h}.json"
        path.write_text(json.dumps({"property": prop.id, **failure}, indent=1) + "\n")
        print(f"  part={failure['part']}: {failure['message']}")
        print(f"  case={json.dumps(failure['case'])[:1500]}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    if errors:
        print(errors[0])
        print(f"HARNESS-ERROR property={prop.id}")
        return 2
    print(
        f"OK property={prop.id} tier={tier} seed={seed} evaluations={evaluations} "
        f"distinct_nontrivial={len(hashes)} skipped={skipped} "
        f"wall={time.monotonic() - t0:.1f}s parts={dict(per_part)}"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
