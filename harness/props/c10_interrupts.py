"""C10: interrupting a task never loses or duplicates what it was waiting for."""

from __future__ import annotations

import warnings
from collections import Counter
from typing import Any

from harness import flow
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st

ACTIONS = {
    "end": UP.InterruptStates.END,
    "ignore": UP.InterruptStates.IGNORE,
    "restart": UP.InterruptStates.RESTART,
}


def steps() -> st.SearchStrategy:
    y = st.fixed_dictionaries({"op": st.just("yield"), "ev": flow.event()})
    again = st.builds(lambda n: {"op": "yield", "ev": {"k": "slot", "n": n}}, st.integers(0, 4))
    return seqs(st.one_of(y, y, y, y, y, again), 10)


def case() -> st.SearchStrategy:
    inject = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                ["wait", "wait", "int", "int", "int", "int", "give", "give", "take", "succeed"]
            ),
            "n": st.integers(0, 5),
            "t": st.sampled_from([0.0, 0.5, 0.5, 1.0, 1.0, 2.0]),
            "a": st.sampled_from([1, 2, 3]),
        }
    )
    return st.fixed_dictionaries(
        {
            "resources": flow.resources(),
            "tasks": st.lists(
                st.fixed_dictionaries(
                    {
                        "steps": steps(),
                        "policy": st.lists(
                            st.sampled_from(["end", "end", "ignore", "restart", "restart"]),
                            min_size=1,
                            max_size=4,
                        ),
                    }
                ),
                min_size=1,
                max_size=4,
            ),
            "inject": st.lists(seqs(inject, 16), min_size=1, max_size=2),
            "first": st.booleans(),
        }
    )


class Run:
    """One execution of a case, with either back end."""

    def __init__(self, c: dict, plain: bool):
        self.c, self.plain = c, plain
        self.log: list = []
        self.cut: int | None = None  # log length at the first withdrawal of a granted request
        self.labels: Counter = Counter()
        if plain:
            self.go(SIM.Environment())
        else:
            with UP.EnvironmentContext(random_seed=1) as env, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.go(env)

    def decide(self, i: int, cause: Any) -> str:
        """What task i answers to an interrupt; also notes what gets withdrawn."""
        r = self.runners[i]
        policy = self.c["tasks"][i]["policy"]
        n = self.interrupts[i]
        self.interrupts[i] += 1
        action = policy[n] if n < len(policy) else "end"
        waits = r.current
        r.note("interrupted", cause, action, [r.look(x) for x in r.slots])
        self.labels[action] += 1
        if action != "ignore":
            for x in r.leaves(waits):
                if x["k"] in ("proc", "wait", "uniform", "signal"):
                    continue
                ev = self.simpy(x)
                if not ev.processed:
                    self.withdrawn.append((x, ev, ev.triggered))
                    self.labels["withdrew " + x["k"]] += 1
                    if ev.triggered and (x["k"].endswith("get") or (x["k"] == "hold" and x["stage"] == 1)):
                        self.labels["withdrew granted " + x["k"]] += 1
                        if self.cut is None:
                            self.cut = len(self.log)
            if "of" in waits:
                self.labels["withdrew combination"] += 1
        return action

    def simpy(self, x: dict) -> Any:
        return x["e"].ev if self.plain else x["e"]._request_event

    def go(self, env: SIM.Environment) -> None:
        c = self.c
        self.w = w = flow.World(
            {"resources": c["resources"], "autos": [True] * len(c["tasks"])}, env, self.plain
        )
        self.initial = [list(r.items) if k in flow.STORES else None for r, k in zip(w.res, w.kinds)]
        self.levels = [r.level if k == "container" else None for r, k in zip(w.res, w.kinds)]
        self.runners: list[flow.Runner] = []
        self.interrupts = [0] * len(c["tasks"])
        self.withdrawn: list[tuple[dict, Any, bool]] = []
        self.given: list[tuple[int, Any, Any]] = []
        self.taken: list[tuple[int, Any, Any]] = []
        self.procs: list[SIM.Process] = []
        if c["first"]:
            self.start_injectors(env)
        for i, t in enumerate(c["tasks"]):
            r = flow.Runner(w, i, t["steps"], self.log)
            r.own_signals = True
            self.runners.append(r)
            if self.plain:
                self.procs.append(env.process(flow.run_plain(r, lambda cause, i=i: self.decide(i, cause))))
            else:
                self.procs.append(self.task(i, r))
        if not c["first"]:
            self.start_injectors(env)
        drain(env)

    def task(self, i: int, r: flow.Runner) -> SIM.Process:
        me = self

        class Doer(UP.Actor):
            pass

        class Does(UP.Task):
            def task(self, *, actor):
                yield from r.program()

            def on_interrupt(self, *, actor, cause):
                return ACTIONS[me.decide(i, cause)]

        return Does().run(actor=Doer(name=f"doer{i}"))

    def start_injectors(self, env: SIM.Environment) -> None:
        for n, seq in enumerate(self.c["inject"]):
            env.process(self.injector(env, n, seq))

    def injector(self, env: SIM.Environment, n: int, seq: list) -> flow.Generator:
        for j, o in enumerate(seq):
            w = self.w
            if o["op"] == "wait":
                yield env.timeout(o["t"])
            elif o["op"] == "int":
                p = self.procs[o["n"] % len(self.procs)]
                if p.is_alive:
                    p.interrupt(cause=f"i{n}.{j}")
            elif o["op"] in ("give", "take"):
                i = o["n"] % len(w.res)
                if w.kinds[i] in flow.STORES:
                    if o["op"] == "give":
                        item = w.item(i, f"inj{n}", j)
                        self.given.append((i, item, w.res[i].put(item)))
                    else:
                        self.taken.append((i, None, w.res[i].get()))
                elif w.kinds[i] == "container":
                    if o["op"] == "give":
                        self.given.append((i, o["a"], w.res[i].put(o["a"])))
                    else:
                        self.taken.append((i, o["a"], w.res[i].get(o["a"])))
            elif o["op"] == "succeed":
                sig = w.signals[o["n"] % len(w.signals)]
                try:
                    sig.succeed(by=f"i{n}")
                except (UP.SimulationError, RuntimeError):
                    pass

    # -- what must hold whatever the schedule -----------------------------
    def audit(self) -> None:
        w = self.w
        gone = {id(ev): granted for _, ev, granted in self.withdrawn}
        for i, (res, kind) in enumerate(zip(w.res, w.kinds)):
            name = f"{kind} #{i}"
            puts = [
                (x["item"] if "item" in x else x["a"], self.simpy(x))
                for r in self.runners
                for x in r.puts
                if x["r"] == i
            ]
            puts += [(v, ev) for k, v, ev in self.given if k == i]
            gets = [(x.get("a"), self.simpy(x)) for r in self.runners for x in r.gets if x["r"] == i]
            gets += [(v, ev) for k, v, ev in self.taken if k == i]
            for v, ev in gets:
                if id(ev) in gone and ev in res.get_queue:
                    raise Violation(f"{name}: an interrupted task's get is still queued")
            for v, ev in puts:
                if id(ev) in gone and ev in res.put_queue:
                    raise Violation(f"{name}: an interrupted task's put of {v!r} is still queued")
            if kind in flow.STORES:
                have = Counter(self.initial[i])
                have.update(v for v, ev in puts if ev.triggered or id(ev) not in gone)
                where = Counter(res.items)
                where.update(p.item for p in res.put_queue)
                where.update(ev.value for v, ev in gets if ev.triggered and id(ev) not in gone)
                if have != where:
                    lost, extra = have - where, where - have
                    raise Violation(
                        f"{name}: lost {sorted(lost.elements(), key=str)}, "
                        f"surplus {sorted(extra.elements(), key=str)} "
                        f"(holds {res.items}, withdrawn {self.describe()})"
                    )
                live = [ev for ev in res.get_queue]
                for ev in live:
                    ok = getattr(ev, "filter", lambda item: True)
                    fit = [x for x in res.items if ok(x)]
                    if fit:
                        raise Violation(f"{name}: a get is left waiting although {fit} could serve it")
                if res.put_queue and len(res.items) < res.capacity:
                    raise Violation(f"{name}: a put is left waiting although there is room")
            elif kind == "container":
                want = self.levels[i] + sum(v for v, ev in puts if ev.triggered or id(ev) not in gone)
                want -= sum(v for v, ev in gets if ev.triggered and id(ev) not in gone)
                have = res.level + sum(p.amount for p in res.put_queue)
                if abs(want - have) > 1e-9:
                    raise Violation(
                        f"{name}: holds {res.level} (+ queued {have - res.level}), should be {want} "
                        f"(withdrawn {self.describe()})"
                    )
            else:
                held = []
                for r in self.runners:
                    for x in r.holds:
                        if x["r"] != i:
                            continue
                        req = x["e"].req if self.plain else x["e"]._request
                        if id(req) in gone:
                            if req in res.users or req in res.queue:
                                raise Violation(f"{name}: an interrupted task's request is still there")
                        elif x["stage"] == 1 and req.triggered:
                            held.append(req)
                if len(res.users) != len(held):
                    raise Violation(
                        f"{name}: {len(res.users)} users, but {len(held)} tasks hold it (withdrawn {self.describe()})"
                    )
                if res.queue and len(res.users) < res.capacity:
                    raise Violation(f"{name}: a request is left waiting although there is a free slot")

    def describe(self) -> list:
        return [(x["k"], "granted" if g else "waiting") for x, ev, g in self.withdrawn]


def check(c: dict, ctx: Ctx) -> None:
    ref = Run(c, True)
    run = Run(c, False)
    n = len(ref.log) if ref.cut is None else ref.cut
    for i, (a, b) in enumerate(zip(ref.log[:n], run.log)):
        if a != b:
            raise Violation(
                f"step {i}: the tasks give {b!r}, plain SimPy that withdraws its requests gives {a!r}"
            )
    if len(run.log) < n or (ref.cut is None and len(run.log) > n):
        raise Violation(f"the tasks stop after {len(run.log)} steps, plain SimPy after {n}")
    run.audit()
    if ref.cut is None:
        a, b = ref.w.condition(), run.w.condition()
        if a != b:
            raise Violation(f"resources end as {b!r}, with plain SimPy as {a!r}")
    ctx.label(*ref.labels)
    if ref.labels["end"] + ref.labels["restart"] and ref.withdrawn:
        ctx.nontrivial()


PROP = Prop(
    "C10",
    rule="a request that had not completed was withdrawn by an interrupt that ended or restarted its task",
    parts=[Part("interrupts", case, check, quick=8000, thorough=200000)],
)
