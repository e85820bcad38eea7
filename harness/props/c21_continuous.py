"""C21: a continuous container's level is the integral of its net flow within its bounds."""

from __future__ import annotations

import math
from fractions import Fraction as F
from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, seqs, st

TIE = 1e-7  # things closer together than this happen "at the same time"
FLAT = 1e-11  # net rates smaller than this are no flow


class Model:
    """Exact piecewise linear integration of the flows.

    ``log`` holds what must be seen (callbacks, the error); ``parts`` the pieces
    (from, to, level at from, rate).  ``horizon`` is the time up to which the
    outcome is determined: where requests start or end at the very moment a bound
    is reached, the order of things within that moment decides, and it is open.
    """

    def __init__(self, c: dict):
        self.cap = F(c["cap"])
        self.level = F(c["init"])
        self.errors = c["errors"]
        self.users: dict[int, list] = {}  # id -> [rate, end, call]
        self.parts: list[tuple] = []
        self.calls: dict[int, tuple] = {}  # id -> (time, required)
        self.error: tuple | None = None
        self.horizon = math.inf
        self.stopped = 0
        self.now = F(0)
        self.seen_level = [self.level]

    def rate(self) -> F:
        r = sum((u[0] for u in self.users.values()), F(0))
        return F(0) if abs(r) < FLAT else r

    def at(self, bound: str) -> bool:
        b = F(0) if bound == "empty" else self.cap
        return abs(self.level - b) < 1e-9 * max(1, float(self.cap))

    def outward(self) -> str | None:
        r = self.rate()
        return "empty" if r < 0 else "full" if r > 0 else None

    def limit(self, bound: str, must: bool = True) -> None:
        """A bound is reached with flow that wants to go on."""
        self.level = F(0) if bound == "empty" else self.cap
        if self.errors[0 if bound == "empty" else 1]:
            self.error = (bound, self.now)
            self.horizon = self.now
            return
        for n, (r, _, _) in list(self.users.items()):
            if (r < 0) == (bound == "empty"):
                self.calls[n] = (self.now, must)
                del self.users[n]
                self.stopped += 1

    def advance(self, t: F) -> None:
        if t > self.now:
            r = self.rate()
            self.parts.append((self.now, t, self.level, r))
            self.level += r * (t - self.now)
            self.now = t

    def next_bound(self) -> F | None:
        r = self.rate()
        if r == 0:
            return None
        return self.now + ((self.cap if r > 0 else F(0)) - self.level) / r

    def settle(self, batch: list | None) -> None:
        """Everything that happens at ``now``."""
        ends = [n for n, u in self.users.items() if u[1] is not None and abs(u[1] - self.now) < TIE]
        bound = self.outward()
        hit = bound is not None and self.at(bound)
        edge = self.at("empty") or self.at("full")
        if edge and (bool(ends) + bool(batch) > 1 or len(ends) > 1) and not (hit and not batch):
            self.horizon = self.now
            return
        if hit and batch:
            self.horizon = self.now
            return
        if hit and ends:
            # the bound first, or the ends first: only if both lead to the same
            keep = {n for n, u in self.users.items() if n not in ends}
            after = {n for n in keep if (self.users[n][0] < 0) != (bound == "empty")}
            if self.errors[0 if bound == "empty" else 1]:
                self.horizon = self.now
                return
            rest = sum((self.users[n][0] for n in keep), F(0))
            still = abs(rest) >= FLAT and (rest < 0) == (bound == "empty")
            if keep != after and not still:
                self.horizon = self.now
                return
            if len(ends) > 1:
                # in between, the other bound's flow may be on its own
                self.horizon = self.now
                return
            for n in ends:
                if (self.users[n][0] < 0) == (bound == "empty"):
                    self.calls[n] = (self.now, False)
                del self.users[n]
            if keep != after:
                self.limit(bound)
            self.level = F(0) if bound == "empty" else self.cap
        elif hit:
            self.limit(bound)
        else:
            for n in ends:
                del self.users[n]
            for o in batch or []:
                if o["op"] == "cancel":
                    live = sorted(self.users)
                    if live:
                        o["hit"] = live[o["n"] % len(live)]
                    else:
                        o["hit"] = None
            for o in batch or []:
                if o["op"] == "cancel":
                    self.users.pop(o["hit"], None)
                else:
                    r = F(o["rate"]) * (1 if o["op"] == "put" else -1)
                    end = None if o["time"] is None else self.now + F(o["time"])
                    self.users[o["id"]] = [r, end, o["call"]]
        if self.error or self.horizon <= self.now:
            return
        # a request that ended or started may leave flow against a bound
        bound = self.outward()
        if bound is not None and self.at(bound):
            self.limit(bound)

    def run(self, batches: list, until: F) -> None:
        todo = list(batches)
        guard = 0
        while self.horizon == math.inf:
            guard += 1
            assert guard < 1000
            cands = [u[1] for u in self.users.values() if u[1] is not None]
            b = self.next_bound()
            if b is not None:
                cands.append(b)
            if todo:
                cands.append(todo[0][0])
            cands.append(until)
            t = min(cands)
            near = [x for x in cands if x - t < TIE]
            if t >= until:
                self.advance(until)
                break
            if todo and todo[0][0] in near:
                t = todo[0][0]
            self.advance(t)
            batch = None
            if todo and todo[0][0] == t:
                batch = todo.pop(0)[1]
            self.settle(batch)

    def read(self, t: float) -> tuple[float, float]:
        for a, b, lv, r in self.parts:
            if a <= t <= b:
                return float(lv + r * (F(t) - a)), float(r)
        raise AssertionError(t)


RATES = {
    "whole": [1, 2, 3, 5, 10, 0.5, 0.25],
    "tenth": [0.1, 0.2, 0.3, 0.7, 1.1, 1.3, 2.6, 3.3],
}


def case() -> st.SearchStrategy:
    def make(kind: str) -> st.SearchStrategy:
        rate: Any = st.sampled_from(RATES["whole"])
        time: Any = st.sampled_from([1, 2, 3, 5, 0.5, 10, 4])
        if kind == "tenth":
            rate = st.sampled_from(RATES["tenth"])
            time = st.sampled_from([0.1, 0.3, 0.7, 1.1, 2.3, 3, 10, 7.7])
        elif kind == "any":
            rate = st.floats(0.01, 50, allow_nan=False)
            time = st.floats(0.01, 20, allow_nan=False)
        flow = st.fixed_dictionaries(
            {
                "op": st.sampled_from(["put", "get"]),
                "rate": rate,
                "time": st.one_of(time, time, time, time, st.none(), st.just("exact")),
                "call": st.integers(0, 2),
            }
        )
        op = st.one_of(
            flow, flow, flow, st.fixed_dictionaries({"op": st.just("cancel"), "n": st.integers(0, 4)})
        )
        gap = st.one_of(time, st.sampled_from([0.3, 1.1, 2.7]), st.sampled_from([1, 2, 0.5]))
        batch = st.tuples(gap, st.lists(op, min_size=1, max_size=3)).map(list)
        return st.fixed_dictionaries(
            {
                "cap": st.sampled_from([10, 10, 20, 7.7, 3, 100]),
                "fill": st.sampled_from([0, 0.5, 0.3, 1, 0.75]),
                "errors": st.tuples(
                    st.sampled_from([False, False, True]), st.sampled_from([False, False, True])
                ).map(list),
                "start": st.sampled_from([0, 0, 3.3, 100000.7]),
                "monitored": st.booleans(),
                "batches": seqs(batch, 8, 1),
                "probe": st.tuples(
                    st.sampled_from([0, 0.25, 0.5, 1]), st.sampled_from([None, 1, -1, 2.5])
                ).map(list),
            }
        )

    return st.sampled_from(["whole", "whole", "tenth", "any"]).flatmap(make)


def check(c: dict, ctx: Ctx) -> None:
    cap, init = c["cap"], c["cap"] * c["fill"]
    start = c["start"]
    batches, t, n = [], 0.0, 0
    for k, (gap, ops) in enumerate(c["batches"]):
        t = t + gap if k else 0.0
        ops = [dict(o) for o in ops]
        for o in ops:
            if o["op"] != "cancel":
                if o["time"] == "exact":  # all that there is, or all there is room for
                    o["time"] = (init if o["op"] == "get" else cap - init) / o["rate"] or 1.0
                o["id"] = n
                n += 1
        # the clock of the simulation decides what time it is
        batches.append((F(start + t) - F(start), start + t, ops))
    m = Model({"cap": cap, "init": init, "errors": c["errors"]})
    m.run([(a, ops) for a, _, ops in batches], F(t) + F("40.123"))
    horizon = float(min(m.horizon, F(t) + F("40.123")))
    cuts = sorted({float(a) for a, *_ in m.parts} | {float(b) for _, b, *_ in m.parts})
    samples = []
    for a, b in zip(cuts, cuts[1:]):
        samples += [a + min(2e-6, (b - a) / 2), (a + b) / 2, a + (b - a) * 0.8, b - min(2e-6, (b - a) / 2)]
    samples = sorted({s for s in samples if 0 < s < horizon - 1e-6})
    log_calls: list = []
    raised: list = []
    with UP.EnvironmentContext(initial_time=start) as env:
        kind = UP.SelfMonitoringContinuousContainer if c["monitored"] else UP.ContinuousContainer
        kw: dict[str, Any] = {}
        if not c["errors"][0] or c["fill"] == 0.3:
            kw["error_empty"] = c["errors"][0]
        if not c["errors"][1] or c["fill"] == 0.3:
            kw["error_full"] = c["errors"][1]
        tank = kind(env, capacity=cap, init=init, **kw)
        reqs: dict[int, Any] = {}

        def driver() -> Generator:
            for _, at, ops in batches:
                if at > env.now:
                    yield env.timeout(at - env.now)
                for o in ops:
                    if o["op"] == "cancel":
                        # an op whose batch lies past the horizon has no target
                        if o.get("hit") is not None:
                            reqs[o["hit"]].cancel()
                    else:
                        fns = [
                            (lambda i=o["id"], j=j: log_calls.append((i, j, env.now - start)))
                            for j in range(o["call"])
                        ]
                        args = {"custom_callbacks": fns} if fns else {}
                        fn = tank.put if o["op"] == "put" else tank.get
                        reqs[o["id"]] = fn(o["rate"], o["time"], **args)

        def near(what: str, a: float, b: float, at: float) -> None:
            if not close(a, b, 1e-7, 1e-7):
                raise Violation(f"{what} at {at} is {a}, should be {b}")

        def sampler() -> Generator:
            for s in samples:
                if start + s > env.now:
                    yield env.timeout(start + s - env.now)
                here = env.now - start
                if not any(float(a) <= here <= float(b) for a, b, *_ in m.parts):
                    continue
                lv, r = m.read(here)
                near("level", tank.level, lv, here)
                near("rate", tank.rate, r, here)
                if not -1e-9 <= tank.level <= cap + 1e-9 * cap:
                    raise Violation(f"level {tank.level} of {cap} at {here}")
                to, extra = c["probe"]
                total = r + (extra or 0)
                args = [] if extra is None else [extra]
                if abs(total) > 1e-6:
                    goal = ((cap if total > 0 else 0) - lv) / total
                    near("time until done", tank.time_until_done(*args), goal, here)
                    goal = (to * cap - lv) / total
                    if abs(goal) > 1e-6:
                        got = tank.time_until_level(to * cap, *args)
                        near(f"time until level {to * cap}", got, goal if goal > 0 else math.inf, here)

        env.process(driver())
        env.process(sampler())
        try:
            drain(env, until=start + (horizon - 5e-7 if m.horizon < math.inf else horizon))
            if m.error:
                drain(env, until=start + horizon + 5e-7)
        except UP.SimulationError:
            raise
        except Exception as e:
            if isinstance(e, Violation):
                raise
            from upstage_des.resources.container import ContainerEmptyError, ContainerFullError

            if m.error is None or type(e) not in (ContainerEmptyError, ContainerFullError):
                raise
            raised.append(("empty" if type(e) is ContainerEmptyError else "full", env.now - start))
        if m.error:
            what, at = m.error
            if [r[0] for r in raised] != [what]:
                raise Violation(f"{raised} raised, should be {what} at {float(at)}")
            near(f"{what} error", raised[0][1], float(at), float(at))
            near("level", tank.level, cap if what == "full" else 0.0, float(at))
            ctx.label("error " + what)
        # callbacks: each of a request's, once, when a bound stopped it
        for i in reqs:
            mine = [x for x in log_calls if x[0] == i]
            spec = next(o for _, _, ops in batches for o in ops if o.get("id") == i)
            if i in m.calls and m.calls[i][0] < m.horizon:
                at, must = m.calls[i]
                ok = [j for _, j, _ in mine] == list(range(spec["call"]))
                if not ok and (must or mine):
                    raise Violation(
                        f"callbacks {mine} of request {i} ({spec}), stopped by a bound at {float(at)}"
                    )
                for _, _, when in mine:
                    near(f"callback of request {i}", when, float(at), float(at))
                if must and reqs[i].process.is_alive:
                    raise Violation(f"request {i} goes on after a bound stopped it")
            elif mine and m.error is None:
                raise Violation(f"callbacks {mine} of request {i} ({spec}), which no bound stopped")
        if c["monitored"]:
            q = [(float(a) - start, v) for a, v in tank._quantities]
            if q[0][0] != 0 or q[0][1] != init:
                raise Violation(f"record starts with {q[0]}")
            if any(b[0] < a[0] for a, b in zip(q, q[1:])):
                raise Violation(f"record {q} out of order")
            for at, v in q:
                if at < horizon - 1e-6 and any(float(a) <= at <= float(b) for a, b, *_ in m.parts):
                    near(f"record {q}", v, m.read(at)[0], at)
            for (a, b, lv, r), (a2, b2, lv2, r2) in zip(m.parts, m.parts[1:]):
                if r != r2 and float(b) < horizon - 1e-6:
                    if not any(close(x, float(b), 1e-7, 1e-6) for x, _ in q):
                        raise Violation(f"record {q} misses the change of rate at {float(b)}")
    if m.stopped:
        ctx.label("stopped at a bound")
    if any(not must for _, must in m.calls.values()):
        ctx.label("ends at a bound")
    if m.horizon < math.inf and not m.error:
        ctx.label("open")
    busy = len([1 for *_, r in m.parts if r])
    ctx.label(f"pieces {min(busy, 4)}")
    ctx.nontrivial(len({r for *_, r in m.parts if r}) >= 2)


# ---------------------------------------------------------------------------
# what is refused
# ---------------------------------------------------------------------------


def misuse() -> st.SearchStrategy:
    amount = st.sampled_from([-5, -0.5, 0, 0.5, 1, 3, 5, 10])
    call = st.fixed_dictionaries(
        {"op": st.sampled_from(["put", "get"]), "rate": st.sampled_from([-2, -0.25, 0, 0.0, 0.5, 1])}
    )
    return st.fixed_dictionaries(
        {
            "cap": amount,
            "init": st.one_of(amount, st.none()),
            "monitored": st.booleans(),
            "flow": st.sampled_from([None, "put", "get"]),
            "calls": st.lists(call, min_size=1, max_size=4),
        }
    )


def check_misuse(c: dict, ctx: Ctx) -> None:
    cap, init = c["cap"], c["init"] or 0
    with UP.EnvironmentContext() as env:
        kind = UP.SelfMonitoringContinuousContainer if c["monitored"] else UP.ContinuousContainer
        kw: dict[str, Any] = {"capacity": cap, "error_empty": False, "error_full": False}
        if c["init"] is not None:
            kw["init"] = c["init"]
        bad = cap < 0 or init < 0 or init > cap
        try:
            tank = kind(env, **kw)
        except ValueError:
            if not bad:
                raise
            ctx.label("creation refused")
            ctx.nontrivial()
            return
        if bad:
            raise Violation(f"a container of {cap} that holds {init}")
        rate = 0.0
        if c["flow"]:
            getattr(tank, c["flow"])(0.125, 64.0)
            rate = 0.125 if c["flow"] == "put" else -0.125
        for o in c["calls"]:
            fn = getattr(tank, o["op"])
            env.run(until=env.now + 0.5)
            if o["rate"] <= 0:
                try:
                    fn(o["rate"], 2.0)
                except ValueError:
                    ctx.label("rate refused")
                    ctx.nontrivial()
                else:
                    raise Violation(f"{o['op']} at a rate of {o['rate']} was accepted")
            want = min(max(init + rate * env.now, 0), cap)
            if not close(tank.level, want):
                raise Violation(f"level {tank.level} of {cap} at {env.now}, should be {want}")


PROP = Prop(
    "C21",
    rule="at least two different net rates were integrated; misuse: something was refused",
    parts=[
        Part("flows", case, check, quick=12000, thorough=200000),
        Part("misuse", misuse, check_misuse, quick=600, thorough=6000),
    ],
    assumptions=[
        "Where separate calls or ends of requests coincide with the moment a bound is reached, so that the order within the moment decides, the run is compared up to that moment only.",
    ],
)
