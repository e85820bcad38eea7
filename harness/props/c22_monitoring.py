"""C22: self-monitoring resources behave like the plain ones and record every change."""

from __future__ import annotations

import warnings
from typing import Any, Callable, Generator

from harness import flow
from harness.core import Ctx, Part, Prop
from harness.props import c11_events, c20_reserve, c21_continuous
from harness.util import SIM, UP, Violation, close, drain, seqs, st

# ---------------------------------------------------------------------------
# plain resources with an independent recorder
# ---------------------------------------------------------------------------


class Recorder:
    """Notes what is there after each put and get that succeeds."""

    func: Callable[[list], Any] = staticmethod(len)
    trace: list

    def look(self) -> Any:
        return self.level if isinstance(self, SIM.Container) else self.func(self.items)

    def begin(self, func: Any = None) -> Any:
        if func is not None:
            self.func = func
        self.trace = [(self._env.now, self.look())]
        return self

    def _do_put(self, event: Any) -> Any:
        r = super()._do_put(event)
        if event.triggered:
            self.trace.append((self._env.now, self.look()))
        return r

    def _do_get(self, event: Any) -> Any:
        r = super()._do_get(event)
        if event.triggered:
            self.trace.append((self._env.now, self.look()))
        return r


class RStore(Recorder, SIM.Store):
    pass


class RFilter(Recorder, SIM.FilterStore):
    pass


class RSorted(Recorder, UP.SortedFilterStore):
    pass


class RContainer(Recorder, SIM.Container):
    pass


REF = {"store": RStore, "filter": RFilter, "sorted": RSorted, "container": RContainer}


def changes(trace: list) -> list:
    """The entries at which the quantity changes."""
    out: list = []
    for t, v in trace:
        if not out or out[-1][1] != v:
            out.append((t, v))
    return out


def same_trace(what: str, got: list, want: list) -> None:
    times = [t for t, _ in got]
    if times != sorted(times):
        raise Violation(f"{what}: record {got} is out of order")
    if got[0] != want[0]:
        raise Violation(f"{what}: record starts with {got[0]}, created with {want[0]}")
    if changes(got) != changes(want):
        raise Violation(f"{what}: record {changes(got)}, should be {changes(want)}")


# ---------------------------------------------------------------------------
# A: raw workloads
# ---------------------------------------------------------------------------


class Thing:
    def __init__(self, n: int, w: int):
        self.n, self.w = n, w


FUNCS: dict[str, Any] = {
    "default": None,
    "len": len,
    "weight": lambda items: sum(x.w for x in items),
    "ids": lambda items: [x.n for x in items],
    "first": lambda items: items[0].n if items else None,
    "heavy": lambda items: any(x.w > 1 for x in items),
    "const": lambda items: 7,
}
FILTERS: dict[str, Any] = {
    "all": lambda x: True,
    "light": lambda x: x.w <= 1,
    "heavy": lambda x: x.w > 1,
    "even": lambda x: x.n % 2 == 0,
}


def workload() -> st.SearchStrategy:
    put = st.fixed_dictionaries({"op": st.just("put"), "w": st.integers(0, 3)})
    get = st.fixed_dictionaries(
        {
            "op": st.just("get"),
            "f": st.sampled_from(sorted(FILTERS)),
            "w": st.integers(1, 3),
            "rev": st.booleans(),
        }
    )
    op = st.one_of(
        put,
        put,
        get,
        get,
        st.fixed_dictionaries({"op": st.just("cancel"), "n": st.integers(0, 5)}),
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 1.0, 2.5])}),
        st.fixed_dictionaries({"op": st.just("change"), "n": st.integers(0, 5), "w": st.integers(0, 3)}),
    )
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(sorted(REF)),
            "cap": st.sampled_from([1, 2, 3, 3.5, 8, None]),
            "init": st.integers(0, 3),
            "func": st.sampled_from(sorted(FUNCS)),
            "t0": st.sampled_from([0, 0, 5.5]),
            "delay": st.sampled_from([0, 0, 1.5]),
            "ops": seqs(op, 30, 2),
        }
    )


def run_workload(c: dict, monitored: bool) -> tuple[list, list, dict]:
    """The log, the record, and what the quantity was before each instant."""
    log: list = []
    before: dict[float, list] = {}
    out: list = []

    def go(env: SIM.Environment) -> None:
        def note(*what: Any) -> None:
            log.append([env.now, *what])

        def outside() -> Generator:
            yield env.timeout(c["delay"])
            kind = c["kind"]
            kw: dict[str, Any] = {} if c["cap"] is None else {"capacity": c["cap"]}
            if kind == "container":
                kw["init"] = c["init"] if c["cap"] is None else min(c["init"], c["cap"])
            func = FUNCS[c["func"]]
            if monitored:
                if kind != "container" and func is not None:
                    kw["item_func"] = func
                res = flow.CLASSES[kind][2]()(env, name="res", **kw)
            else:
                res = REF[kind](env, **kw).begin(func)
            out.append(res)
            made: list[Thing] = []
            events: list[Any] = []

            def look() -> Any:
                return res.level if kind == "container" else (func or len)(res.items)

            for n, o in enumerate(c["ops"]):
                if o["op"] == "put":
                    if kind == "container":
                        if not o["w"]:
                            continue
                        e = res.put(o["w"])
                    else:
                        made.append(Thing(n, o["w"]))
                        e = res.put(made[-1])
                    e.callbacks.append(lambda e, n=n: note("put", n))
                    events.append(e)
                elif o["op"] == "get":
                    if kind == "container":
                        e = res.get(o["w"])
                    elif kind == "store":
                        e = res.get()
                    elif kind == "filter":
                        e = res.get(FILTERS[o["f"]])
                    else:
                        e = res.get(FILTERS[o["f"]], sorter=lambda x: x.w, reverse=o["rev"])
                    e.callbacks.append(
                        lambda e, n=n: note("got", n, e.value.n if isinstance(e.value, Thing) else e.value)
                    )
                    events.append(e)
                elif o["op"] == "cancel":
                    live = [e for e in events if not e.triggered]
                    if live:
                        live[o["n"] % len(live)].cancel()
                        events.remove(live[o["n"] % len(live)])
                elif o["op"] == "change":
                    if kind == "container" or not made:
                        continue
                    yield env.timeout(0.25)
                    made[o["n"] % len(made)].w = o["w"]
                    yield env.timeout(0.25)
                    before.setdefault(env.now, []).append(look())
                else:
                    yield env.timeout(o["t"])
                if kind == "container":
                    note("now", res.level, len(res.put_queue), len(res.get_queue))
                else:
                    note("now", [x.n for x in res.items], len(res.put_queue), len(res.get_queue))

        env.process(outside())
        drain(env)

    if monitored:
        with UP.EnvironmentContext(initial_time=c["t0"]) as env:
            go(env)
    else:
        go(SIM.Environment(initial_time=c["t0"]))
    res = out[0]
    return log, list(res._quantities if monitored else res.trace), before


def check_workload(c: dict, ctx: Ctx) -> None:
    want, trace, before = run_workload(c, False)
    got, record, _ = run_workload(c, True)
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(f"{c['kind']}: entry {i} is {got[i : i + 1]}, the plain one gives {want[i : i + 1]}")
    ctx.label(c["kind"])
    if before and c["func"] in ("weight", "heavy"):
        # items changed while they were there: a record made later may show that,
        # too, as soon as anything else happens
        ctx.label("items changed")
        times = [t for t, _ in record]
        if times != sorted(times) or record[0] != trace[0]:
            raise Violation(f"record {record} out of order, or not from the creation on")
        for t in sorted({t for t, _ in trace} | set(times)):
            mine = changes([x for x in record if x[0] == t])
            ref = changes([x for x in trace if x[0] == t])
            if mine == ref:
                continue
            seen = [v for s in before for v in before[s] if s <= t] + [v for _, v in trace]
            if ref and (not mine or mine[-1][1] != ref[-1][1]):
                # nothing to add when the record says this already
                last = [v for s, v in record if s <= t][-1]
                if last != ref[-1][1]:
                    raise Violation(f"record says {last} at {t}, should be {ref[-1][1]}: {record}")
            if any(v not in seen for _, v in mine):
                raise Violation(f"record has {mine} at {t}, which never was; {trace}")
    else:
        same_trace(c["kind"], record, trace)
    ctx.nontrivial(len(changes(trace)) >= 4)
    if any(x[1] == "now" and (x[3] or x[4]) for x in want):
        ctx.label("waiting")


# ---------------------------------------------------------------------------
# B: programs of tasks
# ---------------------------------------------------------------------------


def run_program(c: dict, monitored: bool) -> tuple[list, list, list]:
    log: list = []
    spec = {"resources": c["resources"], "autos": [True] * len(c["tasks"]), "seed": c["seed"]}

    class Ready(dict):
        """Reference classes, recording from their creation on."""

        def get(self, kind: str, default: Any = None) -> Any:
            cls = REF.get(kind)
            return (lambda env, **kw: cls(env, **kw).begin()) if cls else default

    with UP.EnvironmentContext(initial_time=c["t0"], random_seed=c["seed"]) as env, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = flow.World(spec, env, False, monitored=monitored, classes=None if monitored else Ready(x=1))
        for i, t in enumerate(c["tasks"]):
            r = flow.Runner(w, i, t["steps"], log)
            r.autos = c["autos"]
            # cancelling a signal also ends the waiting of others, so none is shared
            r.own_signals = True

            class Does(UP.Task):
                prog_ = r

                def task(self, *, actor):
                    yield from self.prog_.program()

            def later(
                at: float = t["at"], actor: Any = UP.Actor(name=f"doer{i}"), cls: Any = Does
            ) -> Generator:
                yield env.timeout(at)
                p = cls().run(actor=actor)
                yield env.timeout(1.5)
                # some are interrupted, which gives things back
                if at == 2 and p.is_alive:
                    p.interrupt("stop")

            env.process(later())
        drain(env)
        traces = [
            list(r._quantities if monitored else r.trace) if k in REF else None
            for r, k in zip(w.res, w.kinds)
        ]
        return log, w.condition(), traces


def check_program(c: dict, ctx: Ctx) -> None:
    want, wcond, wtraces = run_program(c, False)
    got, cond, traces = run_program(c, True)
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(
            f"step {i}: {got[i : i + 1]} with monitored resources, {want[i : i + 1]} with plain ones"
        )
    if cond != wcond:
        raise Violation(f"monitored resources end as {cond}, plain ones as {wcond}")
    for r, a, b in zip(c["resources"], traces, wtraces):
        if a is not None:
            same_trace(r["kind"], a, b)
            ctx.label(r["kind"])
            ctx.nontrivial(len(changes(a)) >= 4)


# ---------------------------------------------------------------------------
# C: continuous containers
# ---------------------------------------------------------------------------


def run_flows(c: dict, monitored: bool) -> tuple[list, Any]:
    log: list = []
    cap, init = c["cap"], c["cap"] * c["fill"]
    with UP.EnvironmentContext(initial_time=c["start"]) as env:
        kind = UP.SelfMonitoringContinuousContainer if monitored else UP.ContinuousContainer
        # errors are the default, said or not
        names = [x for x, e in zip(("error_empty", "error_full"), c["errors"]) if not e or c["fill"] == 0.3]
        kw = {x: c["errors"][x == "error_full"] for x in names}
        tank = kind(env, capacity=cap, init=init, **kw)
        reqs: list = []

        def driver() -> Generator:
            for k, (gap, ops) in enumerate(c["batches"]):
                if k:
                    yield env.timeout(gap)
                for o in ops:
                    if o["op"] == "cancel":
                        if reqs:
                            reqs[o["n"] % len(reqs)].cancel()
                        continue
                    n = len(reqs)
                    fns = [lambda j=j, n=n: log.append((env.now, "call", n, j)) for j in range(o["call"])]
                    time = (
                        (init if o["op"] == "get" else cap - init) / o["rate"] or 1.0
                        if o["time"] == "exact"
                        else o["time"]
                    )
                    reqs.append((tank.put if o["op"] == "put" else tank.get)(o["rate"], time, fns))
                    reqs[n].process.callbacks.append(lambda e, n=n: log.append((env.now, "done", n, e._ok)))

        def sampler() -> Generator:
            while True:
                # reading does not change what is recorded
                log.append((env.now, "level", tank.level, tank.rate))
                yield env.timeout(0.377)

        env.process(driver())
        env.process(sampler())
        try:
            drain(env, until=c["start"] + 40)
        except Exception as e:
            log.append((env.now, "raised", type(e).__name__, str(e)))
        return log, list(tank._quantities) if monitored else None


def check_flows(c: dict, ctx: Ctx) -> None:
    want, _ = run_flows(c, False)
    got, record = run_flows(c, True)
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(f"entry {i} is {got[i : i + 1]}, the plain one gives {want[i : i + 1]}")
    times = [t for t, _ in record]
    if times != sorted(times) or record[0] != (c["start"], c["cap"] * c["fill"]):
        raise Violation(f"record {record} out of order, or not from the creation on")
    # between two entries the rate does not change
    n = 0
    for t, what, level, *_ in want:
        if what != "level" or not any(s >= t for s in times):
            continue
        a = [x for x in record if x[0] <= t][-1]
        b = [x for x in record if x[0] >= t][0]
        v = a[1] if a[0] == b[0] else a[1] + (b[1] - a[1]) * (t - a[0]) / (b[0] - a[0])
        if a[0] == b[0] and close(b[1], level, 1e-6, 1e-6):
            continue
        if not close(v, level, 1e-6, 1e-6):
            raise Violation(f"the record {record} gives {v} at {t}, should be {level}")
        n += 1
    ctx.nontrivial(n >= 3 and len(record) >= 3)
    if any(x[1] == "raised" for x in want):
        ctx.label("error")
    if any(x[1] == "call" for x in want):
        ctx.label("bound")


# ---------------------------------------------------------------------------
# D: reserve containers
# ---------------------------------------------------------------------------


def run_reserve(c: dict, monitored: bool) -> tuple[list, list, Any]:
    log: list = []
    held: list = []
    with UP.EnvironmentContext() as env:
        b = c["boxes"][0]
        kw = {} if b["cap"] is None else {"capacity": b["cap"]}
        kind = UP.SelfMonitoringReserveContainer if monitored else UP.ReserveContainer
        box = kind(env, init=b["init"], **kw)
        held.append((env.now, b["init"]))

        def outside() -> Generator:
            for o in c["ops"]:
                who = o.get("who")
                ans: Any = None
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                    continue
                try:
                    if o["op"] == "reserve":
                        ans = box.reserve(who, o["q"], o["left"])
                    elif o["op"] == "cancel":
                        ans = box.cancel_request(who)
                    elif o["op"] == "take":
                        ans = box.take(who)
                        held.append((env.now, held[-1][1] - ans))
                    else:
                        ans = box.put(o["q"], bool(o["more"]))
                        held.append((env.now, held[-1][1] + o["q"]))
                except ValueError:
                    ans = "refused"
                log.append((env.now, o["op"], ans, box.available, box.remaining, list(box.queued)))

        env.process(outside())
        drain(env, until=60.0)
        log.append(("end", box.available, list(box.queued)))
        return log, held, list(box._quantities) if monitored else None


def check_reserve(c: dict, ctx: Ctx) -> None:
    want, held, _ = run_reserve(c, False)
    got, _, record = run_reserve(c, True)
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(f"entry {i} is {got[i : i + 1]}, the plain one gives {want[i : i + 1]}")
    same_trace("reserve container", record, held)
    ctx.nontrivial(len(changes(held)) >= 3)


PROP = Prop(
    "C22",
    rule="the quantity changed at least three times (continuous: three levels lay between two records)",
    parts=[
        Part("workloads", workload, check_workload, quick=9000, thorough=200000),
        Part("programs", c11_events.case, check_program, quick=4000, thorough=80000),
        Part("flows", c21_continuous.case, check_flows, quick=3000, thorough=60000),
        Part("reservations", c20_reserve.case, check_reserve, quick=3000, thorough=60000),
    ],
    assumptions=[
        "What item_func says of items is recorded when items come and go, not when an item changes in place."
    ],
)
