"""C11: tasks run their events exactly as the equivalent plain SimPy program would."""

from __future__ import annotations

import warnings
from typing import Any, Generator

from harness import flow
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, expect_raises, seqs, st


def steps() -> st.SearchStrategy:
    ev = flow.event()
    y = st.fixed_dictionaries({"op": st.just("yield"), "ev": ev})
    again = st.builds(lambda n: {"op": "yield", "ev": {"k": "slot", "n": n}}, st.integers(0, 6))
    succeed = st.fixed_dictionaries(
        {"op": st.just("succeed"), "n": st.integers(0, 3), "v": st.integers(0, 9)}
    )
    other = st.fixed_dictionaries(
        {"op": st.sampled_from(["cancel", "cancel", "reset", "spent"]), "n": st.integers(0, 3)}
    )
    return seqs(st.one_of(y, y, y, y, again, again, succeed, succeed, other), 14)


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "resources": flow.resources(),
            "autos": st.lists(st.sampled_from([True, True, False]), min_size=1, max_size=3),
            "tasks": st.lists(
                st.fixed_dictionaries({"steps": steps(), "at": st.sampled_from([0, 0, 0, 1, 2])}),
                min_size=1,
                max_size=4,
            ),
            "seed": st.integers(0, 3),
            "t0": st.sampled_from([0, 0, 10]),
        }
    )


def run(c: dict, plain: bool) -> tuple[list, list, set]:
    log: list = []
    labels: set = set()
    spec = {"resources": c["resources"], "autos": c["autos"], "seed": c["seed"]}

    class Doer(UP.Actor):
        pass

    def go(env: SIM.Environment) -> tuple[list, list, set]:
        w = flow.World(spec, env, plain)
        runners = []
        for i, t in enumerate(c["tasks"]):
            r = flow.Runner(w, i, t["steps"], log)
            r.autos = c["autos"]
            runners.append(r)

            def prog(r: flow.Runner = r) -> Generator:
                return r.program()

            if plain:

                def start(r: flow.Runner = r):
                    return env.process(flow.run_plain(r))
            else:

                class Does(UP.Task):
                    prog_ = staticmethod(prog)

                    def task(self, *, actor):
                        yield from self.prog_()

                def start(actor=Doer(name=f"doer{i}"), cls=Does):
                    return cls().run(actor=actor)

            def later(at: float = t["at"], start=start) -> Generator:
                if at:
                    yield env.timeout(at)
                start()
                yield env.timeout(0)

            if t["at"]:
                env.process(later())
            else:
                start()
        drain(env)
        for r in runners:
            for x in r.slots:
                labels.add(x["k"])
                if "of" in x and x.get("yielded"):
                    labels.add("combination")
                    if any("of" in m for m in x["of"]):
                        labels.add("nested combination")
        log.append(["end", env.now])
        return log, w.condition(), labels

    if plain:
        return go(SIM.Environment(initial_time=c["t0"]))
    with UP.EnvironmentContext(initial_time=c["t0"], random_seed=c["seed"]) as env:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return go(env)


def check(c: dict, ctx: Ctx) -> None:
    want, wcond, labels = run(c, True)
    got, cond, _ = run(c, False)
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation(f"step {i} of the run: the tasks give {b!r}, plain SimPy gives {a!r}")
    if len(want) != len(got):
        raise Violation(
            f"the tasks stop after {len(got)} steps, plain SimPy after {len(want)}: "
            f"{(want + got)[min(len(want), len(got))]!r} is the next"
        )
    if cond != wcond:
        raise Violation(f"resources end as {cond!r}, with plain SimPy as {wcond!r}")
    resumed = [x for x in want if len(x) > 2 and x[2] == "resumed"]
    ctx.label(*labels)
    for w in ("refused", "succeeded", "cancelled", "as_event"):
        if any(len(x) > 2 and x[2] == w for x in want):
            ctx.label(w)
    if len(resumed) >= 3:
        ctx.nontrivial()


# ---------------------------------------------------------------------------
# what cannot be asked of an event is refused, and nothing comes of it
# ---------------------------------------------------------------------------

MISTAKES = [
    "get from no store",
    "put to no store",
    "value not asked for",
    "value not there",
    "value withdrawn",
    "value of an amount",
    "give back while waiting",
    "give back unasked",
    "give back twice",
    "succeed twice",
    "negative wait",
    "wait for text",
    "spent event",
    "cancel a combination not begun",
    "cancel what was just granted",
]


def refusal_case() -> st.SearchStrategy:
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["get", "put", "hold", "free", "pour", "draw", "wait", "wait", "wait"]),
            "n": st.integers(0, 1),
            "t": st.sampled_from([0.5, 1, 2]),
        }
    )
    mistake = st.fixed_dictionaries(
        {"op": st.just("mistake"), "m": st.sampled_from(MISTAKES), "n": st.integers(0, 1)}
    )
    return st.fixed_dictionaries({"ops": seqs(st.one_of(op, op, mistake), 24), "cap": st.integers(1, 3)})


def refusal_run(c: dict, mistakes: bool) -> tuple[list, set]:
    trace: list = []
    made: set = set()
    with UP.EnvironmentContext() as env, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        stores = [SIM.Store(env, capacity=c["cap"]), SIM.FilterStore(env)]
        tank = SIM.Container(env, capacity=5, init=2)
        desk = SIM.PriorityResource(env, capacity=c["cap"])
        holds: list = []

        def everything() -> list:
            return [
                env.now,
                [list(s.items) for s in stores],
                tank.level,
                len(desk.users),
                [len(q) for x in (*stores, tank) for q in (x.get_queue, x.put_queue)],
                len(desk.queue),
            ]

        class Doer(UP.Actor):
            pass

        class Does(UP.Task):
            what: dict = {}

            def task(self, *, actor):
                o, n = self.what, self.what["n"]
                if o["op"] == "get":
                    e = UP.Get(stores[n]) if n == 0 else UP.FilterGet(stores[n], lambda x: True)
                elif o["op"] == "put":
                    e = UP.Put(stores[n], env.now)
                elif o["op"] == "pour":
                    e = UP.Put(tank, 1 + n)
                elif o["op"] == "draw":
                    e = UP.Get(tank, 1 + n)
                elif o["op"] == "hold":
                    e = UP.ResourceHold(desk, priority=n)
                    holds.append(e)
                else:
                    if not holds or not holds[0].is_complete():
                        return
                    e = holds.pop(0)
                yield e
                trace.append([o["op"], env.now, e.is_complete()])

        doer = Doer(name="doer")
        spare = SIM.Store(env)

        def refuse(m: str, n: int) -> Generator:
            """Make a mistake, with things of its own if it needs any."""
            errors: Any = UP.SimulationError
            if m == "get from no store":
                for place in ([1], desk, {"items": 1}, None, env):
                    expect_raises(m, errors, UP.Get, place)
                    expect_raises(m, errors, UP.FilterGet, place, lambda x: True)
            elif m == "put to no store":
                for place in ([1], desk, {"items": 1}, None, env):
                    expect_raises(m, errors, UP.Put, place, 1)
            elif m == "value not asked for":
                expect_raises(m, errors, UP.Get(stores[n]).get_value)
            elif m in ("value not there", "value withdrawn"):
                mine = SIM.Store(env)
                e = UP.Get(mine)
                yield UP.Any(e, UP.Wait(0.0)).as_event()
                expect_raises(m, errors, e.get_value)
                if e.is_complete():
                    raise Violation("a get from an empty store is complete")
                if m == "value withdrawn":
                    e.cancel()
                    mine.put("late")
                    yield env.timeout(0)
                    expect_raises(m, errors, e.get_value)
                    if mine.items != ["late"] or e.is_complete():
                        raise Violation(f"a withdrawn get leaves {mine.items!r}, complete {e.is_complete()}")
            elif m == "value of an amount":
                mine = SIM.Container(env, init=3)
                e = UP.Get(mine, 2)
                expect_raises(m, errors, e.get_value)
                yield e.as_event()
                expect_raises(m, errors, e.get_value)
                if mine.level != 1 or not e.is_complete():
                    raise Violation(f"{mine.level} left of 3 after 2 were taken, complete {e.is_complete()}")
            elif m.startswith("give back"):
                res = SIM.Resource(env, capacity=1)
                first, e = UP.ResourceHold(res), UP.ResourceHold(res)
                yield first.as_event()
                if m == "give back unasked":
                    got = UP.ResourceHold(SIM.Resource(env))
                    yield got.as_event()
                    if len(got.resource.users) != 1:
                        raise Violation("the first use of a hold does not ask for the resource")
                if m == "give back while waiting":
                    e.as_event()
                    expect_raises(m, errors, e.as_event)
                    if len(res.users) != 1 or len(res.queue) != 1 or e.is_complete():
                        raise Violation(f"{m}: {len(res.users)} users, {len(res.queue)} waiting")
                    e.cancel()
                    expect_raises(m, errors, e.as_event)
                    if len(res.users) != 1 or res.queue:
                        raise Violation(f"{m}: {len(res.users)} users, {len(res.queue)} waiting")
                if m == "give back twice":
                    yield first.as_event()
                    if res.users:
                        raise Violation("the second use of a hold does not give the resource back")
                    yield e.as_event()
                    expect_raises(m, UP.UpstageError, first.as_event)
                    if len(res.users) != 1:
                        raise Violation(f"{m}: {len(res.users)} users")
            elif m == "succeed twice":
                e = UP.Event()
                e.succeed(data=n)
                expect_raises(m, errors, e.succeed, data="other")
                yield env.timeout(0)
                expect_raises(m, errors, e.succeed)
                if e.get_payload() != {"data": n} or not e.is_complete():
                    raise Violation(f"{m}: the payload is {e.get_payload()!r}")
            elif m == "negative wait":
                for t in (-1, -0.5, -1e-9):
                    expect_raises(m, errors, UP.Wait, t)
                    expect_raises(m, errors, UP.Wait, t, "min")
                    expect_raises(m, errors, UP.Wait.from_random_uniform, t, t)
            elif m == "wait for text":
                for bad in ("1", None, [1], (1, 2)):
                    expect_raises(m, errors, UP.Wait, bad)
            elif m == "spent event":
                e = UP.Event(auto_reset=False)
                e.succeed()
                yield e.as_event()
                expect_raises(m, UP.UpstageError, e.as_event)
                if not e.is_complete():
                    raise Violation("an event that is not to be reset was")
            elif m == "cancel what was just granted":
                mine, pot, res = SIM.Store(env), SIM.Container(env, init=3), SIM.Resource(env)
                mine.items.append("it")
                asked = [UP.Get(mine), UP.Get(pot, 2), UP.ResourceHold(res)]
                for e in asked:
                    e.as_event()
                for _ in range(n + 1):
                    for e in asked:
                        e.cancel()
                    if n:
                        yield env.timeout(0)
                yield env.timeout(0)
                left = [mine.items, pot.level, len(res.users)]
                if left != [["it"], 3, 0]:
                    raise Violation(f"{m}, {n + 1} times: {left} left of one item, 3 and no user")
                for e in asked:
                    if e.is_complete():
                        raise Violation(f"{m}: {type(e).__name__} is complete")
                expect_raises(m, errors, asked[0].get_value)
                expect_raises(m, errors, asked[2].as_event)
            else:
                for kind in (UP.Any, UP.All):
                    expect_raises(m, UP.UpstageError, kind(UP.Get(spare), UP.Wait(1.0)).cancel)
                    expect_raises(m, UP.UpstageError, kind().cancel)

        def script() -> Generator:
            for o in c["ops"]:
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                elif o["op"] != "mistake":
                    task = Does()
                    task.what = o
                    task.run(actor=doer)
                elif mistakes:
                    made.add(o["m"])
                    before = everything()
                    # what it uses is its own: the rest goes on as it would without it
                    env.process(refuse(o["m"], o["n"]))
                    if everything() != before:
                        raise Violation(f"{o['m']} changes {before} into {everything()}")
                trace.append(everything())

        env.process(script())
        drain(env)
        trace.append(everything())
        if spare.items or spare.get_queue:
            raise Violation("a combination that was never yielded asked for something")
    return trace, made


def refusal_check(c: dict, ctx: Ctx) -> None:
    want, _ = refusal_run(c, False)
    got, made = refusal_run(c, True)
    if want != got:
        k = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(
            f"refused calls {sorted(made)} change entry {k} of the run: {want[k:][:1]}, {got[k:][:1]}"
        )
    ctx.label(*made)
    ctx.nontrivial(bool(made) and len(want) > 4)


PROP = Prop(
    "C11",
    rule="at least three yields were resumed; refusals: a mistake was made in a run of several steps",
    parts=[
        Part("programs", case, check, quick=10000, thorough=250000),
        Part("refusals", refusal_case, refusal_check, quick=1500, thorough=15000),
    ],
)
