"""C18: routines run inline, give their value, and undo themselves when interrupted."""

from __future__ import annotations

from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.flow import PMulti, PRequest, PSignal, PWait
from harness.util import SIM, UP, Violation, drain, seqs, st

END = 100.0
ACTIONS = {
    "end": UP.InterruptStates.END,
    "ignore": UP.InterruptStates.IGNORE,
    "restart": UP.InterruptStates.RESTART,
}
VALUES = [None, None, 0, "", [], "value", 3.5, {"a": 1}]
T = st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, 3.0])


class Give(PRequest):
    """A get that hands back what it was given when it is cancelled at that moment."""

    def __init__(self, store: SIM.Store, *args: Any, **kw: Any):
        super().__init__(lambda: store.get(*args, **kw), True)
        self.store = store

    def cancel(self) -> None:
        if self.ev is not None and self.ev.triggered and not self.ev.processed and not self.gone:
            self.gone = True
            self.store.put(self.ev.value)
            return
        super().cancel()


# ---------------------------------------------------------------------------
# the two back ends: a task, and a SimPy process that does the same
# ---------------------------------------------------------------------------


class Plain:
    plain = True

    def __init__(self, env: SIM.Environment):
        self.env = env
        self.routine: Any = None

    def wait(self, t: float) -> Any:
        return PWait(self.env, t)

    def get(self, store: SIM.Store, *args: Any, **kw: Any) -> Any:
        return Give(store, *args, **kw)

    def put(self, store: SIM.Store, item: Any) -> Any:
        return PRequest(lambda: store.put(item), False)

    def any(self, *evs: Any) -> Any:
        return PMulti(self.env, SIM.AnyOf, list(evs))

    def signal(self) -> Any:
        return PSignal(self.env, True)

    def do(self, routine: Any) -> Generator:
        self.routine = routine
        v = yield from routine.steps()
        self.routine = None
        return v

    def start(self, prog: Any, policy: Any) -> SIM.Process:
        return self.env.process(self._run(prog, policy))

    def _run(self, prog: Any, policy: Any) -> Generator:
        gen = prog()
        send = None
        late: list = []
        while True:
            try:
                y = gen.send(send)
            except StopIteration:
                return
            ev = y.as_event()
            while True:
                try:
                    if late:
                        raise late.pop(0)
                    send = yield ev
                    break
                except SIM.Interrupt as i:
                    action = policy(i.cause)
                    if action == "ignore":
                        continue
                    y.cancel()
                    r, self.routine = self.routine, None
                    gen.close()
                    if r is not None:
                        for undo in r.undo():
                            e = undo.as_event()
                            while True:
                                try:
                                    yield e
                                    break
                                except SIM.Interrupt as more:
                                    late.append(more)
                    if action == "end":
                        return
                    gen = prog()
                    send = None
                    break


class Real:
    plain = False

    def __init__(self, env: SIM.Environment):
        self.env = env
        self.actor = UP.Actor(name="doer")

    def wait(self, t: float) -> Any:
        return UP.Wait(t)

    def get(self, store: SIM.Store, *args: Any, **kw: Any) -> Any:
        return UP.Get(store, *args, **kw)

    def put(self, store: SIM.Store, item: Any) -> Any:
        return UP.Put(store, item)

    def any(self, *evs: Any) -> Any:
        return UP.Any(*evs)

    def signal(self) -> Any:
        return UP.Event()

    def do(self, routine: Any) -> Generator:
        if isinstance(routine, Window):
            v = yield routine.real()
            return v

        class Wrapped(UP.Routine):
            def run(self):
                return (yield from routine.steps())

            def cancel(self):
                yield from routine.undo()

        v = yield Wrapped()
        return v

    def start(self, prog: Any, policy: Any) -> SIM.Process:
        class Work(UP.Task):
            def task(self, *, actor):
                yield from prog()

            def on_interrupt(self, *, actor, cause):
                return ACTIONS[policy(cause)]

        return Work().run(actor=self.actor)


def norm(v: Any) -> Any:
    if isinstance(v, SIM.events.ConditionValue):
        return ["cond", *[norm(x) for x in v.todict().values()]]
    return v


# ---------------------------------------------------------------------------
# programs with routines in them
# ---------------------------------------------------------------------------


def ev_spec() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "k": st.sampled_from(["wait", "wait", "get", "get", "get", "put", "any", "sig"]),
            "t": T,
            "n": st.integers(0, 1),
        }
    )


def inline_case() -> st.SearchStrategy:
    routine = st.fixed_dictionaries(
        {
            "k": st.just("routine"),
            "evs": st.lists(ev_spec(), max_size=3),
            "ret": st.integers(0, len(VALUES) - 1),
            "last": st.booleans(),
            "undo": st.lists(st.one_of(T, st.just("items")), max_size=2),
        }
    )
    task = st.fixed_dictionaries(
        {
            "items": st.lists(
                st.one_of(ev_spec(), ev_spec(), routine, routine, routine), min_size=1, max_size=6
            ),
            "policy": st.lists(
                st.sampled_from(["end", "ignore", "restart", "restart"]), min_size=1, max_size=3
            ),
        }
    )
    out = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["wait", "wait", "wait", "put", "put", "int", "int", "sig"]),
            "t": T,
            "n": st.integers(0, 2),
        }
    )
    return st.fixed_dictionaries(
        {"tasks": st.lists(task, min_size=1, max_size=3), "outside": seqs(out, 20, 2)}
    )


class Custom:
    def __init__(self, api: Any, world: Any, who: int, spec: dict, tag: Any):
        self.api, self.world, self.who, self.spec, self.tag = api, world, who, spec, tag
        self.items: list = []

    def note(self, what: str, *more: Any) -> None:
        self.world.note(self.who, self.tag, what, *more)

    def steps(self) -> Generator:
        self.note("begin")
        v = None
        for n, s in enumerate(self.spec["evs"]):
            e = self.world.event(self.who, s)
            v = yield e
            if s["k"] == "get":
                self.items.append((s["n"], e.get_value()))
            self.note("inside", n, norm(v))
        self.note("return")
        if self.spec["last"]:
            return norm(v)
        return VALUES[self.spec["ret"]]

    def undo(self) -> Generator:
        self.note("cancel", len(self.items))
        for u in self.spec["undo"]:
            if u == "items":
                while self.items:
                    n, x = self.items.pop(0)
                    yield self.api.put(self.world.stores[n], x)
            else:
                yield self.api.wait(u)
            self.note("cancelled", u, self.world.look())
        self.note("cancel done")


class World:
    def __init__(self, c: dict, env: SIM.Environment, api: Any):
        self.env, self.api = env, api
        self.log: list = []
        self.stores = [SIM.Store(env), SIM.Store(env, capacity=2)]
        self.signals: dict[int, Any] = {}
        self.made = 0
        self.starts = 0

    def note(self, *what: Any) -> None:
        self.log.append([self.env.now, *what])

    def look(self) -> list:
        return [list(s.items) for s in self.stores]

    def item(self, who: int) -> Any:
        self.made += 1
        return [f"{who}.{self.made}", 0, None, ""][self.made % 4] if who < 0 else f"{who}.{self.made}"

    def event(self, who: int, s: dict) -> Any:
        k = s["k"]
        if k == "wait":
            return self.api.wait(s["t"])
        if k == "get":
            return self.api.get(self.stores[s["n"]])
        if k == "put":
            return self.api.put(self.stores[s["n"]], self.item(who))
        if k == "sig":
            self.signals[who] = self.api.signal()
            return self.signals[who]
        return self.api.any(self.api.get(self.stores[s["n"]]), self.api.wait(s["t"]))

    def outside(self, c: dict, procs: list) -> Generator:
        for n, o in enumerate(c["outside"]):
            if o["op"] == "wait":
                yield self.env.timeout(o["t"])
            elif o["op"] == "put":
                self.stores[o["n"] % len(self.stores)].put(self.item(-1))
            elif o["op"] == "int":
                p = procs[o["n"] % len(procs)]
                if p.is_alive:
                    self.note("interrupts", o["n"] % len(procs))
                    p.interrupt(cause=n)
            elif o["op"] == "sig":
                s = self.signals.pop(o["n"] % len(procs), None)
                if s is not None:
                    try:
                        s.succeed()
                    except UP.SimulationError:
                        self.note("refused")
            self.note("outside", self.look())
        yield self.env.timeout(20.0)
        self.note("outside", self.look())


def inline_run(c: dict, plain: bool) -> list:
    def go(env: SIM.Environment) -> list:
        api = (Plain if plain else Real)(env)
        w = World(c, env, api)
        procs = []
        for i, t in enumerate(c["tasks"]):
            me = (Plain if plain else Real)(env) if plain else api

            def prog(i: int = i, t: dict = t, me: Any = me) -> Generator:
                w.note(i, "start")
                w.starts += 1
                if w.starts > 60:
                    yield me.wait(1000.0)
                for n, s in enumerate(t["items"]):
                    if s["k"] == "routine":
                        v = yield from me.do(Custom(me, w, i, s, n))
                    else:
                        v = yield w.event(i, s)
                    w.note(i, n, s["k"], norm(v))
                w.note(i, "end")

            def policy(cause: int, i: int = i, t: dict = t) -> str:
                a = t["policy"][cause % len(t["policy"])]
                w.note(i, "interrupted", cause, a)
                return a

            procs.append(me.start(prog, policy))
        env.process(w.outside(c, procs))
        drain(env, END)
        return w.log

    if plain:
        return go(SIM.Environment())
    with UP.EnvironmentContext() as env:
        return go(env)


def compare(want: list, got: list) -> None:
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation(f"entry {i} of the run is {b!r}, should be {a!r}")
    if len(want) != len(got):
        raise Violation(
            f"{len(got)} entries, should be {len(want)}; next is {(want + got)[min(len(want), len(got))]!r}"
        )


def inline_check(c: dict, ctx: Ctx) -> None:
    want = inline_run(c, True)
    compare(want, inline_run(c, False))
    for x in want:
        if "routine" in x:
            ctx.nontrivial()
            ctx.label("finished")
        if "cancel" in x:
            ctx.nontrivial()
            ctx.label("cancelled")
        if "inside" in x and x[-1] is not None:
            ctx.label("value inside")
    # an interrupt that comes while a routine is undoing itself
    for i, x in enumerate(want):
        if "cancel" in x:
            for y in want[i + 1 :]:
                if y[1:3] == ["interrupts", x[1]]:
                    ctx.label("interrupted in cancel")
                if y[1] == x[1] and "cancel done" in y:
                    break


# ---------------------------------------------------------------------------
# windowed gets
# ---------------------------------------------------------------------------

PER_HOUR = {"s": 1 / 3600.0, "min": 1 / 60.0, "hr": 1.0}
KINDS = ["store", "filter", "sorted"]


def window_case() -> st.SearchStrategy:
    window = st.fixed_dictionaries(
        {
            "t": st.sampled_from([0.0, 1.0, 2.0, 2.0, 3.0, 5.0]),
            "reset": st.booleans(),
            "unit": st.sampled_from([None, None, "s", "min", "hr"]),
            "m": st.sampled_from([None, None, 0, 1]),
            "store": st.integers(0, 1),
            "args": st.booleans(),
        }
    )
    task = st.fixed_dictionaries(
        {
            "windows": st.lists(window, min_size=1, max_size=3),
            "gap": st.sampled_from([None, 0.0, 1.0]),
            "policy": st.lists(
                st.sampled_from(["end", "ignore", "restart", "restart"]), min_size=1, max_size=3
            ),
        }
    )
    out = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["wait"] * 4 + ["put"] * 5 + ["int", "steal"]),
            "t": st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 2.0, 3.0]),
            "n": st.integers(0, 3),
        }
    )
    return st.fixed_dictionaries(
        {
            "unit": st.sampled_from([None, "s", "min", "hr"]),
            "kinds": st.lists(st.sampled_from(KINDS), min_size=2, max_size=2),
            "cap": st.sampled_from([1, 2, 100, 100, 100]),
            "tasks": st.lists(task, min_size=1, max_size=2),
            "outside": seqs(out, 30, 3),
        }
    )


class Window:
    """A windowed get, by what it says."""

    def __init__(self, api: Any, w: Any, who: int, spec: dict):
        self.api, self.w, self.spec, self.who = api, w, spec, who
        self.store = w.stores[spec["store"]]
        self.kind = w.kinds[spec["store"]]
        # without a time unit the clock counts hours
        base, unit = w.unit or "hr", spec["unit"]
        self.t = float(spec["t"])
        # the unit makes no difference to how long the window is
        if unit is not None:
            if base != unit:
                self.t += 0.0137  # no ties: a converted time is rounded
            self.given = self.t * PER_HOUR[base] / PER_HOUR[unit]
        else:
            self.given = self.t
        self.m = spec["m"]
        self.result: list = []

    def select(self) -> tuple[tuple, dict]:
        if self.kind == "store" or self.m is None:
            return (), ({"sorter": lambda x: -x[1]} if self.kind == "sorted" else {})
        f = lambda x: x[0] == self.m  # noqa: E731
        if self.kind == "sorted":
            return (), {"filter": f, "sorter": lambda x: -x[1]}
        return ((f,), {}) if self.spec["args"] else ((), {"filter": f})

    def steps(self) -> Generator:
        wait = None
        while True:
            a, k = self.select()
            get = self.api.get(self.store, *a, **k)
            if wait is None and not self.result:
                yield self.api.any(get)
            else:
                if wait is None or self.spec["reset"]:
                    wait = self.api.wait(self.given if not self.api.plain else self.t)
                yield self.api.any(get, wait)
            if not get.is_complete():
                get.cancel()
                return self.result
            self.result.append(get.get_value())

    def undo(self) -> Generator:
        self.w.note(self.who, "cancel", list(self.result))
        while self.result:
            yield self.api.put(self.store, self.result.pop(0))

    def real(self) -> Any:
        a, k = self.select()
        kw: dict[str, Any] = {}
        if a:
            kw["get_args"] = a
        if k:
            kw["get_kwargs"] = k
        w, who = self.w, self.who

        class Noted(UP.WindowedGet):
            def cancel(self):
                w.note(who, "cancel", list(self.result))
                yield from super().cancel()

        if self.spec["reset"]:
            kw["reset_window"] = True
        if self.spec["unit"] is not None:
            kw["timeout_unit"] = self.spec["unit"]
        return Noted(self.store, self.given, **kw)


def window_run(c: dict, plain: bool) -> list:
    classes = {"store": SIM.Store, "filter": SIM.FilterStore, "sorted": UP.SortedFilterStore}

    def go(env: SIM.Environment) -> list:
        api = (Plain if plain else Real)(env)
        w = World(c, env, api)
        w.kinds = c["kinds"]
        w.unit = c["unit"]
        w.stores = [classes[k](env, capacity=c["cap"]) for k in c["kinds"]]
        procs = []
        for i, t in enumerate(c["tasks"]):
            me = Plain(env) if plain else api

            def prog(i: int = i, t: dict = t, me: Any = me) -> Generator:
                w.note(i, "start")
                w.starts += 1
                if w.starts > 60:
                    yield me.wait(1000.0)
                for n, s in enumerate(t["windows"]):
                    if t["gap"] is not None:
                        yield me.wait(t["gap"])
                    v = yield from me.do(Window(me, w, i, s))
                    w.note(i, n, "got", list(v))

            def policy(cause: int, i: int = i, t: dict = t) -> str:
                a = t["policy"][cause % len(t["policy"])]
                w.note(i, "interrupted", cause, a)
                return a

            procs.append(me.start(prog, policy))

        put = []

        def outside() -> Generator:
            for n, o in enumerate(c["outside"]):
                s = w.stores[o["n"] % 2]
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                elif o["op"] == "put":
                    put.append((o["n"] % 2, n))
                    s.put(put[-1])
                elif o["op"] == "steal":

                    def thief(s: Any = s) -> Generator:
                        g = s.get()
                        yield g | env.timeout(1.0)
                        if g.triggered:
                            w.note("stolen", g.value)
                            stolen.append(g.value)
                        else:
                            g.cancel()

                    env.process(thief())
                else:
                    p = procs[o["n"] % len(procs)]
                    if p.is_alive:
                        w.note("interrupts", o["n"] % len(procs))
                        p.interrupt(cause=n)
                w.note("outside", w.look())
            for _ in range(3):
                yield env.timeout(6.0)
                w.note("outside", w.look())

        stolen: list = []
        env.process(outside())
        drain(env, END)
        return w.log

    if plain:
        return go(SIM.Environment())
    with UP.EnvironmentContext() as env:
        if c["unit"] is not None:
            UP.add_stage_variable("time_unit", c["unit"])
        return go(env)


def rounded(log: list) -> list:
    return [[round(x[0], 6), *x[1:]] for x in log]


def window_check(c: dict, ctx: Ctx) -> None:
    want = window_run(c, True)
    got = window_run(c, False)
    compare(rounded(want), rounded(got))
    for x in want:
        if x[2:] and "got" in x:
            ctx.nontrivial(len(x[-1]) > 0)
            ctx.label(f"got {min(len(x[-1]), 4)}")
        if "cancel" in x:
            ctx.label("gave back" if x[-1] else "cancelled with nothing")
            ctx.nontrivial(len(x[-1]) > 0)


PROP = Prop(
    "C18",
    rule="inline: a routine finished or was cancelled; windows: a window gave items or had to return them",
    parts=[
        Part("inline", inline_case, inline_check, quick=8000, thorough=120000),
        Part("windows", window_case, window_check, quick=7000, thorough=120000),
    ],
)
