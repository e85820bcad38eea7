"""C12: interrupts end, restart or leave a task as declared, and leave the actor clean."""

from __future__ import annotations

from typing import Any, Generator

from upstage_des.states import ActiveStatus

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, seqs, st

LIN = ["a", "b"]
SHARED = ["sh"]
MOVE = ["p"]
MIMICS = ["m", "n"]
ALL = LIN + SHARED + MOVE + MIMICS
ACTIONS = {
    "end": UP.InterruptStates.END,
    "ignore": UP.InterruptStates.IGNORE,
    "restart": UP.InterruptStates.RESTART,
}
LEAD_RATES = [1.5, -2.0, 0.25]


def case() -> st.SearchStrategy:
    t = st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, 3.0])
    action = st.sampled_from(["end", "end", "ignore", "restart", "restart"])
    step = st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("act"),
                "s": st.sampled_from(LIN + LIN + SHARED + SHARED + MOVE),
                "r": st.sampled_from([1.0, -1.5, 0.0, 3.0, 0.1]),
            }
        ),
        st.fixed_dictionaries({"op": st.just("deact"), "s": st.sampled_from(LIN + SHARED + MOVE)}),
        st.fixed_dictionaries({"op": st.just("mimic"), "s": st.sampled_from(MIMICS)}),
        st.fixed_dictionaries({"op": st.just("unmimic"), "s": st.sampled_from(MIMICS)}),
        st.fixed_dictionaries(
            {
                "op": st.just("marker"),
                "m": st.sampled_from(["x", "y", "z"]),
                "a": st.one_of(st.none(), action),
            }
        ),
        st.just({"op": "clear"}),
        st.fixed_dictionaries({"op": st.just("knows"), "k": st.integers(0, 1)}),
    )
    wait = st.fixed_dictionaries(
        {
            "op": st.just("yield"),
            "how": st.sampled_from(["wait", "wait", "event", "event", "any", "all", "nested", "get"]),
            "t": t,
            "k": st.integers(0, 1),
        }
    )
    outside = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["wait", "wait", "wait", "int", "int", "int", "succeed", "look", "set"]),
            "i": st.integers(0, 3),
            "t": st.sampled_from([0.0, 0.25, 0.5, 0.5, 1.0, 1.5]),
            "k": st.integers(0, 1),
            "s": st.sampled_from(LIN + SHARED),
        }
    )
    task = st.fixed_dictionaries(
        {
            "steps": seqs(st.one_of(step, step, wait), 14),
            "handler": st.one_of(st.none(), st.lists(action, min_size=1, max_size=4)),
            "remark": st.sampled_from([None, None, "r"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "tasks": st.lists(task, min_size=1, max_size=3),
            "outside": seqs(outside, 20, 3),
            "bad": st.sampled_from([None] * 12 + ["none", "seven"]),
        }
    )


def kname(i: int, k: int) -> str:
    return f"k{i}.{k}"


# ---------------------------------------------------------------------------
# the model: a plain SimPy program that keeps its own books
# ---------------------------------------------------------------------------


class Var:
    def __init__(self, v: float) -> None:
        self.v, self.t = v, 0.0
        self.rates: dict[int, float] = {}
        self.mimic = False

    def at(self, now: float) -> float:
        return self.v + (now - self.t) * sum(self.rates.values())

    def settle(self, now: float) -> None:
        self.v, self.t = self.at(now), now


class Refused(Exception):
    pass


class MEvent:
    def __init__(self, env: SIM.Environment, kind: str, *args: Any) -> None:
        self.kind, self.args = kind, args
        self.payload: dict = {}
        if kind == "event":
            self.ev = SIM.Event(env)
        elif kind == "wait":
            self.ev = env.timeout(args[0])
        elif kind == "get":
            self.ev = args[0].get()
        else:
            self.ev = (SIM.AnyOf if kind == "any" else SIM.AllOf)(env, [m.ev for m in args])

    def parts(self) -> list["MEvent"]:
        if self.kind in ("any", "all"):
            return [self] + [x for m in self.args for x in m.parts()]
        return [self]

    def done(self) -> bool:
        return self.ev.processed


class Model:
    plain = True

    def __init__(self, env: SIM.Environment, c: dict):
        self.env = env
        self.vars = {s: Var(float(n)) for n, s in enumerate(ALL)}
        self.mimics: dict[str, int] = {}
        self.lead = Var(100.0)
        self.knowledge: dict[str, MEvent] = {}
        self.markers: dict[int, tuple] = {i: (None, None, "end") for i in range(len(c["tasks"]))}
        self.store = SIM.Store(env)
        self.plain_value = 0

    def lead_rate(self, r: float) -> None:
        self.lead.settle(self.env.now)
        self.lead.rates = {0: r}

    def values(self) -> list[float]:
        now = self.env.now
        return [self.lead.at(now) if s in self.mimics else self.vars[s].at(now) for s in ALL]

    def act(self, i: int, s: str, r: float) -> None:
        v = self.vars[s]
        if (v.rates and s not in SHARED) or i in v.rates:
            raise Refused
        v.settle(self.env.now)
        v.rates[i] = r

    def deact(self, i: int, s: str) -> None:
        v = self.vars[s]
        if i not in v.rates:
            raise Refused
        v.settle(self.env.now)
        del v.rates[i]

    def mimic(self, i: int, s: str) -> None:
        if s in self.mimics:
            raise Refused
        self.mimics[s] = i

    def unmimic(self, i: int, s: str) -> None:
        if self.mimics.get(s) != i:
            raise Refused
        self.vars[s].v = self.lead.at(self.env.now)
        del self.mimics[s]

    def set(self, s: str, v: float) -> None:
        self.vars[s].settle(self.env.now)
        self.vars[s].v = v

    def marker(self, i: int, m: str, a: str | None) -> None:
        self.markers[i] = (m, self.env.now, a or "end")

    def clear(self, i: int) -> None:
        self.markers[i] = (None, None, "end")

    def get_marker(self, i: int) -> tuple:
        return self.markers[i][:2]

    def create(self, name: str) -> MEvent:
        if name in self.knowledge:
            raise Refused
        self.knowledge[name] = MEvent(self.env, "event")
        return self.knowledge[name]

    def known(self, name: str) -> MEvent | None:
        return self.knowledge.get(name)

    def names(self) -> list[str]:
        return sorted(self.knowledge)

    def event(self, kind: str, *args: Any) -> MEvent:
        return MEvent(self.env, kind, *args)

    def payload(self, e: MEvent) -> dict:
        return e.payload

    def succeed(self, name: str, v: Any) -> None:
        e = self.knowledge.pop(name)
        e.payload = {"v": v}
        e.ev.succeed()

    # the driver
    def run(self, i: int, spec: dict, prog: Any, notes: Any) -> Generator:
        gen = prog()
        send = None
        n = 0
        while True:
            try:
                e = gen.send(send)
            except StopIteration:
                return
            while True:
                try:
                    yield e.ev
                    send = None
                    break
                except SIM.Interrupt as x:
                    if spec["handler"] is None:
                        action = self.markers[i][2]
                    else:
                        notes("handler", x.cause, self.get_marker(i), self.values())
                        action = spec["handler"][n % len(spec["handler"])] if n < 6 else "end"
                        n += 1
                        if spec["remark"]:
                            self.marker(i, spec["remark"], "ignore")
                    if action == "ignore":
                        continue
                    for s in ALL:
                        if i in self.vars[s].rates:
                            self.deact(i, s)
                        if self.mimics.get(s) == i:
                            self.unmimic(i, s)
                    for m in e.parts():
                        for name in [k for k, w in self.knowledge.items() if w is m]:
                            del self.knowledge[name]
                        if m.kind == "get" and not m.ev.triggered:
                            m.ev.cancel()
                    gen.close()
                    if action == "end":
                        return
                    gen = prog()
                    send = None
                    break


# ---------------------------------------------------------------------------
# the same through upstage
# ---------------------------------------------------------------------------


class Lead(UP.Actor):
    x = UP.LinearChangingState(default=100.0, recording=True)


class Doer(UP.Actor):
    a = UP.LinearChangingState(default=0.0, recording=True)
    b = UP.LinearChangingState(default=1.0)
    sh = UP.SharedLinearChangingState(default=2.0, recording=True)
    p = UP.CartesianLocationChangingState(recording=True)
    m = UP.State(default=4.0, recording=True)
    n = UP.State(default=5.0)


class Idle(UP.Task):
    pass


class Real:
    plain = False

    def __init__(self, env: SIM.Environment, c: dict):
        self.env = env
        self.lead = Lead(name="lead")
        self.actor = Doer(name="doer", p=UP.CartesianLocation(3.0, 0.0, 0.0))
        self.idle = Idle()
        self.tasks: dict[int, UP.Task] = {}
        self.store = SIM.Store(env)

    def lead_rate(self, r: float) -> None:
        self.lead.deactivate_all_states(task=self.idle)
        self.lead.activate_linear_state(state="x", rate=r, task=self.idle)

    def values(self) -> list[float]:
        return [self.actor.p.x if s == "p" else getattr(self.actor, s) for s in ALL]

    def act(self, i: int, s: str, r: float) -> None:
        kw: dict[str, Any] = {"rate": r}
        if s in MOVE:
            x = self.actor.p.x
            kw = {
                "speed": abs(r),
                "waypoints": [UP.CartesianLocation(x + (1e6 if r >= 0 else -1e6), 0.0, 0.0)],
            }
        try:
            self.actor.activate_state(state=s, task=self.tasks[i], **kw)
        except UP.SimulationError as e:
            raise Refused from e

    def deact(self, i: int, s: str) -> None:
        try:
            self.actor.deactivate_state(state=s, task=self.tasks[i])
        except (UP.SimulationError, UP.UpstageError) as e:
            raise Refused from e

    def mimic(self, i: int, s: str) -> None:
        try:
            self.actor.activate_mimic_state(
                self_state=s, mimic_state="x", mimic_actor=self.lead, task=self.tasks[i]
            )
        except UP.UpstageError as e:
            raise Refused from e

    def unmimic(self, i: int, s: str) -> None:
        try:
            self.actor.deactivate_mimic_state(self_state=s, task=self.tasks[i])
        except UP.UpstageError as e:
            raise Refused from e

    def set(self, s: str, v: float) -> None:
        setattr(self.actor, s, v)

    def marker(self, i: int, m: str, a: str | None) -> None:
        if a is None:
            self.tasks[i].set_marker(m)
        else:
            self.tasks[i].set_marker(m, ACTIONS[a])

    def clear(self, i: int) -> None:
        self.tasks[i].clear_marker()

    def get_marker(self, i: int) -> tuple:
        return (self.tasks[i].get_marker(), self.tasks[i].get_marker_time())

    def create(self, name: str) -> Any:
        try:
            return self.actor.create_knowledge_event(name=name)
        except UP.SimulationError as e:
            raise Refused from e

    def known(self, name: str) -> Any:
        return self.actor.get_knowledge(name)

    def names(self) -> list[str]:
        return sorted(k for k in self.actor._knowledge)

    def event(self, kind: str, *args: Any) -> Any:
        if kind == "wait":
            return UP.Wait(*args)
        if kind == "get":
            return UP.Get(*args)
        return (UP.Any if kind == "any" else UP.All)(*args)

    def payload(self, e: Any) -> dict:
        return e.get_payload()

    def succeed(self, name: str, v: Any) -> None:
        self.actor.succeed_knowledge_event(name=name, v=v)

    def start(self, i: int, spec: dict, prog: Any, notes: Any, bad: str | None) -> SIM.Process:
        api = self

        class Work(UP.Task):
            count = 0

            def task(self, *, actor):
                yield from prog()

        class Handled(Work):
            def on_interrupt(self, *, actor, cause):
                notes("handler", cause, (self.get_marker(), self.get_marker_time()), api.values())
                n = self.count
                self.count += 1
                if spec["remark"]:
                    self.set_marker(spec["remark"], ACTIONS["ignore"])
                if bad:
                    return None if bad == "none" else 7
                return ACTIONS[spec["handler"][n % len(spec["handler"])] if n < 6 else "end"]

        self.tasks[i] = (Work if spec["handler"] is None else Handled)()
        return self.tasks[i].run(actor=self.actor)


# ---------------------------------------------------------------------------


def program(api: Any, i: int, steps: list, note: Any) -> Generator:
    note("start", api.get_marker(i))
    for n, s in enumerate(steps):
        op = s["op"]
        try:
            if op == "act":
                r = s["r"] or 1.0 if s["s"] in MOVE else s["r"]
                api.act(i, s["s"], r)
            elif op == "deact":
                api.deact(i, s["s"])
            elif op == "mimic":
                api.mimic(i, s["s"])
            elif op == "unmimic":
                api.unmimic(i, s["s"])
            elif op == "marker":
                api.marker(i, s["m"], s["a"])
            elif op == "clear":
                api.clear(i)
            elif op == "knows":
                api.create(kname(i, s["k"]))
            elif op == "yield":
                name = kname(i, s["k"])
                if s["how"] == "wait":
                    e = api.event("wait", s["t"])
                elif s["how"] == "get":
                    e = api.event("get", api.store)
                else:
                    k = api.known(name)
                    if k is None:
                        k = api.create(name)
                    e = k
                    if s["how"] == "any":
                        e = api.event("any", k, api.event("wait", s["t"]))
                    elif s["how"] == "all":
                        e = api.event("all", k, api.event("wait", s["t"]))
                    elif s["how"] == "nested":
                        e = api.event(
                            "any",
                            api.event("wait", s["t"] + 1.0),
                            api.event("all", k, api.event("wait", s["t"])),
                        )
                yield e
                if s["how"] in ("event", "all"):
                    note("payload", api.payload(k))
        except Refused:
            note("refused", n)
            continue
        note("step", n, op, api.values(), api.names())
    note("end")


def run(c: dict, plain: bool) -> list:
    log: list = []

    def go(env: SIM.Environment) -> None:
        api = Model(env, c) if plain else Real(env, c)
        procs = []

        def noter(i: int) -> Any:
            return lambda what, *more: log.append([env.now, i, what, *more])

        api.lead_rate(LEAD_RATES[0])
        for i, spec in enumerate(c["tasks"]):

            def prog(i: int = i, spec: dict = spec) -> Generator:
                return program(api, i, spec["steps"], noter(i))

            if plain:
                procs.append(env.process(api.run(i, spec, prog, noter(i))))
            else:
                procs.append(api.start(i, spec, prog, noter(i), c["bad"]))

        def outside() -> Generator:
            say = noter(-1)
            for n, o in enumerate(c["outside"]):
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                elif o["op"] == "int":
                    p = procs[o["i"] % len(procs)]
                    if p.is_alive:
                        say("interrupts", o["i"] % len(procs))
                        p.interrupt(cause={"n": n})
                elif o["op"] == "succeed":
                    name = kname(o["i"] % len(procs), o["k"])
                    if name in api.names():
                        api.succeed(name, n)
                        say("succeeded", name)
                elif o["op"] == "set":
                    api.set(o["s"], 10.0 * n)
                    say("set", api.values())
                else:
                    api.lead_rate(LEAD_RATES[o["i"] % 3])
                    say("look", api.values(), api.names())
            yield env.timeout(1.0)
            say("look", api.values(), api.names())
            yield env.timeout(3.0)
            say("look", api.values(), api.names())

        env.process(outside())
        drain(env)
        if not plain:
            # what was stopped has its last value on record
            for s in ("a", "sh", "p", "m"):
                now = getattr(api.actor, s)
                when, last = [x for x in api.actor._state_histories[s] if not isinstance(x[1], ActiveStatus)][
                    -1
                ]
                if last != now and s not in api.actor._active_states and s not in api.actor._mimic_states:
                    raise Violation(f"the last record of {s} is {last} at {when}, it is {now}")

    if plain:
        go(SIM.Environment())
    else:
        with UP.EnvironmentContext() as env:
            try:
                go(env)
            except UP.SimulationError as e:
                if c["bad"] and "nterrupt" in str(e):
                    log.append(["refused answer"])
                else:
                    raise
    return log


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, 1e-9, 1e-6)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def check(c: dict, ctx: Ctx) -> None:
    want = run(c, True)
    got = run(c, False)
    handled = [x for x in want if x[2] == "handler"]
    if c["bad"] and handled:
        # an answer that is none of the three is reported at the first interrupt
        cut = want.index(handled[0]) + 1
        want = want[:cut]
        who = handled[0][1]
        late = [x for x in got[cut:-1] if x[1] == who]
        if got[-1] != ["refused answer"] or late:
            raise Violation(f"an answer of {c['bad']} was taken; then came {got[cut:]!r}")
        got = got[:cut]
        ctx.label("bad answer")
    for n, (a, b) in enumerate(zip(want, got)):
        if not same(a, b):
            raise Violation(f"entry {n}: got {b!r}, should be {a!r} (values are {ALL})")
    if len(want) != len(got):
        raise Violation(
            f"{len(got)} entries, should be {len(want)}; next is {(want + got)[min(len(want), len(got))]!r}"
        )
    for x in want:
        if len(x) > 2 and x[2] in ("handler", "refused", "payload", "interrupts"):
            ctx.label(x[2])
    if any(len(x) > 2 and x[2] == "interrupts" for x in want):
        ctx.nontrivial()
    for spec in c["tasks"]:
        ctx.label("own handler" if spec["handler"] else "markers")


PROP = Prop(
    "C12",
    rule="at least one running task was interrupted",
    parts=[Part("outcomes", case, check, quick=14000, thorough=250000)],
)
