"""C07: recorded histories are a complete, immutable trace of the values set."""

from __future__ import annotations

import copy
from collections import Counter
from dataclasses import dataclass, field

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, drain, expect_raises, seqs, st, times

STATES = ["v", "d", "n", "f", "c", "m", "fz"]
#  v: recording            d: recording with duplicates   n: not recording
#  f: recording + functions   c: duplicates + recording classes   m: None allowed, unset
#  fz: frozen and recording


@dataclass
class Box:
    a: int = 0
    parts: list = field(default_factory=list)


def make(v):
    """Turn a JSON value into the object put into a state."""
    if isinstance(v, dict) and v.get("_") == "box":
        return Box(v["a"], list(v["parts"]))
    if isinstance(v, dict) and v.get("_") == "counter":
        return Counter(v["of"])
    return copy.deepcopy(v)


def value() -> st.SearchStrategy:
    small = st.integers(0, 2)
    return st.one_of(
        small,
        small,
        st.sampled_from([0.0, 1.0, 1.5, "", "a", True, None]),
        st.lists(small, max_size=2),
        st.lists(st.lists(small, max_size=2), max_size=2),
        st.dictionaries(st.sampled_from("xy"), small, max_size=2),
        st.dictionaries(st.sampled_from("xy"), st.lists(small, max_size=2), max_size=2),
        st.fixed_dictionaries({"_": st.just("box"), "a": small, "parts": st.lists(small, max_size=2)}),
        st.fixed_dictionaries({"_": st.just("counter"), "of": st.sampled_from(["", "a", "aab"])}),
    )


def op() -> st.SearchStrategy:
    a, s = st.integers(0, 2), st.sampled_from(STATES)
    setter = st.fixed_dictionaries({"op": st.just("set"), "a": a, "s": s, "v": value()})
    mut = st.fixed_dictionaries(
        {"op": st.just("mutate"), "a": a, "s": s, "x": st.integers(0, 2), "deep": st.booleans()}
    )
    return st.one_of(
        setter,
        setter,
        mut,
        mut,
        st.fixed_dictionaries({"op": st.sampled_from(["record", "again", "read"]), "a": a, "s": s}),
        st.fixed_dictionaries({"op": st.sampled_from(["record", "again"]), "a": a, "s": s}),
        st.fixed_dictionaries({"op": st.just("external"), "n": st.integers(0, 4), "x": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("scribble"), "a": a, "s": s}),
        st.fixed_dictionaries({"op": st.just("unknown"), "a": a}),
    )


def case() -> st.SearchStrategy:
    run = st.fixed_dictionaries(
        {
            "start": st.sampled_from([0, 0, 0.0, 2.5]),
            "actors": st.lists(
                st.fixed_dictionaries({s: value() for s in STATES if s != "m"} | {"sub": st.booleans()}),
                min_size=1,
                max_size=3,
            ),
            "ops": seqs(st.tuples(st.one_of(st.just(0.0), times(3)), op()), 24),
        }
    )
    return st.lists(run, min_size=1, max_size=2)


def mutate(obj, x, deep) -> bool:
    """Change a mutable object in place; False if it cannot be."""
    if isinstance(obj, Box):
        if deep:
            obj.parts.append(x)
        else:
            obj.a = x
    elif isinstance(obj, dict):
        inner = [v for v in obj.values() if isinstance(v, list)]
        if deep and inner:
            inner[0].append(x)
        else:
            obj["x"] = x
    elif isinstance(obj, list):
        inner = [v for v in obj if isinstance(v, list)]
        if deep and inner:
            inner[0].append(x)
        else:
            obj.append(x)
    else:
        return False
    return True


# --- the recording functions, and what they mean ----------------------------


def shape(t, v):
    return f"{type(v).__name__}/{v!r}/{t}"


def itself(t, v):
    return v


class Calls:
    def __init__(self) -> None:
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return self.n


class Seen:
    def __init__(self) -> None:
        self.all: list = []

    def __call__(self, time, value):
        if repr(value) not in self.all:
            self.all.append(repr(value))
        return self.all


class Trace:
    """The reference: one history of (time, value as it was then)."""

    def __init__(self, dup: bool) -> None:
        self.dup, self.rows = dup, []

    def add(self, t, v) -> None:
        row = (t, copy.deepcopy(v))
        if self.dup or not self.rows or self.rows[-1] != row:
            self.rows.append(row)


class State:
    def __init__(self, name: str) -> None:
        self.name = name
        self.recording = name != "n"
        dup = name in "dc"
        self.traces = {name: Trace(dup)} if self.recording else {}
        self.fns: dict = {}
        if name == "f":
            self.fns = {"f_shape": shape, "f_self": itself, "f_calls": Calls()}
        if name == "c":
            self.fns = {"c_calls": Calls(), "c_seen": Seen(), "c_shape": shape}
        for k in self.fns:
            self.traces[k] = Trace(dup)

    def record(self, t, v) -> None:
        if self.recording:
            self.traces[self.name].add(t, v)
            for k, fn in self.fns.items():
                self.traces[k].add(t, fn(t, v))


def typed(rows):
    return [(t, type(t).__name__, type(v).__name__, v) for t, v in rows]


def check(c: list, ctx: Ctx) -> None:
    class Base(UP.Actor):
        v = UP.State(recording=True)
        d = UP.State(recording=True, record_duplicates=True)
        n = UP.State()
        f = UP.State(
            recording=True,
            recording_functions=[(shape, "f_shape"), (itself, "f_self"), (Calls, "f_calls")],
        )
        c = UP.State(
            recording=True,
            record_duplicates=True,
            recording_functions=[(Calls, "c_calls"), (Seen, "c_seen"), (shape, "c_shape")],
        )
        m = UP.State(recording=True, allow_none_default=True)
        fz = UP.State(recording=True, frozen=True)

    class Sub(Base):
        more = UP.State(default=1, recording=True)

    for number, run in enumerate(c):
        with UP.EnvironmentContext(initial_time=run["start"]) as env:
            actors, models, current = [], [], []
            externals: list = []
            for i, a in enumerate(run["actors"]):
                vals = {s: make(a[s]) for s in STATES if s != "m"}
                actors.append((Sub if a["sub"] else Base)(name=f"a{i}", **vals))
                model = {s: State(s) for s in STATES}
                for s, v in vals.items():
                    model[s].record(float(env.now), v)
                models.append(model)
                current.append({s: make(a[s]) for s in vals})

            def audit(what):
                for i, actor in enumerate(actors):
                    want = {k: t.rows for s in models[i].values() for k, t in s.traces.items()}
                    want = {k: r for k, r in want.items() if r}
                    got = {k: r for k, r in actor._state_histories.items() if k != "more"}
                    if set(want) != set(got):
                        raise Violation(f"after {what}: a{i} recorded {sorted(got)}, not {sorted(want)}")
                    for k, rows in want.items():
                        if typed(got[k]) != typed(rows):
                            raise Violation(
                                f"run {number} after {what} at {env.now}: history {k} of a{i} is "
                                f"{got[k]}, should be {rows}"
                            )
                    for s, v in current[i].items():
                        now = getattr(actor, s)
                        if type(now) is not type(v) or now != v:
                            raise Violation(f"after {what}: a{i}.{s} is {now!r}, should be {v!r}")

            audit("creation")
            for wait, o in run["ops"]:
                if wait:
                    env.run(until=env.now + wait)
                k, t = o["op"], float(env.now)
                i = o.get("a", 0) % len(actors)
                actor, model, cur, s = actors[i], models[i], current[i], o.get("s")
                if k == "set":
                    obj = make(o["v"])
                    if s == "fz":
                        expect_raises("setting a frozen state", UP.SimulationError, setattr, actor, s, obj)
                    else:
                        setattr(actor, s, obj)
                        cur[s] = make(o["v"])
                        model[s].record(t, cur[s])
                        ctx.label("set")
                        externals = [e for e in externals if e[:2] != (i, s)] + [(i, s, obj)]
                elif s is not None and s not in cur:
                    expect_raises(
                        "using a state that has no value",
                        UP.SimulationError,
                        actor.record_state if k == "record" else (lambda n: getattr(actor, n)),
                        s,
                    )
                    ctx.label("unset")
                elif k == "mutate":
                    if mutate(getattr(actor, s), o["x"], o["deep"]):
                        mutate(cur[s], o["x"], o["deep"])
                        ctx.label("mutated")
                elif k == "record":
                    actor.record_state(s)
                    model[s].record(t, cur[s])
                    ctx.label("recorded")
                elif k == "again":
                    if s != "fz":
                        setattr(actor, s, getattr(actor, s))
                        model[s].record(t, cur[s])
                        ctx.label("set-again")
                elif k == "read":
                    getattr(actor, s)
                elif k == "external" and externals:
                    # the object assigned earlier is changed from outside
                    e = externals[o["n"] % len(externals)]
                    if mutate(e[2], o["x"], True):
                        mutate(current[e[0]][e[1]], o["x"], True)
                        ctx.label("mutated-outside")
                elif k == "scribble":
                    # changing what a history returned must not reach the actor's value
                    rows = actor._state_histories.get(s)
                    if rows and mutate(rows[-1][1], 1, True):
                        mutate(model[s].traces[s].rows[-1][1], 1, True)
                elif k == "unknown":
                    expect_raises(
                        "recording an unknown state", UP.SimulationError, actor.record_state, "nope"
                    )
                audit(o)
            drain(env)
            if len(actors) > 1:
                ctx.label("several-actors")
    if len(c) > 1:
        ctx.label("several-runs")
    ctx.nontrivial()


PROP = Prop(
    "C07",
    rule="every case creates recording actors and performs at least one operation on them",
    parts=[Part("history", case, check, quick=9000, thorough=250000)],
)
