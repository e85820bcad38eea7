"""C08: key/value states behave like the plain object and record every change."""

from __future__ import annotations

import copy
import dataclasses
import typing

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, expect_raises, seqs, st, times

TYPES = {"int": int, "float": float, "str": str, "list": list, "bool": bool, "none": type(None)}
KEYS = ["a", "b", "c", "d"]

value = st.one_of(
    st.integers(-2, 2),
    st.integers(0, 1),
    st.sampled_from([0.0, 1.0, 2.5, "", "x", True, False, None]),
    st.sampled_from([(), (1,), (1, 2)]).map(list),
)


class Trace:
    def __init__(self, dup: bool) -> None:
        self.dup, self.rows = dup, []

    def add(self, t, v) -> None:
        row = (t, copy.deepcopy(v))
        if self.dup or not self.rows or self.rows[-1] != row:
            self.rows.append(row)


def typed(rows):
    return [(t, type(t).__name__, type(v).__name__, v) for t, v in rows]


def compare(what, got, want) -> None:
    want = {k: t.rows for k, t in want.items() if t.rows}
    if set(got) != set(want):
        raise Violation(f"{what}: recorded {sorted(got)}, should be {sorted(want)}")
    for k in want:
        if typed(got[k]) != typed(want[k]):
            raise Violation(f"{what}: history {k} is {got[k]}, should be {want[k]}")


# --- dictionaries -------------------------------------------------------------


def dict_case() -> st.SearchStrategy:
    a, s, k = st.integers(0, 1), st.sampled_from("pq"), st.sampled_from(KEYS)
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "a": a, "s": s, "k": k, "v": value}),
        st.fixed_dictionaries({"op": st.just("set"), "a": a, "s": s, "k": k, "v": value}),
        st.fixed_dictionaries({"op": st.just("default"), "a": a, "s": s, "k": k, "v": value}),
        st.fixed_dictionaries({"op": st.just("add"), "a": a, "s": s, "k": k, "v": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("raw"), "a": a, "s": s, "k": k, "v": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("append"), "a": a, "s": s, "k": k, "v": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("replace"), "a": a, "s": s}),
    )
    conf = st.fixed_dictionaries(
        {
            "types": st.one_of(
                st.none(),
                st.just(["int"]),
                st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3, unique=True),
            ),
            "recording": st.sampled_from([True, True, False]),
            "dup": st.booleans(),
            "fns": st.booleans(),
        }
    )
    return st.fixed_dictionaries(
        {
            "p": conf,
            "q": conf,
            "init": st.lists(
                st.tuples(
                    st.dictionaries(st.sampled_from(KEYS), value, max_size=4),
                    st.dictionaries(st.sampled_from(KEYS), value, max_size=4),
                ),
                min_size=2,
                max_size=2,
            ),
            "fix": st.sampled_from([True, True, True, True, False]),
            "ops": seqs(st.tuples(st.one_of(st.just(0.0), times(3)), op), 24),
        }
    )


def summary(t, v):
    return f"{t} {sorted(dict(v.items()).items(), key=repr)!r}"


def whole(t, v):
    return dict(v.items())


def check_dict(c: dict, ctx: Ctx) -> None:
    def ok(s, v):
        types = c[s]["types"]
        return types is None or isinstance(v, tuple(TYPES[t] for t in types))

    def state(s):
        conf = c[s]
        return UP.DictionaryState(
            valid_types=None if conf["types"] is None else tuple(TYPES[t] for t in conf["types"]),
            recording=conf["recording"],
            record_duplicates=conf["dup"],
            recording_functions=[(summary, f"{s}_sum"), (whole, f"{s}_all")] if conf["fns"] else None,
        )

    cls = type("Holder", (UP.Actor,), {"p": state("p"), "q": state("q")})
    with UP.EnvironmentContext() as env:
        actors, models, traces = [], [], []

        def record(i, s, keys):
            if not c[s]["recording"]:
                return
            t, tr, dup = float(env.now), traces[i], c[s]["dup"]
            for k in keys:
                tr.setdefault(f"{s}.{k}", Trace(dup)).add(t, models[i][s][k])
            if c[s]["fns"]:
                tr.setdefault(f"{s}_sum", Trace(dup)).add(t, summary(t, models[i][s]))
                tr.setdefault(f"{s}_all", Trace(dup)).add(t, whole(t, models[i][s]))

        given = []
        for i, (p, q) in enumerate(c["init"]):
            args = copy.deepcopy({"p": dict(p), "q": dict(q)})
            if c["fix"]:
                args = {s: {k: v for k, v in d.items() if ok(s, v)} for s, d in args.items()}
            bad = [v for s, d in args.items() for v in d.values() if not ok(s, v)]
            if bad:
                expect_raises(f"creating with {args}", TypeError, cls, name=f"a{i}", **args)
                ctx.label("creation-refused")
                ctx.nontrivial()
                return
            actors.append(cls(name=f"a{i}", **args))
            models.append(copy.deepcopy(args))
            given.append(args)
            traces.append({})
            for s in "pq":
                record(i, s, list(args[s]))

        def audit(what):
            for i, actor in enumerate(actors):
                for s in "pq":
                    m, proxy = models[i][s], getattr(actor, s)
                    views = {
                        "items": (dict(proxy.items()), m),
                        "iteration": (list(proxy), list(m)),
                        "keys": (list(proxy.keys()), list(m)),
                        "values": (list(proxy.values()), list(m.values())),
                        "len": (len(proxy), len(m)),
                        "raw_object": (proxy.raw_object(), m),
                        "==": (proxy == m, True),
                        "== with more": (proxy == {**m, "zz": 0}, False),
                        "repr": (repr(proxy), repr(m)),
                        "in": ([k in proxy for k in KEYS], [k in m for k in KEYS]),
                        "get": ([proxy[k] for k in m], list(m.values())),
                        "types": (
                            [type(v) for v in proxy.values()],
                            [type(v) for v in m.values()],
                        ),
                    }
                    for view, (got, want) in views.items():
                        if got != want:
                            raise Violation(f"after {what}: {view} of a{i}.{s} gives {got!r}, not {want!r}")
                compare(f"after {what} at {env.now}: a{i}", actor._state_histories, traces[i])

        audit("creation")
        # the dictionary passed in is not the state
        for i, args in enumerate(given):
            for d in args.values():
                d["zz"] = 1
        audit("changing the dictionaries passed in")
        for wait, o in c["ops"]:
            if wait:
                env.run(until=env.now + wait)
            i, s, k = o["a"], o["s"], o.get("k")
            actor, model = actors[i], models[i][s]
            proxy = getattr(actor, s)
            if o["op"] == "set":
                if ok(s, o["v"]):
                    proxy[k] = copy.deepcopy(o["v"])
                    model[k] = copy.deepcopy(o["v"])
                    record(i, s, [k])
                    ctx.label("set")
                else:
                    expect_raises(
                        f"setting {s}[{k!r}] to {o['v']!r} with types {c[s]['types']}",
                        TypeError,
                        proxy.__setitem__,
                        k,
                        o["v"],
                    )
                    ctx.label("set-refused")
            elif o["op"] == "default":
                if k in model or ok(s, o["v"]):
                    got = proxy.setdefault(k, copy.deepcopy(o["v"]))
                    new = k not in model
                    want = model.setdefault(k, copy.deepcopy(o["v"]))
                    ctx.ensure(
                        got == want and type(got) is type(want),
                        f"setdefault({k!r}, {o['v']!r}) gave {got!r}, not {want!r}",
                    )
                    if new:
                        record(i, s, [k])
                        ctx.label("setdefault-new")
                else:
                    expect_raises(
                        f"setdefault({k!r}, {o['v']!r}) with types {c[s]['types']}",
                        TypeError,
                        proxy.setdefault,
                        k,
                        o["v"],
                    )
                    ctx.label("set-refused")
            elif o["op"] == "add":
                if k not in model:
                    expect_raises(f"reading missing key {k}", KeyError, lambda: proxy[k])
                    ctx.label("missing")
                elif isinstance(model[k], int | float):
                    new = model[k] + o["v"]
                    if ok(s, new):
                        getattr(actor, s)[k] += o["v"]
                        model[k] = new
                        record(i, s, [k])
                        ctx.label("added")
            elif o["op"] == "append":
                # changing a value in place is not setting it, and nothing recorded changes
                if isinstance(model.get(k), list):
                    proxy[k].append(o["v"])
                    model[k].append(o["v"])
                    ctx.label("changed-in-place")
            elif o["op"] == "raw":
                # the documented unrecorded way in
                proxy.raw_object()[k] = o["v"]
                model[k] = o["v"]
            else:
                expect_raises("replacing the state", UP.SimulationError, setattr, actor, s, {})
            audit(o)
        ctx.nontrivial()


# --- dataclasses --------------------------------------------------------------


@dataclasses.dataclass
class Plain:
    a: int
    b: float = 0.0
    c: str | None = None


@dataclasses.dataclass
class Child(Plain):
    d: bool = False
    e: typing.Any = None


@dataclasses.dataclass
class Grand(Child):
    b: str = "b"  # type: ignore[assignment]
    f: list[int] = dataclasses.field(default_factory=list)
    g: typing.Optional[dict[str, int]] = None
    h: "int | str" = 0


@dataclasses.dataclass
class Tight:
    a: "int" = 1
    h: "typing.Union[int, list[str]]" = 0

    def total(self) -> int:
        return self.a


# This module's annotations are strings (see the __future__ import); give half of
# the classes real ones, as in a module without that import.
def _real(cls):
    hints = typing.get_type_hints(cls)
    for f in dataclasses.fields(cls):
        f.type = hints[f.name]
    cls.__annotations__ = {k: hints[k] for k in cls.__dict__.get("__annotations__", {})}
    return cls


DCS = {
    "Plain": _real(Plain),
    "Child": _real(Child),
    "Grand": _real(Grand),
    "Tight": Tight,
}
ALLOWED = {
    "Plain": {"a": (int,), "b": (float,), "c": (str, type(None))},
    "Tight": {"a": (int,), "h": (int, list)},
}
ALLOWED["Child"] = {**ALLOWED["Plain"], "d": (bool,), "e": (object,)}
ALLOWED["Grand"] = {
    **ALLOWED["Child"],
    "b": (str,),
    "f": (list,),
    "g": (dict, type(None)),
    "h": (int, str),
}
dc_value = st.one_of(
    st.integers(-2, 2),
    st.sampled_from([0.0, 1.0, 2.5, "", "x", True, False, None]),
    st.just([]),
    st.just({"k": 1}),
)


def dc_case() -> st.SearchStrategy:
    a, k = st.integers(0, 1), st.sampled_from("abcdefgh")
    op = st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("set"), "a": a, "n": st.integers(0, 7), "v": dc_value, "fit": st.booleans()}
        ),
        st.fixed_dictionaries(
            {"op": st.just("set"), "a": a, "n": st.integers(0, 7), "v": dc_value, "fit": st.just(True)}
        ),
        st.fixed_dictionaries({"op": st.just("add"), "a": a, "v": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("raw"), "a": a, "v": st.integers(0, 2)}),
        st.fixed_dictionaries(
            {"op": st.just("append"), "a": a, "n": st.integers(0, 7), "v": st.integers(0, 2)}
        ),
        st.fixed_dictionaries({"op": st.just("replace"), "a": a}),
    )
    del k
    return st.fixed_dictionaries(
        {
            "dc": st.sampled_from(sorted(DCS)),
            "typed": st.booleans(),
            "wrong": st.sampled_from([False] * 9 + [True]),
            "recording": st.sampled_from([True, True, False]),
            "dup": st.booleans(),
            "fns": st.booleans(),
            "init": st.lists(st.integers(-2, 2), min_size=2, max_size=2),
            "ops": seqs(st.tuples(st.one_of(st.just(0.0), times(3)), op), 24),
        }
    )


def dc_sum(t, v):
    return f"{t} {[getattr(v, f.name) for f in dataclasses.fields(v)]!r}"


def dc_whole(t, v):
    return [getattr(v, f.name) for f in dataclasses.fields(v)]


FITTING = [1, 2, 1.5, "x", "", True, None, [], {"k": 2}]


def check_dc(c: dict, ctx: Ctx) -> None:
    dc, allowed = DCS[c["dc"]], ALLOWED[c["dc"]]
    names = sorted(allowed)
    cls = type(
        "Holder",
        (UP.Actor,),
        {
            "s": UP.DataclassState(
                valid_types=dc if c["typed"] else None,
                recording=c["recording"],
                record_duplicates=c["dup"],
                recording_functions=[(dc_sum, "s_sum"), (dc_whole, "s_all")] if c["fns"] else None,
            )
        },
    )
    with UP.EnvironmentContext() as env:
        if c["wrong"] and c["typed"]:
            other = next(d for n, d in DCS.items() if not issubclass(d, dc))
            expect_raises("wrong dataclass", TypeError, cls, name="w", s=other(a=1))
            expect_raises("not a dataclass", TypeError, cls, name="w", s={"a": 1})
            ctx.label("creation-refused")
        actors, models, traces = [], [], [{}, {}]

        def record(i, keys):
            if not c["recording"]:
                return
            t = float(env.now)
            for k in keys:
                traces[i].setdefault(f"s.{k}", Trace(c["dup"])).add(t, getattr(models[i], k))
            if c["fns"]:
                traces[i].setdefault("s_sum", Trace(c["dup"])).add(t, dc_sum(t, models[i]))
                traces[i].setdefault("s_all", Trace(c["dup"])).add(t, dc_whole(t, models[i]))

        for i, v in enumerate(c["init"]):
            actors.append(cls(name=f"a{i}", s=dc(a=v)))
            models.append(dc(a=v))
            record(i, [f.name for f in dataclasses.fields(dc)])

        def audit(what):
            for i, actor in enumerate(actors):
                proxy, m = actor.s, models[i]
                views = {
                    "fields": (
                        [f.name for f in dataclasses.fields(proxy)],
                        [f.name for f in dataclasses.fields(m)],
                    ),
                    "attributes": (
                        [(type(getattr(proxy, n)), getattr(proxy, n)) for n in names],
                        [(type(getattr(m, n)), getattr(m, n)) for n in names],
                    ),
                    "==": (proxy == m, True),
                    "raw_object": (proxy.raw_object(), m),
                    "repr": (repr(proxy), repr(m)),
                    "other": (proxy == 3, False),
                }
                for view, (got, want) in views.items():
                    if got != want:
                        raise Violation(f"after {what}: {view} of a{i}.s gives {got!r}, not {want!r}")
                compare(f"after {what} at {env.now}: a{i}", actor._state_histories, traces[i])

        audit("creation")
        for wait, o in c["ops"]:
            if wait:
                env.run(until=env.now + wait)
            i = o["a"]
            actor, m = actors[i], models[i]
            if o["op"] == "set":
                n = names[o["n"] % len(names)]
                v = copy.deepcopy(o["v"])
                if o["fit"] and not isinstance(v, allowed[n]):
                    v = copy.deepcopy(next(x for x in FITTING if isinstance(x, allowed[n])))
                if isinstance(v, allowed[n]):
                    setattr(actor.s, n, v)
                    setattr(m, n, copy.deepcopy(v))
                    record(i, [n])
                    ctx.label("set")
                    if n not in dc.__dict__.get("__annotations__", {}):
                        ctx.label("inherited-field")
                else:
                    expect_raises(f"setting {c['dc']}.{n} to {v!r}", TypeError, setattr, actor.s, n, v)
                    ctx.label("set-refused")
            elif o["op"] == "add":
                actor.s.a += o["v"]
                m.a += o["v"]
                record(i, ["a"])
            elif o["op"] == "append":
                n = names[o["n"] % len(names)]
                for v in (getattr(actor.s, n), getattr(m, n)):
                    if isinstance(v, list):
                        v.append(o["v"])
                        ctx.label("changed-in-place")
                    elif isinstance(v, dict):
                        v["k"] = o["v"]
                        ctx.label("changed-in-place")
            elif o["op"] == "raw":
                actor.s.raw_object().a = o["v"]
                m.a = o["v"]
            else:
                expect_raises("replacing the state", UP.SimulationError, setattr, actor, "s", dc(a=9))
            audit(o)
        ctx.nontrivial()


PROP = Prop(
    "C08",
    rule="an operation sequence ran on the states of two actors, or creation was refused",
    parts=[
        Part("dictionary", dict_case, check_dict, quick=6000, thorough=150000),
        Part("dataclass", dc_case, check_dc, quick=6000, thorough=150000),
    ],
)
