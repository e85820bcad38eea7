"""C06: state declarations are enforced on every actor, and nothing is shared."""

from __future__ import annotations

import copy
import inspect

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, close, expect_raises, nums, seqs, st

TYPES = {"int": int, "float": float, "str": str, "list": list, "bool": bool}
NAMES = ["s0", "s1", "s2", "s3", "s4", "s5"]

scalar = st.one_of(
    st.integers(-3, 3),
    st.sampled_from([0.0, 1.5, -2.0]),
    st.sampled_from(["", "a", "bc"]),
    st.booleans(),
)
value = st.one_of(scalar, scalar, st.lists(st.integers(0, 3), max_size=3), st.none())


def decl() -> st.SearchStrategy:
    rarely = st.sampled_from([False, False, False, True])
    plain = st.fixed_dictionaries(
        {
            "kind": st.just("plain"),
            "default": st.one_of(st.none(), scalar, scalar),
            "factory": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 3), max_size=3), scalar),
            "frozen": rarely,
            "no_init": rarely,
            "types": st.one_of(
                st.none(),
                st.none(),
                st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3, unique=True),
            ),
            "bare_type": st.booleans(),
            "recording": st.booleans(),
            "dup": st.booleans(),
            "allow_none": rarely,
            "recname": st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["rf", "rg", "s1"])),
        }
    )
    linear = st.fixed_dictionaries(
        {
            "kind": st.just("linear"),
            "default": st.one_of(st.none(), st.integers(0, 5)),
            "recording": st.booleans(),
        }
    )
    detect = st.fixed_dictionaries(
        {
            "kind": st.just("detect"),
            "default": st.booleans(),
            "recording": st.booleans(),
        }
    )
    return st.one_of(plain, plain, plain, plain, linear, detect)


def classes() -> st.SearchStrategy:
    own = st.dictionaries(st.sampled_from(NAMES), decl(), max_size=3)
    return st.fixed_dictionaries(
        {
            "base": own,
            "mixin": st.dictionaries(st.sampled_from(NAMES[3:]), decl(), max_size=1),
            "left": own,
            "right": own,
            "diamond": st.booleans(),
            "leaf": st.dictionaries(st.sampled_from(NAMES), decl(), max_size=1),
        }
    )


CLS = ["base", "left", "right", "leaf"]


def op() -> st.SearchStrategy:
    a, s = st.integers(0, 4), st.integers(0, 5)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "a": a, "s": s, "v": value}),
        st.fixed_dictionaries({"op": st.just("set"), "a": a, "s": s, "v": value}),
        st.fixed_dictionaries({"op": st.just("mutate"), "a": a, "s": s, "v": st.integers(5, 9)}),
        st.fixed_dictionaries({"op": st.just("activate"), "a": a, "s": s, "t": st.integers(0, 1)}),
        st.fixed_dictionaries({"op": st.just("deactivate"), "a": a, "s": s}),
    )


def case() -> st.SearchStrategy:
    actor = st.fixed_dictionaries(
        {
            "cls": st.sampled_from(CLS),
            "args": st.dictionaries(st.sampled_from(NAMES), value, max_size=5),
            # how often the arguments are repaired into acceptable ones
            "fix": st.sampled_from(["all", "all", "all", "missing", "none"]),
            "extra": st.sampled_from([None, None, None, None, None, "zz"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "classes": classes(),
            "tame": st.sampled_from([True, True, True, False]),
            "actors": st.lists(actor, min_size=1, max_size=4),
            "ops": seqs(op(), 16),
            "named": st.sampled_from([None, None, None, "log", "logs", "slog"]),
        }
    )


def tame(d: dict) -> dict:
    """Make a declaration one that can be declared (most cases should get that far)."""
    d = dict(d)
    if d["kind"] == "plain":
        if d["default"] is not None and d["factory"] is not None:
            d["factory"] = None
        if d["default"] is None and d["factory"] is None:
            d["no_init"] = False
    return d


def fits(d: dict, v) -> bool:
    if d["kind"] == "detect":
        return isinstance(v, bool)
    if d["kind"] == "linear":
        return isinstance(v, int | float)
    return d["types"] is None or isinstance(v, tuple(TYPES[t] for t in d["types"]))


def decl_error(d: dict):
    if d["kind"] != "plain":
        return None
    if d["default"] is not None and d["factory"] is not None:
        return UP.UpstageError
    if d["no_init"] and d["default"] is None and d["factory"] is None:
        return UP.SimulationError
    return None


def build(d: dict):
    if d["kind"] == "linear":
        return UP.LinearChangingState(
            default=d["default"], recording=d["recording"], valid_types=(int, float)
        )
    if d["kind"] == "detect":
        return UP.DetectabilityState(default=d["default"], recording=d["recording"])
    types = d["types"]
    if types is not None:
        real = tuple(TYPES[t] for t in types)
        types = real[0] if len(real) == 1 and d["bare_type"] else real
    factory = None
    if d["factory"] is not None:
        factory = lambda: copy.deepcopy(d["factory"])  # noqa: E731
    return UP.State(
        default=d["default"],
        default_factory=factory,
        frozen=d["frozen"],
        no_init=d["no_init"],
        valid_types=types,
        recording=d["recording"],
        record_duplicates=d["dup"],
        allow_none_default=d["allow_none"],
        recording_functions=(None if d["recname"] is None else [(lambda t, v: repr(v), d["recname"])]),
    )


def same(a, b) -> bool:
    return type(a) is type(b) and a == b


def check(c: dict, ctx: Ctx) -> None:
    spec = {
        k: {n: (tame(d) if c["tame"] else d) for n, d in v.items()}
        for k, v in c["classes"].items()
        if k != "diamond"
    }
    # declaring single states
    for group in spec.values():
        for n, d in group.items():
            err = decl_error(d)
            if err is not None:
                expect_raises(f"declaring {d}", err, build, d)
                ctx.label("declaration-refused")
                ctx.nontrivial()
                return

    # declaring classes: a state name may appear only once among the ancestors
    defs: dict = {}

    def declare(name, bases, groups, parents):
        """Create the class, or return None if it has to be (and is) refused."""
        if any(p not in made for p in parents):
            return None
        all_groups = list(groups)
        names: list = []
        for g in all_groups:
            names += list(spec[g])
        body = {n: build(d) for n, d in spec[groups[-1]].items()}
        if c["tame"] and len(set(names)) != len(names):
            # drop the repeated ones from the class's own declarations
            inherited = [n for g in all_groups[:-1] for n in spec[g]]
            if len(set(inherited)) == len(inherited):
                for n in set(inherited) & set(spec[groups[-1]]):
                    del body[n]
                    del spec[groups[-1]][n]
                names = inherited + list(body)
        if len(set(names)) != len(names):
            expect_raises(f"redeclaring a state {names}", ValueError, type, name, bases, body)
            ctx.label("redeclared")
            return None
        made[name] = type(name, bases, body)
        defs[name] = {n: d for g in all_groups for n, d in spec[g].items()}
        return made[name]

    made: dict = {}
    mix = type("Mix", (), {n: build(d) for n, d in spec["mixin"].items()})
    declare("base", (UP.Actor,), ["base"], [])
    declare("left", (made.get("base"), mix), ["base", "mixin", "left"], ["base"])
    declare("right", (made.get("base"),), ["base", "right"], ["base"])
    if c["classes"]["diamond"]:
        declare(
            "leaf",
            (made.get("left"), made.get("right")),
            ["base", "mixin", "left", "right", "leaf"],
            ["left", "right"],
        )
    else:
        declare("leaf", (made.get("left"),), ["base", "mixin", "left", "leaf"], ["left"])

    for name, cls in made.items():
        want = {n for n, d in defs[name].items() if not d.get("no_init")}
        got = set(inspect.signature(cls.__init__).parameters)
        ctx.ensure(
            want <= got and not (set(NAMES) - want) & got,
            f"{name} accepts {sorted(got)}, declared {sorted(want)}",
        )
        for n in want:
            d = defs[name][n]
            shown = inspect.signature(cls).parameters[n]
            given = d.get("factory") is not None or d["default"] is not None or d.get("allow_none", False)
            ctx.ensure(
                (shown.default is not inspect.Parameter.empty) == given,
                f"the signature of {name} shows {shown} for {d}",
            )
            if d["default"] is not None:
                ctx.ensure(
                    same(shown.default, d["default"]), f"the signature of {name} shows {shown} for {d}"
                )

    if c.get("named") is not None:
        # the actor's own log is no state
        odd = type("Odd", (UP.Actor,), {c["named"]: UP.State(default=1, recording=c["tame"])})
        with UP.EnvironmentContext():
            # what declares no state is given none
            expect_raises("a plain actor's state", UP.UpstageError, UP.Actor, name="p", **{c["named"]: 2})
            if c["named"] == "log":
                expect_raises("a state named log", UP.UpstageError, odd, name="odd")
                expect_raises("a state named log, given", UP.UpstageError, odd, name="odd", log=2)
            else:
                ctx.ensure(getattr(odd(name="odd"), c["named"]) == 1, f"{c['named']} is not 1")

    with UP.EnvironmentContext() as env:
        actors: list = []  # (actor, definitions, model values)
        locks: list = []
        for i, a in enumerate(c["actors"]):
            name = a["cls"]
            if name not in made:
                continue
            mine = defs[name]
            args = {k: v for k, v in copy.deepcopy(a["args"]).items()}
            if a["fix"] in ("all", "missing"):
                args = {
                    k: v
                    for k, v in args.items()
                    if k in mine and not mine[k].get("no_init") and fits(mine[k], v)
                }
            if a["fix"] == "all":
                for n, d in mine.items():
                    if n in args or d.get("default") is not None:
                        continue
                    if d.get("factory") is not None or d.get("allow_none"):
                        continue
                    for v in (1, 2.5, "x", [1], True):
                        if fits(d, v):
                            args[n] = copy.deepcopy(v)
                            break
            errors: list = []
            if a["extra"]:
                args[a["extra"]] = 1
            model: dict = {}
            for k, v in args.items():
                if k not in mine:
                    errors.append(UP.UpstageError)
                elif mine[k].get("no_init"):
                    errors.append(UP.SimulationError)
                elif not fits(mine[k], v):
                    errors.append(TypeError)
                else:
                    model[k] = copy.deepcopy(v)
            for n, d in mine.items():
                if n in args:
                    continue
                default = d.get("factory") if d.get("factory") is not None else d["default"]
                if default is not None:
                    if not fits(d, default):
                        errors.append(TypeError)
                    model[n] = copy.deepcopy(default)
                elif not d.get("allow_none"):
                    errors.append(UP.UpstageError)
            recs = [d["recname"] for d in mine.values() if d.get("recname")]
            clash = list(mine) + recs
            if len(set(clash)) != len(clash):
                errors.append(UP.SimulationError)
            if errors:
                expect_raises(
                    f"creating a {name} {mine} with {args}",
                    tuple(set(errors)),
                    made[name],
                    name=f"a{i}",
                    **args,
                )
                ctx.label("creation-refused")
                continue
            actor = made[name](name=f"a{i}", **args)
            ctx.label("created")
            actors.append((actor, mine, model))
            locks.append({})
        if not actors:
            if c["actors"] and any(a["cls"] in made for a in c["actors"]):
                ctx.nontrivial()
            return
        tasks = [UP.Task(), UP.Task()]

        def audit(what):
            for i, (actor, mine, model) in enumerate(actors):
                for n in mine:
                    if n in model:
                        got = getattr(actor, n)
                        ok = same(got, model[n])
                        if mine[n]["kind"] == "linear":
                            ok = isinstance(got, int | float) and close(got, model[n])
                        if not ok:
                            raise Violation(f"after {what}: a{i}.{n} is {got!r}, should be {model[n]!r}")
                    else:
                        expect_raises(
                            f"after {what}: reading unset a{i}.{n}",
                            UP.SimulationError,
                            getattr,
                            actor,
                            n,
                        )
                        ctx.label("unset")

        audit("creation")
        for o in c["ops"]:
            i = o["a"] % len(actors)
            actor, mine, model = actors[i]
            if not mine:
                continue
            n = sorted(mine)[o["s"] % len(mine)]
            d = mine[n]
            before = [copy.deepcopy(a._state_histories) for a, _, _ in actors]
            refused = False
            if o["op"] == "set":
                v = copy.deepcopy(o["v"])
                errors = []
                if d.get("frozen") and n in model:
                    errors.append(UP.SimulationError)
                if not fits(d, v):
                    errors.append(TypeError)
                if errors:
                    expect_raises(f"setting a{i}.{n} ({d}) to {v!r}", tuple(errors), setattr, actor, n, v)
                    ctx.label("set-refused")
                    refused = True
                else:
                    setattr(actor, n, v)
                    model[n] = copy.deepcopy(v)
                    ctx.label("set")
            elif o["op"] == "mutate":
                if isinstance(model.get(n), list):
                    getattr(actor, n).append(o["v"])
                    model[n] = model[n] + [o["v"]]
                    ctx.label("mutated")
                    refused = True  # not an assignment, so nothing is recorded
            elif o["op"] == "activate" and d["kind"] == "linear":
                kw = dict(state=n, task=tasks[o["t"]], rate=1.0)
                if n in locks[i]:
                    expect_raises(
                        f"second activation of a{i}.{n}",
                        UP.SimulationError,
                        actor.activate_state,
                        **kw,
                    )
                    refused = True
                else:
                    actor.activate_state(**kw)
                    locks[i][n] = tasks[o["t"]]
                    ctx.label("activated")
            elif o["op"] == "deactivate" and d["kind"] == "linear" and n in locks[i]:
                actor.deactivate_state(state=n, task=locks[i].pop(n))
            for j, (other, _, _) in enumerate(actors):
                if (j != i or refused) and other._state_histories != before[j]:
                    raise Violation(
                        f"{o} on a{i} changed the history of a{j}: {before[j]} -> {other._state_histories}"
                    )
            audit(o)
        if len(actors) > 1:
            ctx.label("several-actors")
        ctx.nontrivial(bool(c["ops"]))


PROP = Prop(
    "C06",
    rule="a declaration or a creation was refused, or at least one actor was created and used",
    parts=[Part("declare", case, check, quick=14000, thorough=300000)],
    assumptions=[
        "defaults given directly (not from a factory) are immutable objects, as the documentation asks"
    ],
)
