"""C09: resource states build the declared resources once, per actor, as configured."""

from __future__ import annotations

import copy
import math

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, expect_raises, seqs, st

KINDS = {
    "Store": SIM.Store,
    "FilterStore": SIM.FilterStore,
    "Container": SIM.Container,
    "SMStore": UP.SelfMonitoringStore,
    "SMFilterStore": UP.SelfMonitoringFilterStore,
    "SMSorted": UP.SelfMonitoringSortedFilterStore,
    "Sorted": UP.SortedFilterStore,
    "SMContainer": UP.SelfMonitoringContainer,
}
# what is refused as a kind of resource
BAD = {"Resource": SIM.Resource, "int": int, "text": "Store", "Event": UP.Event}
CONTAINERS = ("Container", "SMContainer")
WITH_FUNC = ("SMStore", "SMFilterStore", "SMSorted")


def is_sub(kind: str, types: list) -> bool:
    return issubclass(KINDS[kind], tuple(KINDS[t] for t in types))


def double(items):
    return 2 * len(items)


def options(bad: bool = True) -> st.SearchStrategy:
    opt = {
        "capacity": st.sampled_from([1, 2, 5, 7.5, 10] + ([0, -1] if bad else [])),
        "init": st.sampled_from([0, 1, 4, 2.5] + ([20, -1] if bad else [])),
        "item_func": st.just("double"),
    }
    if bad:
        opt["colour"] = st.just("red")
    return st.lists(st.sampled_from(sorted(opt)), max_size=2, unique=True).flatmap(
        lambda ks: st.fixed_dictionaries({k: opt[k] for k in ks})
    )


def decl() -> st.SearchStrategy:
    kind = st.sampled_from(sorted(KINDS))
    return st.fixed_dictionaries(
        {
            "form": st.sampled_from(["res", "res", "res", "multi", "multi", "comm"]),
            "default": st.one_of(st.none(), kind, kind),
            "bad_default": st.sampled_from([None] * 14 + sorted(BAD)),
            "types": st.one_of(st.none(), st.none(), st.lists(kind, min_size=1, max_size=3, unique=True)),
            "bare": st.booleans(),
            "kwargs": st.one_of(st.none(), options(False)),
            "modes": st.one_of(st.none(), st.just("UHF"), st.just(["HF", "VHF"])),
        }
    )


def entry() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "given": st.sampled_from(["spec", "spec", "spec", "object", "bad object"]),
            "kind": st.one_of(st.none(), st.sampled_from(sorted(KINDS))),
            "bad_kind": st.sampled_from([None] * 12 + sorted(BAD)),
            "opts": options(),
            "modes": st.one_of(st.none(), st.just("SAT"), st.just(["A", "B"]), st.just([1])),
        }
    )


def case() -> st.SearchStrategy:
    actor = st.fixed_dictionaries(
        {
            "skip": st.lists(st.booleans(), min_size=2, max_size=2),
            "entries": st.lists(entry(), min_size=2, max_size=2),
            "keys": st.lists(
                st.lists(st.sampled_from("abc"), max_size=3, unique=True), min_size=2, max_size=2
            ),
            "more": st.lists(entry(), min_size=3, max_size=3),
            "names": st.sampled_from([False, False, True]),
            "share": st.booleans(),
        }
    )
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["put", "put", "put", "get", "replace", "clone", "run"]),
            "a": st.integers(0, 3),
            "r": st.integers(0, 5),
            "v": st.integers(1, 3),
        }
    )
    return st.fixed_dictionaries(
        {
            "decls": st.lists(decl(), min_size=1, max_size=2),
            "tame": st.sampled_from([True, True, True, False]),
            "actors": st.lists(actor, min_size=1, max_size=3),
            "ops": seqs(op, 14),
        }
    )


def tidy(e: dict, d: dict, modes: bool) -> dict:
    """Make an entry that the declaration accepts."""
    e = copy.deepcopy(e)
    e["bad_kind"] = None
    if e["given"] == "bad object":
        e["given"] = "spec"
    allowed = allowed_kinds(d)
    kind = e["kind"] or d["default"]
    if kind not in allowed:
        kind = e["kind"] = allowed[0]
    merged = {**({} if e["given"] == "object" else d["kwargs"] or {}), **e["opts"]}
    # options of defaults cannot be taken away, so choose a kind that takes them all
    e["opts"].pop("colour", None)
    if not takes(kind, merged):
        for k in list(e["opts"]):
            e["opts"].pop(k)
    if e["modes"] == [1]:
        e["modes"] = ["SAT"]
    if modes and e["modes"] is None and d["modes"] is None:
        e["modes"] = "SAT"
    return e


def takes(kind: str, opts: dict) -> bool:
    """Whether the kind can be created with these options."""
    names = {"capacity"}
    if kind in CONTAINERS:
        names.add("init")
    if kind in WITH_FUNC:
        names.add("item_func")
    if not set(opts) <= names:
        return False
    cap, init = opts.get("capacity", math.inf), opts.get("init", 0)
    return cap > 0 and 0 <= init <= cap


def allowed_kinds(d: dict) -> list:
    types = d["types"]
    if d["form"] == "comm":
        return [k for k in KINDS if k not in CONTAINERS and (types is None or is_sub(k, types))]
    return [k for k in KINDS if types is None or is_sub(k, types)]


def build(d: dict, kwargs):
    types = None
    if d["types"] is not None:
        types = tuple(KINDS[t] for t in d["types"])
        if len(types) == 1 and d["bare"]:
            types = types[0]
    default = KINDS[d["default"]] if d["default"] else None
    if d["bad_default"]:
        default = BAD[d["bad_default"]]
    if d["form"] == "comm":
        return UP.CommunicationStore(modes=d["modes"], default=default, valid_types=types)
    cls = UP.MultiStoreState if d["form"] == "multi" else UP.ResourceState
    return cls(default=default, valid_types=types, default_kwargs=kwargs)


def snapshot(x):
    """A copy of descriptions, with the very same resources in it."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return list(x) if isinstance(x, list) else x


class Model:
    """What a resource should be like."""

    def __init__(self, kind: str, opts: dict) -> None:
        self.kind = kind
        self.capacity = opts.get("capacity", math.inf)
        self.func = "item_func" in opts
        self.container = kind in CONTAINERS
        self.level = opts.get("init", 0)
        self.items: list = []

    def compare(self, what: str, res) -> None:
        if type(res) is not KINDS[self.kind]:
            raise Violation(f"{what} is a {type(res)}, should be {self.kind}")
        if res.capacity != self.capacity:
            raise Violation(f"{what} has capacity {res.capacity}, should be {self.capacity}")
        if self.container:
            if res.level != self.level:
                raise Violation(f"{what} has level {res.level}, should be {self.level}")
        elif res.items != self.items:
            raise Violation(f"{what} holds {res.items}, should hold {self.items}")
        if self.kind.startswith("SM"):
            want = self.level if self.container else (2 if self.func else 1) * len(self.items)
            got = res._quantities[-1][1]
            if not getattr(self, "clone", False) and got != want:
                raise Violation(f"{what} recorded {got}, should be {want}")

    def put(self, v):
        """Put now if there is room; returns if it fits."""
        if self.container:
            if self.level + v > self.capacity:
                return False
            self.level += v
        else:
            if len(self.items) >= self.capacity:
                return False
            self.items.append(v)
        self.clone = False
        return True

    def get(self, v):
        if self.container:
            if self.level < v:
                return False
            self.level -= v
        else:
            if not self.items:
                return False
            self.items.pop(0)
        self.clone = False
        return True


def check(c: dict, ctx: Ctx) -> None:
    decls = copy.deepcopy(c["decls"])
    body, kw_given = {}, []
    for i, d in enumerate(decls):
        if d["form"] == "comm":
            d["kwargs"] = None
        if d["form"] == "multi" and d["types"] is None:
            d["bad_default"] = None
        if c["tame"]:
            d["bad_default"] = None
            if d["form"] == "comm" and d["types"]:
                d["types"] = [t for t in d["types"] if t not in CONTAINERS] or None
            if d["default"] and d["default"] not in allowed_kinds(d):
                d["default"] = allowed_kinds(d)[0]
            if d["kwargs"]:
                for k in allowed_kinds(d):
                    if not takes(k, d["kwargs"]):
                        d["kwargs"] = None
                        break
        kwargs = None
        if d["kwargs"] is not None:
            kwargs = {k: double if v == "double" else v for k, v in d["kwargs"].items()}
        if d["form"] == "comm" and d["default"] is None and not d["bad_default"]:
            d["default"] = "SMStore" if d["types"] is None else d["types"][0]
        errors = []
        if d["bad_default"] and d["form"] != "multi":
            errors += [UP.UpstageError]
        if d["form"] == "comm" and d["types"] and any(t in CONTAINERS for t in d["types"]):
            errors += [UP.SimulationError]
        if errors:
            expect_raises(f"declaring {d}", tuple(errors), build, d, kwargs)
            ctx.label("declaration-refused")
            ctx.nontrivial()
            return
        body[f"s{i}"] = build(d, kwargs)
        if kwargs is not None:
            # the state keeps its own defaults
            kw_given.append(kwargs)
            kwargs["capacity"] = 99
    cls = type("Holder", (UP.Actor,), body)

    with UP.EnvironmentContext() as env:

        def make_entry(e, d, multi):
            """The input for one resource, its model, and the errors it has to cause."""
            if multi and d["types"] is None:
                # only the valid types promise a refusal
                given = "spec" if e["given"] == "bad object" else e["given"]
                e = dict(e, given=given, bad_kind=None)
            if e["given"] == "bad object":
                return 17, None, [UP.UpstageError, TypeError]
            kind = e["kind"] or d["default"]
            opts = dict(e["opts"])
            real = {k: double if v == "double" else v for k, v in opts.items()}
            if e["given"] == "object":
                kind = kind or "Store"
                if not takes(kind, opts):
                    real, opts = {}, {}
                obj = KINDS[kind](env, **real)
                if kind not in allowed_kinds(d):
                    return obj, None, [UP.UpstageError, TypeError]
                return obj, Model(kind, opts), []
            spec = dict(real)
            if e["kind"]:
                spec["kind"] = KINDS[e["kind"]]
            bad = e["bad_kind"] or (None if e["kind"] else d["bad_default"])
            if e["bad_kind"]:
                spec["kind"] = BAD[e["bad_kind"]]
            if bad or kind is None:
                return spec, None, [UP.UpstageError, TypeError]
            opts = {**(d["kwargs"] or {}), **opts}
            if kind not in allowed_kinds(d) or not takes(kind, opts):
                return spec, None, [UP.UpstageError, TypeError]
            return spec, Model(kind, opts), []

        actors: list = []  # (actor, {(state, key): model}, {state: modes})
        previous: dict = {}
        for n, a in enumerate(c["actors"]):
            args, errors, models, modes = {}, [], {}, {}
            for i, d in enumerate(decls):
                s = f"s{i}"
                if d["form"] == "multi":
                    keys = a["keys"][i]
                    if a["names"]:
                        args[s] = list(keys)
                        more = [dict(e, given="spec", kind=None, bad_kind=None, opts={}) for e in a["more"]]
                    else:
                        more = [tidy(e, d, False) if c["tame"] else e for e in a["more"]]
                        args[s] = {}
                    for k, e in zip(keys, more, strict=False):
                        spec, m, err = make_entry(e, d, True)
                        if not a["names"]:
                            args[s][k] = spec
                        models[s, k] = m
                        errors += err
                    continue
                e = a["entries"][i]
                if c["tame"]:
                    e = tidy(e, d, d["form"] == "comm")
                lacking = d["default"] is None or (d["form"] == "comm" and d["modes"] is None)
                if a["skip"][i] and not (c["tame"] and lacking):
                    e = dict(e, given="spec", kind=None, bad_kind=None, opts={}, modes=None)
                    if d["default"] is None:
                        errors.append(UP.UpstageError)
                    _, models[s, None], err = make_entry(e, d, False)
                    errors += err
                else:
                    args[s], models[s, None], err = make_entry(e, d, False)
                    errors += err
                if d["form"] == "comm":
                    want = d["modes"]
                    if s in args and isinstance(args[s], dict) and e["modes"] is not None:
                        args[s]["modes"] = want = copy.deepcopy(e["modes"])
                    if want is None or want == [1]:
                        errors.append(UP.SimulationError)
                    modes[s] = {want} if isinstance(want, str) else set(want or ())
            # several actors may be created from the very same description
            if (
                a["share"]
                and previous.get("args")
                and not any(
                    isinstance(v, SIM.Store | SIM.Container)
                    for x in previous["args"].values()
                    for v in ([x, *x.values()] if isinstance(x, dict) else [x])
                )
            ):
                args, errors = previous["args"], previous["errors"]
                models, modes = copy.deepcopy(previous["models"]), previous["modes"]
                ctx.label("same-description")
            previous = dict(args=args, errors=errors, models=copy.deepcopy(models), modes=modes)
            shown = snapshot(args)
            if errors:
                expect_raises(
                    f"creating with {args} as {decls}", tuple(set(errors)), cls, name=f"a{n}", **args
                )
                ctx.label("creation-refused")
                continue
            actor = cls(name=f"a{n}", **args)
            if args != shown:
                raise Violation(f"creating an actor changed its input {shown} to {args}")
            actors.append((actor, models, modes))
            ctx.label("created")
            for s, k in models:
                given = args.get(s)
                given = given.get(k) if k and isinstance(given, dict) else given
                res = getattr(actor, s) if k is None else getattr(actor, s)[k]
                if isinstance(given, SIM.Store | SIM.Container) and res is not given:
                    raise Violation(f"a{n}.{s} is not the resource it was given")
        if not actors:
            ctx.nontrivial()
            return

        def audit(what):
            seen: dict = {}
            for n, (actor, models, modes) in enumerate(actors):
                for (s, k), m in models.items():
                    where = f"{actor.name}.{s}" + (f"[{k}]" if k else "")
                    res = getattr(actor, s) if k is None else getattr(actor, s)[k]
                    m.compare(f"after {what}: {where}", res)
                    if id(res) in seen:
                        raise Violation(f"{where} and {seen[id(res)]} are one and the same resource")
                    seen[id(res)] = where
                for s in [s for s, _ in models if _ is not None]:
                    want = {k for t, k in models if t == s}
                    if set(getattr(actor, s).keys()) != want:
                        raise Violation(f"{actor.name}.{s} has keys {list(getattr(actor, s).keys())}")
                for s, want in modes.items():
                    # there is no public way to ask; the messages of C23 use them for real
                    where = getattr(actor._state_defs[s], "_modename", None)
                    got = actor.__dict__.get(where)
                    if got is not None and got != want:
                        raise Violation(f"{actor.name}.{s} has modes {got}, should be {want}")

        audit("creation")
        for o in c["ops"]:
            actor, models, modes = actors[o["a"] % len(actors)]
            if not models:
                continue
            s, k = sorted(models, key=str)[o["r"] % len(models)]
            res = getattr(actor, s) if k is None else getattr(actor, s)[k]
            m = models[s, k]
            if o["op"] in ("put", "get") and actor.name.count("CLONE") > 1:
                # these live in a mock environment, where requests cannot be made
                if not m.container and o["op"] == "put":
                    res.items.append(o["v"])
                    m.items.append(o["v"])
            elif o["op"] == "put":
                if m.put(o["v"]):
                    ctx.ensure(res.put(o["v"]).triggered, f"putting into {actor.name}.{s} has to wait")
                    ctx.label("put")
            elif o["op"] == "get":
                if m.get(o["v"]):
                    got = res.get(o["v"]) if m.container else res.get()
                    ctx.ensure(got.triggered, f"getting from {actor.name}.{s} has to wait")
                    ctx.label("got")
            elif o["op"] == "replace":
                for new in ({}, SIM.Store(env), SIM.Container(env)):
                    expect_raises(f"replacing {s}", UP.UpstageError, setattr, actor, s, new)
                ctx.label("replaced")
            elif o["op"] == "run":
                drain(env)
            elif len(actors) < 6:
                twin = actor.clone()
                copies = copy.deepcopy(models)
                for x in copies.values():
                    x.clone = True  # its own record starts empty
                actors.append((twin, copies, modes))
                ctx.label("clone-of-clone" if "CLONE" in actor.name else "cloned")
            audit(o)
        ctx.nontrivial()


PROP = Prop(
    "C09",
    rule="a declaration or creation was refused, or resources of at least one actor were built and used",
    parts=[Part("resources", case, check, quick=8000, thorough=250000)],
)
