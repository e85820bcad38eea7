"""C19: a sorted filter store always hands out the best matching item."""

from __future__ import annotations

from typing import Any, Generator

from simpy.resources.base import BoundClass
from simpy.resources.base import Get as SimpyGet

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st


class Odd:
    """Falsy, never equal to anything (not even itself), not hashable."""

    __hash__ = None  # type: ignore[assignment]

    def __init__(self, key: Any):
        self.key = key

    def __bool__(self) -> bool:
        return False

    def __eq__(self, other: Any) -> bool:
        return False

    def __repr__(self) -> str:
        return f"Odd({self.key})"


class Same:
    """Equal to every other one."""

    def __init__(self, key: Any):
        self.key = key

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Same)

    def __hash__(self) -> int:
        return 1

    def __repr__(self) -> str:
        return f"Same({self.key})"


class NoEq(Same):
    def __eq__(self, other: Any) -> bool:
        raise RuntimeError("items are not to be compared")

    __hash__ = None  # type: ignore[assignment]

    def __repr__(self) -> str:
        return f"NoEq({self.key})"


def make_item(spec: list) -> Any:
    kind, key = spec
    if kind == "num":
        return [0, 0.0, False, 1, 1.0, True, -1, 2][key % 8]
    if kind == "seq":
        return [[], (), "", {}, [1], (1,), "b", [0]][key % 8]
    if kind == "none":
        return None
    return {"odd": Odd, "same": Same, "noeq": NoEq}[kind](key)


def key_of(item: Any) -> int:
    if hasattr(item, "key"):
        return item.key
    if item is None:
        return 3
    if isinstance(item, (int, float)):
        return int(item)
    return len(item)


FILTERS = {
    "none": None,
    "all": lambda x: True,
    "low": lambda x: key_of(x) <= 1,
    "odd": lambda x: key_of(x) % 2 == 1,
    "two": lambda x: key_of(x) == 2,
    "nothing": lambda x: False,
    # a filter may answer with anything that counts as true
    "truthy": lambda x: [1] if key_of(x) > 0 else [],
}
SORTERS = {
    "none": None,
    "key": key_of,
    "minus": lambda x: -key_of(x),
    "pair": lambda x: (key_of(x) % 2, -key_of(x)),
    "flat": lambda x: 0,
    "flat2": lambda x: (),
    "text": lambda x: str(key_of(x)),
}


class RefGet(SimpyGet):
    def __init__(self, resource: Any, filter: Any = None, sorter: Any = None, reverse: bool = False):
        self.filter, self.sorter, self.reverse = filter, sorter, reverse
        super().__init__(resource)


class RefStore(SIM.Store):
    """An ordinary store with the selection written out."""

    get = BoundClass(RefGet)

    def _do_get(self, event: RefGet) -> bool:
        good = [i for i, x in enumerate(self.items) if event.filter is None or event.filter(x)]
        if good:
            if event.sorter is not None:
                keys = [event.sorter(self.items[i]) for i in good]
                best = max(keys) if event.reverse else min(keys)
                good = [i for i, k in zip(good, keys) if k == best]
            event.succeed(self.items.pop(good[0]))
        return True


def case() -> st.SearchStrategy:
    item = st.tuples(
        st.sampled_from(["num", "num", "seq", "none", "odd", "same", "noeq"]), st.integers(0, 7)
    ).map(list)
    get = st.fixed_dictionaries(
        {
            "op": st.just("get"),
            "f": st.sampled_from(sorted(FILTERS)),
            "s": st.sampled_from(sorted(SORTERS)),
            "rev": st.sampled_from([None, False, True]),
            "how": st.sampled_from(["simpy", "simpy", "task", "get"]),
        }
    )
    op = st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("put"), "x": item, "task": st.sampled_from([False, False, True])}
        ),
        st.fixed_dictionaries({"op": st.just("put"), "x": item, "task": st.just(False)}),
        get,
        get,
        st.fixed_dictionaries({"op": st.just("cancel"), "n": st.integers(0, 5)}),
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 1.0])}),
    )
    return st.fixed_dictionaries(
        {
            "cap": st.sampled_from([1, 2, 3, 100, 100]),
            "init": st.lists(item, max_size=4),
            "monitored": st.booleans(),
            "ops": seqs(op, 30, 2),
        }
    )


class Numbers:
    """Names items by identity, not by value."""

    def __init__(self) -> None:
        self.made: list[Any] = []
        self.where: dict[int, list[int]] = {}

    def new(self, spec: list) -> Any:
        x = make_item(spec)
        self.made.append(x)
        self.where.setdefault(id(x), []).append(len(self.made) - 1)
        return x

    def name(self, x: Any) -> Any:
        # small values are shared, so their name is their value and type
        if x is None or isinstance(x, (int, float, str, tuple)):
            return [type(x).__name__, repr(x)]
        return self.where.get(id(x), ["unknown"])


def run(c: dict, plain: bool) -> list:
    log: list = []

    def go(env: SIM.Environment) -> None:
        names = Numbers()
        if plain:
            store: Any = RefStore(env, capacity=c["cap"])
        elif c["monitored"]:
            store = UP.SelfMonitoringSortedFilterStore(env, capacity=c["cap"], name="s")
        else:
            store = UP.SortedFilterStore(env, capacity=c["cap"])
        gets: list[Any] = []
        waiting: list[dict] = []
        actor = None if plain else UP.Actor(name="a")

        def note(*what: Any) -> None:
            log.append([env.now, *what])

        def got(n: int, v: Any) -> None:
            note("got", n, names.name(v))
            f = FILTERS[c["ops"][n]["f"]]
            if f is not None and not f(v):
                raise Violation(f"get {n} was given {v!r}, which does not pass its filter")

        def put(n: int, x: Any, task: bool) -> None:
            if task and not plain:

                class P(UP.Task):
                    def task(self, *, actor):
                        yield UP.Put(store, x)
                        note("put", n)

                P().run(actor=actor)
            elif task:

                def p() -> Generator:
                    yield store.put(x)
                    note("put", n)

                env.process(p())
            else:
                store.put(x).callbacks.append(lambda e: note("put", n))

        def get(n: int, o: dict) -> None:
            kw: dict[str, Any] = {}
            if FILTERS[o["f"]] is not None:
                kw["filter"] = FILTERS[o["f"]]
            if SORTERS[o["s"]] is not None:
                kw["sorter"] = SORTERS[o["s"]]
            if o["rev"] is not None:
                kw["reverse"] = o["rev"]
            if o["how"] == "simpy":
                e = store.get(**kw)
                e.callbacks.append(lambda e: got(n, e.value))
                gets.append(e)
            elif plain:

                def p() -> Generator:
                    v = yield store.get(**kw)
                    got(n, v)

                env.process(p())
            else:

                class G(UP.Task):
                    def task(self, *, actor):
                        e = UP.SortedFilterGet(store, **kw) if o["how"] == "task" else UP.Get(store, **kw)
                        v = yield e
                        if v is not e.get_value():
                            raise Violation("the value of a get is not what it gave")
                        got(n, v)

                G().run(actor=actor)

        def outside() -> Generator:
            for n, x in enumerate(c["init"]):
                put(-1 - n, names.new(x), False)
            yield env.timeout(0.0)
            for n, o in enumerate(c["ops"]):
                if o["op"] == "put":
                    put(n, names.new(o["x"]), o["task"])
                elif o["op"] == "get":
                    get(n, o)
                elif o["op"] == "cancel":
                    open_ = [g for g in gets if not g.triggered and g in store.get_queue]
                    if open_:
                        open_[o["n"] % len(open_)].cancel()
                        note("cancel", n)
                else:
                    yield env.timeout(o["t"])
                    # settled: at the end of an instant nothing waits that could be served
                    if o["t"]:
                        look()
            yield env.timeout(1.0)
            look()

        def look() -> None:
            note(
                "store",
                [names.name(x) for x in store.items],
                [names.name(p.item) for p in store.put_queue],
                len(store.get_queue),
            )
            if plain:
                return
            if len(store.items) > c["cap"]:
                raise Violation(f"{len(store.items)} items in a store for {c['cap']}")
            if store.put_queue and len(store.items) < c["cap"]:
                raise Violation("a put waits though there is room")
            for g in store.get_queue:
                if any(g.filter(x) for x in store.items):
                    raise Violation("a get waits though an item passes its filter")

        env.process(outside())
        drain(env)

    if plain:
        go(SIM.Environment())
    else:
        with UP.EnvironmentContext() as env:
            go(env)
    return log


def check(c: dict, ctx: Ctx) -> None:
    want = run(c, True)
    got = run(c, False)
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation(f"entry {i} of the run is {b!r}, should be {a!r}")
    if len(want) != len(got):
        raise Violation(
            f"{len(got)} entries, should be {len(want)}; next is {(want + got)[min(len(want), len(got))]!r}"
        )
    for x in want:
        if x[1] == "got":
            o = c["ops"][x[2]]
            ctx.label("sorted" if o["s"] != "none" else "filtered" if o["f"] != "none" else "any")
            ctx.nontrivial(o["s"] != "none")
        if x[1] == "store" and x[3]:
            ctx.label("full")
        if x[1] == "store" and x[4]:
            ctx.label("gets wait")


PROP = Prop(
    "C19",
    rule="at least one get with an ordering was served",
    parts=[Part("selection", case, check, quick=14000, thorough=250000)],
)
