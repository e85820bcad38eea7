"""C16: knowledge is a guarded dictionary; knowledge events wake their waiter once."""

from __future__ import annotations

from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st

NAMES = ["alpha", "beta", "gamma", "", "delta"]
END = 60.0


class Box:
    """A value with identity and no useful equality."""

    def __eq__(self, other: Any) -> bool:
        raise RuntimeError("values are not to be compared")

    __hash__ = None  # type: ignore[assignment]


BOXES = [Box(), Box()]
LISTS = [[1, 2], []]


def real_value(v: Any) -> Any:
    if isinstance(v, dict):
        if "box" in v:
            return BOXES[v["box"]]
        return LISTS[v["list"]]
    return v


VALUES = st.one_of(
    st.sampled_from(
        [None, 0, 0.0, "", False, True, 1, "x", {"box": 0}, {"box": 1}, {"list": 0}, {"list": 1}]
    ),
    st.integers(-3, 3),
)


def same_things(a: dict, b: dict) -> bool:
    return a.keys() == b.keys() and all(
        a[k] is b[k] or (type(a[k]) in (int, float, str, bool) and type(a[k]) is type(b[k]) and a[k] == b[k])
        for k in a
    )


# ---------------------------------------------------------------------------
# the dictionary
# ---------------------------------------------------------------------------


def store_case() -> st.SearchStrategy:
    name = st.sampled_from(NAMES)
    names = st.lists(name, max_size=4)
    op = st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("set"), "k": name, "v": VALUES, "over": st.sampled_from([False, False, True])}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("bulk_set"),
                "kv": st.lists(st.tuples(name, VALUES), max_size=4),
                "over": st.sampled_from([False, False, True]),
                "late": st.booleans(),
            }
        ),
        st.fixed_dictionaries({"op": st.sampled_from(["clear", "get_clear", "succeed"]), "k": name}),
        st.fixed_dictionaries({"op": st.just("get"), "k": name, "must": st.booleans()}),
        st.fixed_dictionaries(
            {"op": st.sampled_from(["bulk_clear", "bulk_get_clear"]), "ks": names, "gen": st.booleans()}
        ),
        st.fixed_dictionaries(
            {"op": st.just("bulk_get"), "ks": names, "must": st.booleans(), "gen": st.booleans()}
        ),
        st.fixed_dictionaries({"op": st.just("create"), "k": name}),
    )
    step = st.fixed_dictionaries({"a": st.integers(0, 2), "by_task": st.booleans(), "do": op})
    actor = st.fixed_dictionaries(
        {
            "init": st.one_of(st.none(), st.lists(st.tuples(name, VALUES), max_size=3)),
            "log": st.booleans(),
            "plain": st.booleans(),
        }
    )
    return st.fixed_dictionaries(
        {
            "actors": st.lists(actor, min_size=1, max_size=3),
            "same_init": st.booleans(),
            "steps": seqs(step, 30),
        }
    )


class Knower(UP.Actor):
    x = UP.State(default=0.0)


class Thinking(UP.Task):
    pass


def names_of(o: dict) -> Any:
    return (k for k in list(o["ks"])) if o["gen"] else list(o["ks"])


def peek(actor: Any, known: set[str]) -> dict:
    """Everything the actor knows, through its public methods."""
    out = {}
    for k in known:
        try:
            out[k] = actor.get_knowledge(k, must_exist=True)
        except UP.SimulationError:
            if actor.get_knowledge(k) is not None:
                raise Violation(f"{k!r} is refused as missing but has a value") from None
    return out


def store_check(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext():
        task = Thinking()
        actors, models = [], []
        shared: dict = {}
        for n, d in enumerate(c["actors"]):
            kw: dict[str, Any] = {"debug_log": d["log"]}
            model: dict = {}
            if d["init"] is not None:
                model = {k: real_value(v) for k, v in d["init"]}
                given = dict(model)
                if c["same_init"]:
                    if n == 0:
                        shared = given
                    given = shared
                    model = dict(given)
                kw["initial_knowledge"] = given
            actors.append((UP.Actor if d.get("plain") else Knower)(name=f"k{n}", **kw))
            models.append(model)
        every = set(NAMES)
        for n, s in enumerate(c["steps"]):
            a = s["a"] % len(actors)
            actor, model, o = actors[a], models[a], s["do"]
            before = dict(model)
            raised, got = False, None
            allowed: list[dict] | None = None
            by = s["by_task"]
            op = o["op"]
            want_raise = False
            want: Any = None
            k = o.get("k")
            if op == "set":
                want_raise = k in model and not o["over"]
                if not want_raise:
                    model[k] = real_value(o["v"])

                def go() -> Any:
                    f = task.set_actor_knowledge if by else actor.set_knowledge
                    return f(*([actor] if by else []), k, real_value(o["v"]), overwrite=o["over"])

            elif op == "bulk_set":
                kv = {x: real_value(v) for x, v in o["kv"]}
                at_fault = [x for x in kv if x in model] if not o["over"] else []
                want_raise = bool(at_fault)
                if want_raise:
                    # the entries before the one at fault may or may not have been set
                    allowed = [dict(model)]
                    for x, v in kv.items():
                        if x in at_fault:
                            break
                        allowed.append({**allowed[-1], x: v})
                else:
                    model.update(kv)

                def go() -> Any:
                    f = task.set_actor_bulk_knowledge if by else actor.set_bulk_knowledge
                    given = dict(kv)
                    r = f(*([actor] if by else []), given, overwrite=o["over"])
                    if o["late"]:
                        given["late"] = 1
                        given.pop(next(iter(given)))
                    return r

            elif op in ("clear", "get_clear"):
                want_raise = k not in model
                if not want_raise:
                    v = model.pop(k)
                    want = v if op == "get_clear" else None

                def go() -> Any:
                    if op == "clear":
                        f = task.clear_actor_knowledge if by else actor.clear_knowledge
                    else:
                        f = task.get_and_clear_actor_knowledge if by else actor.get_and_clear_knowledge
                    return f(*([actor] if by else []), k)

            elif op == "get":
                want_raise = o["must"] and k not in model
                want = model.get(k)

                def go() -> Any:
                    f = task.get_actor_knowledge if by else actor.get_knowledge
                    return f(*([actor] if by else []), k, must_exist=o["must"])

            elif op == "bulk_get":
                want_raise = o["must"] and any(x not in model for x in o["ks"])
                want = {x: model.get(x) for x in o["ks"]}

                def go() -> Any:
                    f = task.get_actor_bulk_knowledge if by else actor.get_bulk_knowledge
                    r = f(*([actor] if by else []), names_of(o), must_exist=o["must"])
                    copy = dict(r)
                    r["late"] = 1
                    return copy

            elif op in ("bulk_clear", "bulk_get_clear"):
                m = dict(model)
                allowed = [dict(m)]
                want = {}
                for x in o["ks"]:
                    if x not in m:
                        want_raise = True
                        break
                    want[x] = m.pop(x)
                    allowed.append(dict(m))
                if not want_raise:
                    models[a] = model = m
                    allowed = None
                if op == "bulk_clear":
                    want = None

                def go() -> Any:
                    if op == "bulk_clear":
                        f = task.clear_actor_bulk_knowledge if by else actor.clear_bulk_knowledge
                    else:
                        f = (
                            task.get_and_clear_actor_bulk_knowledge
                            if by
                            else actor.get_and_clear_bulk_knowledge
                        )
                    return f(*([actor] if by else []), names_of(o))

            elif op == "create":
                want_raise = k in model

                def go() -> Any:
                    e = actor.create_knowledge_event(name=k)
                    model[k] = e
                    return None

            else:  # succeed
                e = model.get(k)
                want_raise = not isinstance(e, UP.Event)
                if not want_raise:
                    del model[k]

                def go() -> Any:
                    actor.succeed_knowledge_event(name=k, n=n)
                    if e.get_payload() != {"n": n}:
                        raise Violation(f"payload of the event is {e.get_payload()}")
                    return None

            try:
                got = go()
            except UP.SimulationError:
                raised = True
            if raised != want_raise:
                raise Violation(
                    f"step {n} {o}: {'refused' if raised else 'accepted'} with {sorted(before)} known"
                )
            if raised:
                ctx.label("refused")
            elif isinstance(want, dict) and want is not real_value(o.get("v")) and op.startswith("bulk"):
                if not isinstance(got, dict) or not same_things(got, want):
                    raise Violation(f"step {n} {o}: returned {got!r}, should be {want!r}")
            elif not same_things({"v": got}, {"v": want}):
                raise Violation(f"step {n} {o}: returned {got!r}, should be {want!r}")
            now = peek(actor, every | {"late"})
            if raised and allowed is not None:
                if not any(same_things(now, m) for m in allowed):
                    raise Violation(f"step {n} {o}: refused, but {sorted(before)} became {sorted(now)}")
                model.clear()
                model.update(now)
                if len(allowed) > 1:
                    ctx.label("bulk refused part way")
            for b, (x, m) in enumerate(zip(actors, models)):
                if not same_things(peek(x, every | {"late"}), m):
                    raise Violation(
                        f"step {n} {o} on actor {a}: actor {b} knows {peek(x, every)!r}, should be {m!r}"
                    )
            ctx.label(op)
        if sum(1 for s in c["steps"] if s["do"]["op"] not in ("get", "bulk_get")) >= 3:
            ctx.nontrivial()


# ---------------------------------------------------------------------------
# the events
# ---------------------------------------------------------------------------

ENAMES = ["hold", "go"]


def event_case() -> st.SearchStrategy:
    k = st.integers(0, 1)
    a = st.integers(0, 1)
    step = st.one_of(
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0])}),
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(
                    [
                        "create",
                        "create_hold",
                        "create_hold",
                        "create_hold",
                        "hold",
                        "hold_own",
                        "succeed",
                        "clear",
                    ]
                ),
                "a": a,
                "k": k,
            }
        ),
        st.fixed_dictionaries({"op": st.just("over"), "a": a, "k": k}),
    )
    out = st.one_of(
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 0.5, 0.5, 1.0, 1.0, 2.0])}),
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(
                    ["succeed", "succeed", "succeed", "succeed", "clear", "over", "create"]
                ),
                "a": a,
                "k": k,
            }
        ),
        st.fixed_dictionaries(
            {"op": st.sampled_from(["int", "wake", "wake", "wake"]), "i": st.integers(0, 3)}
        ),
    )
    return st.fixed_dictionaries(
        {
            "tasks": st.lists(
                st.fixed_dictionaries({"a": a, "steps": seqs(step, 10), "again": st.booleans()}),
                min_size=1,
                max_size=4,
            ),
            "outside": seqs(out, 24, 3),
            "n": st.integers(1, 2),
        }
    )


class Nope(Exception):
    pass


class MEvent:
    def __init__(self, env: SIM.Environment):
        self.env = env
        self.ev = SIM.Event(env)
        self.payload: dict = {}


class Model:
    def __init__(self, env: SIM.Environment, c: dict):
        self.env = env
        self.know: list[dict] = [{} for _ in range(c["n"])]

    def create(self, a: int, name: str) -> MEvent:
        if name in self.know[a]:
            raise Nope
        self.know[a][name] = MEvent(self.env)
        return self.know[a][name]

    def get(self, a: int, name: str) -> Any:
        return self.know[a].get(name)

    def is_event(self, e: Any) -> bool:
        return isinstance(e, MEvent)

    def succeed(self, a: int, name: str, payload: dict) -> None:
        e = self.know[a].get(name)
        if not isinstance(e, MEvent):
            raise Nope
        del self.know[a][name]
        e.payload = payload
        e.ev.succeed()

    def clear(self, a: int, name: str) -> None:
        if name not in self.know[a]:
            raise Nope
        del self.know[a][name]

    def over(self, a: int, name: str, v: Any) -> None:
        self.know[a][name] = v

    def payload(self, e: MEvent) -> dict:
        return e.payload

    def seen(self) -> list:
        return [
            {k: ("event" if isinstance(v, MEvent) else v) for k, v in sorted(m.items())} for m in self.know
        ]

    def start(self, i: int, a: int, prog: Any, again: bool) -> SIM.Process:
        return self.env.process(self._run(a, prog, again))

    def _run(self, a: int, prog: Any, again: bool) -> Generator:
        gen = prog()
        while True:
            try:
                e = next(gen)
            except StopIteration:
                return
            try:
                if isinstance(e, float):
                    yield self.env.timeout(e)
                else:
                    if e.ev.processed:
                        e.ev = SIM.Event(self.env)
                    yield e.ev
            except SIM.Interrupt:
                if not isinstance(e, float):
                    for k in [k for k, v in self.know[a].items() if v is e]:
                        del self.know[a][k]
                gen.close()
                if not again:
                    return
                again = False
                gen = prog()


class Real:
    def __init__(self, env: SIM.Environment, c: dict):
        self.env = env
        self.actors = [Knower(name=f"k{n}") for n in range(c["n"])]

    def create(self, a: int, name: str) -> Any:
        try:
            return self.actors[a].create_knowledge_event(name=name)
        except UP.SimulationError as e:
            raise Nope from e

    def get(self, a: int, name: str) -> Any:
        return self.actors[a].get_knowledge(name)

    def is_event(self, e: Any) -> bool:
        return isinstance(e, UP.Event)

    def succeed(self, a: int, name: str, payload: dict) -> None:
        try:
            self.actors[a].succeed_knowledge_event(name=name, **payload)
        except UP.SimulationError as e:
            raise Nope from e

    def clear(self, a: int, name: str) -> None:
        try:
            self.actors[a].clear_knowledge(name)
        except UP.SimulationError as e:
            raise Nope from e

    def over(self, a: int, name: str, v: Any) -> None:
        self.actors[a].set_knowledge(name, v, overwrite=True)

    def payload(self, e: Any) -> dict:
        return e.get_payload()

    def seen(self) -> list:
        out = []
        for x in self.actors:
            d = peek(x, set(ENAMES))
            out.append({k: ("event" if isinstance(v, UP.Event) else v) for k, v in sorted(d.items())})
        return out

    def start(self, i: int, a: int, prog: Any, again: bool) -> SIM.Process:
        class Work(UP.Task):
            left = again

            def task(self, *, actor):
                for e in prog():
                    yield UP.Wait(e) if isinstance(e, float) else e

            def on_interrupt(self, *, actor, cause):
                if self.left:
                    self.left = False
                    return self.INTERRUPT.RESTART
                return self.INTERRUPT.END

        return Work().run(actor=self.actors[a])


def run(c: dict, plain: bool, ctx: Ctx | None = None) -> list:
    log: list = []

    def go(env: SIM.Environment) -> None:
        api = (Model if plain else Real)(env, c)
        holding: dict[int, Any] = {}
        numbers = iter(range(10_000))

        def act(who: int, o: dict) -> None:
            a, name = o["a"] % c["n"], ENAMES[o["k"]]
            n = next(numbers)
            try:
                if o["op"] == "succeed":
                    api.succeed(a, name, [{}, {"data": n}, {"x": None, "data": n}][n % 3])
                elif o["op"] == "clear":
                    api.clear(a, name)
                elif o["op"] == "over":
                    api.over(a, name, n)
                elif o["op"] == "create":
                    api.create(a, name)
                log.append([env.now, who, o["op"], a, name, api.seen()])
            except Nope:
                log.append([env.now, who, "refused", o["op"], a, name, api.seen()])

        def program(i: int, steps: list, home: int) -> Generator:
            own: dict = {}
            for n, o in enumerate(steps):
                if o["op"] == "wait":
                    yield float(o["t"])
                    continue
                # an event may be created and held on by tasks of another actor
                a = o["a"] % c["n"]
                name = ENAMES[o["k"]]
                e = None
                if o["op"] in ("create", "create_hold"):
                    try:
                        e = own[a, name] = api.create(a, name)
                    except Nope:
                        log.append([env.now, i, "refused", n])
                        e = api.get(a, name)
                        if not api.is_event(e):
                            continue
                    if o["op"] == "create":
                        continue
                elif o["op"] == "hold":
                    e = api.get(a, name)
                    if not api.is_event(e):
                        continue
                elif o["op"] == "hold_own":
                    e = own.get((a, name))
                    if e is None:
                        continue
                else:
                    act(i, o)
                    continue
                holding[i] = (a == home, e)
                log.append([env.now, i, "holds", n, api.seen()])
                yield e
                del holding[i]
                log.append([env.now, i, "resumed", n, api.payload(e), api.seen()])

        procs = []
        for i, t in enumerate(c["tasks"]):
            home = t["a"] % c["n"]
            procs.append(
                api.start(i, home, lambda i=i, t=t, home=home: program(i, t["steps"], home), t["again"])
            )

        def outside() -> Generator:
            for o in c["outside"]:
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                elif o["op"] == "wake":
                    # succeed something that a task is holding on
                    h = holding.get(o["i"] % len(procs))
                    for a in range(c["n"]):
                        for k, name in enumerate(ENAMES):
                            if h is not None and api.get(a, name) is h[1]:
                                act(-1, {"op": "succeed", "a": a, "k": k})
                elif o["op"] == "int":
                    i = o["i"] % len(procs)
                    h = holding.get(i)
                    # what others that hold on the same event see when one of them
                    # is interrupted, or an event of another actor, is not specified
                    if h is not None and (not h[0] or sum(1 for x in holding.values() if x[1] is h[1]) > 1):
                        continue
                    if procs[i].is_alive:
                        log.append([env.now, "int", i])
                        holding.pop(i, None)
                        procs[i].interrupt()
                        # lands before anything else happens now
                        yield env.timeout(0.0)
                        log.append([env.now, "after", api.seen()])
                else:
                    act(-1, o)
            yield env.timeout(5.0)
            log.append(["last", api.seen(), sorted(holding)])

        env.process(outside())
        drain(env, END)

    if plain:
        go(SIM.Environment())
    else:
        with UP.EnvironmentContext() as env:
            go(env)
    return log


def event_check(c: dict, ctx: Ctx) -> None:
    want = run(c, True)
    got = run(c, False)
    for n, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation(f"entry {n}: got {b!r}, should be {a!r}")
    if len(want) != len(got):
        raise Violation(
            f"{len(got)} entries, should be {len(want)}; next is {(want + got)[min(len(want), len(got))]!r}"
        )
    resumed = 0
    for x in want:
        if x[1] == "int":
            ctx.label("interrupted")
        elif x[2:3] == ["resumed"]:
            resumed += 1
            ctx.label("resumed")
        elif x[2:3] == ["refused"]:
            ctx.label("refused")
    if resumed:
        ctx.nontrivial()


PROP = Prop(
    "C16",
    rule="store: at least three changes asked for; events: at least one task was resumed by a knowledge event",
    parts=[
        Part("store", store_case, store_check, quick=5000, thorough=150000),
        Part("events", event_case, event_check, quick=7000, thorough=200000),
    ],
)
