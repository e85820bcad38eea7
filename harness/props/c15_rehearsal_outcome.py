"""C15: a rehearsal shows what really performing the tasks will bring about."""

from __future__ import annotations

import functools
from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.props.c14_rehearsal_isolation import Data, Hero, freeze
from harness.util import SIM, UP, Violation, close, drain, seqs, st

N_TASKS = 3
PATH_LIMIT = 10
NAMES = ["alpha", "beta", "gamma"]
OWN = ["own0", "own1"]  # knowledge events that the task succeeds itself
FLOWS = ["lin1", "share"]
LOOK = ["n", "quiet", "tagged", "bag", "late", "lin1", "lin2", "share", "loc", "inv", "data", "seen"]
REFUSED = (UP.SimulationError, UP.UpstageError)


class TooLong(Exception):
    pass


def near(a: Any, b: Any) -> bool:
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, 1e-9, 1e-9)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return bool(a == b)


def view(actor: Any) -> dict:
    return {
        **{s: freeze(getattr(actor, s)) for s in LOOK},
        "knowledge": {k: freeze(actor.get_knowledge(k)) for k in NAMES if actor.get_knowledge(k) is not None},
        "own": [k for k in OWN if actor.get_knowledge(k) is not None],
    }


class Chore(UP.Routine):
    def __init__(self, w: Any, actor: Any, o: dict) -> None:
        super().__init__()
        self.w, self.actor, self.o = w, actor, o

    def run(self) -> Generator:
        self.actor.quiet += 1
        yield UP.Wait(self.o["t"])
        self.w.note(self.actor, "routine", self.env.now)
        if self.o["take"]:
            get = self.w.leaf(self.actor, {"k": "get", "b": self.o["b"], "v": 0})
            yield UP.Any(get, UP.Wait(1.0))
            self.w.note(self.actor, "routine", self.env.now, get.is_complete())
            if not get.is_complete():
                get.cancel()
            return get.is_complete()

    def cancel(self) -> Generator:
        return
        yield


class Errand(UP.Routine):
    """A routine that says itself how it is rehearsed."""

    def __init__(self, w: Any, actor: Any, o: dict) -> None:
        super().__init__()
        self.w, self.actor, self.o = w, actor, o

    def run(self) -> Generator:
        for e in self.o["es"]:
            if isinstance(e, str):
                yield self.w.at_once(self.actor, e)
            else:
                yield self.w.leaf(self.actor, e)
        return len(self.o["es"])

    def cancel(self) -> Generator:
        return
        yield

    def rehearse(self) -> tuple:
        t, _ = super().rehearse()
        return t, len(self.o["es"])


class Worker(UP.Task):
    W: Any
    k: int

    def task(self, *, actor: Any) -> Generator:
        w = self.W
        if w.begin(actor, f"T{self.k}"):
            yield UP.Event()
        slots: list = []
        for o in w.case["tasks"][self.k]:
            if o["op"] == "do":
                w.act(actor, o, self)
            elif o["op"] == "wait":
                yield UP.Wait(o["t"], timeout_unit=o["u"])
            elif o["op"] == "join":
                yield from self.join(actor, o, slots)
            elif o["op"] == "again":
                yield from self.again(actor, o, slots)
            elif o["op"] == "quick":
                yield from self.quick(actor, o)
            elif o["op"] == "errand":
                res = yield Errand(w, actor, o)
                w.note(actor, "errand gave", res)
            elif o["op"] == "window":
                # one thing comes, and no time is left for more
                kw = {} if o["t"] is None else {"rehearsal_time_to_complete": o["t"]}
                store = SIM.Store(w.env)
                if o["t"] is None:
                    store.items.append("thing")
                elif w.real and not w.deep:
                    w.later(o["t"], lambda store=store: store.put("thing"))
                res = yield UP.WindowedGet(store, 0.0, get_kwargs=kw)
                w.note(actor, "window gave", len(res))
            elif o["op"] == "routine":
                res = yield Chore(w, actor, o)
                w.note(actor, "routine gave", freeze(res))
            elif o["op"] == "rehearse" and not w.deep:
                w.deep = True
                try:
                    w.classes[f"T{o['k']}"]().rehearse(actor=actor)
                except REFUSED:
                    pass
                finally:
                    w.deep = False
            w.note(actor, o["op"], self.env.now, actor.env.now, view(actor))
        if w.case["mode"] == "tasks":
            # what is active does not go to an understudy's understudy
            actor.deactivate_all_states(task=self)
        w.note(actor, "end", self.k, self.get_marker(), self.get_marker_time())

    def join(self, actor: Any, o: dict, slots: list) -> Generator:
        made: list = []
        e = self.build(actor, o["e"], made)
        yield e
        yield from self.after(actor, o["cancel"], made, slots, o["keep"])

    def again(self, actor: Any, o: dict, slots: list) -> Generator:
        """Wait for some of the things waited for before, and new ones."""
        made: list = []
        for x in sorted({x % len(slots) for x in o["slots"]} if slots else []):
            made.append(slots[x])
            self.W.resupply(actor, slots[x])
        old = len(made)
        made.extend(self.W.leaf(actor, x) for x in o["new"])
        if not made:
            return
        yield (UP.All if o["all"] else UP.Any)(*made)
        self.W.note(actor, "again", [m.is_complete() for m in made[:old]])
        yield from self.after(actor, False, made, slots, False)

    def quick(self, actor: Any, o: dict) -> Generator:
        """Wait for what is there already: it takes no time, and none was declared."""
        made = [self.W.at_once(actor, k) for k in o["es"]]
        slow = [] if o["slow"] is None else [self.W.leaf(actor, o["slow"])]
        if len(made) == 1 and not slow:
            yield made[0]
        else:
            yield (UP.All if o["all"] else UP.Any)(*slow, *made)
        yield from self.after(actor, True, [*slow, *made], [], False)

    def build(self, actor: Any, e: dict, made: list, inside: bool = False) -> Any:
        if e["k"] in ("any", "all"):
            inner = [self.build(actor, i, made, inside or e["k"] == "any") for i in e["in"]]
            x: Any = (UP.Any if e["k"] == "any" else UP.All)(*inner)
            if inside:
                return x  # the rest of an any that is done is not looked at any more
        else:
            x = self.W.leaf(actor, e)
        made.append(x)
        return x

    def after(self, actor: Any, cancel: bool, made: list, slots: list, keep: bool) -> Generator:
        done = [m.is_complete() for m in made]
        self.W.note(actor, "joined", self.env.now, done)
        for m, d in zip(made, done):
            if isinstance(m, UP.ResourceHold):
                if d:
                    yield m
                else:
                    m.cancel()
            elif hasattr(m, "events"):
                continue
            elif cancel and not d:
                m.cancel()
                self.W.cancelled.add(m)
            elif keep and m not in slots:
                slots.append(m)


class Chooser(UP.DecisionTask):
    W: Any

    def make_decision(self, *, actor: Any) -> None:
        if self.W.begin(actor, "D"):
            raise TooLong
        for o in self.W.case["decision"]:
            self.W.act(actor, o, self)

    def rehearse_decision(self, *, actor: Any) -> None:
        self.make_decision(actor=actor)


class Final(UP.TerminalTask):
    W: Any

    def task(self, *, actor: Any) -> Generator:
        if self.W.real:
            self.W.finish(actor)
            yield UP.Event()
        yield from super().task(actor=actor)


class World:
    def __init__(self, case: dict, env: SIM.Environment, real: bool) -> None:
        self.case, self.env, self.real = case, env, real
        setattr(env, "FACTOR", 3)
        self.notes: list = []
        self.path: list = []
        self.made = 0
        self.deep = False  # in a rehearsal made by a task
        self.outcome: dict | None = None
        self.end = ""
        self.listed = 0
        self.stop_at: str | None = None
        self.declared: dict = {}
        self.cancelled: set = set()
        self.classes: dict[str, type] = {
            f"T{k}": type(f"T{k}", (Worker,), {"W": self, "k": k}) for k in range(N_TASKS)
        }
        self.classes["D"] = type("D", (Chooser,), {"W": self, "DO_NOT_HOLD": case["skip"]})
        self.classes["END"] = type("END", (Final,), {"W": self})
        self.links = links(case)
        self.actor = Hero(
            name="hero",
            fixed=0,
            loc=UP.CartesianLocation(0.0, 1.0),
            inv={"a": 0},
            data=Data(),
            shelf={"low": {}},
            lin1=case["lin1"],
        )
        self.actor.add_task_network(UP.TaskNetwork("main", self.classes, self.links))
        self.idle = UP.Task()

    def note(self, actor: Any, *what: Any) -> None:
        if not self.deep:
            self.notes.append(list(what))

    def begin(self, actor: Any, name: str) -> bool:
        """A task starts. Says whether to stop here (for real)."""
        if self.deep:
            return False
        if self.real and (name == self.stop_at or len(self.path) >= PATH_LIMIT):
            if name == self.stop_at:
                self.finish(actor)
            else:
                self.end = "too long"
            return True
        if len(self.path) >= PATH_LIMIT:
            raise TooLong
        self.path.append(name)
        self.note(actor, "begin", name, actor.env.now, view(actor))
        return False

    def finish(self, actor: Any) -> None:
        if self.outcome is None:
            self.end = "ended"
            self.outcome = self.result(actor)

    def result(self, actor: Any) -> dict:
        return {
            "time": actor.env.now,
            **view(actor),
            "histories": {k: [[t, freeze(v)] for t, v in h] for k, h in actor._state_histories.items()},
            "queue": list(actor.get_task_queue("main")),
            "said": [x for _, x in actor.get_log() if "says" in x],
        }

    # -- what is waited for ---------------------------------------------------

    def leaf(self, actor: Any, e: dict) -> Any:
        """An event that takes the time it declares."""
        if not self.deep:
            self.made += 1
        n = self.made
        # no two things happen at the same moment
        t = e["b"] * 0.25 + (n * 0.6180339887498949) % 1.0 * 0.1 + 1e-4
        k, env = e["k"], self.env
        really = self.real and not self.deep
        if k == "wait":
            return UP.Wait(t) if e["v"] % 2 else UP.Wait(0.5 * t, rehearsal_time_to_complete=0.5 * t)
        if k == "get":
            store = SIM.Store(env)
            x: Any = UP.Get(store, rehearsal_time_to_complete=t)
            supply: Any = lambda: store.put("thing")  # noqa: E731
        elif k == "filter":
            some = SIM.FilterStore(env)
            some.items.append("other")
            x = UP.FilterGet(some, lambda v: v == "thing", rehearsal_time_to_complete=t)
            supply = lambda: some.put("thing")  # noqa: E731
        elif k == "put":
            full = SIM.Store(env, 1)
            full.items.append("old")
            x = UP.Put(full, "new", rehearsal_time_to_complete=t)
            supply = full.get
        elif k == "drink":
            tank = SIM.Container(env, 10)
            x = UP.Get(tank, 2, rehearsal_time_to_complete=t)
            supply = lambda: tank.put(3)  # noqa: E731
        elif k == "fill":
            tank = SIM.Container(env, 10, 10)
            x = UP.Put(tank, 2, rehearsal_time_to_complete=t)
            supply = lambda: tank.get(3)  # noqa: E731
        elif k == "hold":
            desk = SIM.Resource(env, 1)
            x = UP.ResourceHold(desk, rehearsal_time_to_complete=t)
            if really:
                other = desk.request()
                supply = lambda: desk.release(other)  # noqa: E731
        elif k == "event":
            x = UP.Event(rehearsal_time_to_complete=t)
            self.declared[x] = (t, None)
            supply = lambda: x in self.cancelled or x.succeed()  # noqa: E731
        else:
            name = f"wait{n}"
            x = actor.create_knowledge_event(name=name, rehearsal_time_to_complete=t)
            self.declared[x] = (t, name)

            def supply() -> None:
                if actor.get_knowledge(name) is x and x not in self.cancelled:
                    actor.succeed_knowledge_event(name=name)

        if really:
            self.later(t, supply)
        return x

    def at_once(self, actor: Any, k: str) -> Any:
        """An event that happens right away, with nothing said about its time."""
        env = self.env
        really = self.real and not self.deep
        if k in ("get", "filter", "sorted"):
            kind: Any = {"get": SIM.Store, "filter": SIM.FilterStore, "sorted": UP.SortedFilterStore}[k]
            store = kind(env)
            store.items.append("thing")
            if k == "sorted":
                return UP.SortedFilterGet(store, lambda v: v == "thing")
            return UP.Get(store) if k == "get" else UP.FilterGet(store, lambda v: v == "thing")
        if k == "put":
            return UP.Put(SIM.Store(env), "new")
        if k in ("drink", "fill"):
            tank = SIM.Container(env, 10, 5)
            return UP.Get(tank, 2) if k == "drink" else UP.Put(tank, 2)
        if k == "hold":
            return UP.ResourceHold(SIM.Resource(env, 1))
        if k == "wait":
            return UP.Wait(0.0)
        if k == "event":
            x = UP.Event()
            if really:
                x.succeed()
            return x
        if not self.deep:
            self.made += 1
        name = f"now{self.made}"
        x = actor.create_knowledge_event(name=name)
        if really:
            actor.succeed_knowledge_event(name=name)
        return x

    def later(self, t: float, what: Any) -> None:
        def wait() -> Generator:
            yield self.env.timeout(t)
            what()

        self.env.process(wait())

    def resupply(self, actor: Any, x: Any) -> None:
        """Events that happened reset themselves when they are waited for again."""
        if self.real and not self.deep and isinstance(x, UP.Event) and x.is_complete():
            self.later(self.declared[x][0], lambda: x in self.cancelled or x.succeed())

    # -- what takes no time ---------------------------------------------------

    def act(self, actor: Any, o: dict, task: Any) -> None:
        try:
            getattr(self, "act_" + o["act"])(actor, o["s"], o["v"], task)
        except REFUSED as e:
            self.note(actor, "refused", o["act"], type(e).__name__)

    def act_set(self, actor: Any, s: int, v: int, task: Any) -> None:
        setattr(actor, ["n", "quiet", "tagged", "late"][s % 4], v)

    def act_add(self, actor: Any, s: int, v: int, task: Any) -> None:
        # what a user keeps with the environment is there in a rehearsal
        actor.n += v * task.env.FACTOR
        actor.lin1 += 1.0

    def act_stamp(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.tagged = task.env.now

    def act_append(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.bag.append(v)
        if s % 2:
            actor.bag = [*actor.bag]

    def act_on(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.activate_linear_state(state=FLOWS[s % 2], rate=v - 1.5, task=task)

    def act_off(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.deactivate_state(state=FLOWS[s % 2], task=task)

    def act_go(self, actor: Any, s: int, v: int, task: Any) -> None:
        way = [UP.CartesianLocation(100.0 * v + 50.0, 0.0), UP.CartesianLocation(1200.0, 10.0 * s)]
        actor.activate_location_state(state="loc", speed=1.0 + s % 3, waypoints=way, task=task)

    def act_halt(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.deactivate_state(state="loc", task=task)

    def act_stop(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.deactivate_all_states(task=task)

    def act_item(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.inv["abc"[s % 3]] = v

    def act_field(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.data.a = v

    def act_know(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.set_knowledge(NAMES[s % 3], v, overwrite=s % 2 == 0)

    def act_forget(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.clear_knowledge(NAMES[s % 3])

    def act_recall(self, actor: Any, s: int, v: int, task: Any) -> None:
        known = actor.get_knowledge(NAMES[s % 3])
        actor.n = known if known is not None else -1

    def act_own(self, actor: Any, s: int, v: int, task: Any) -> None:
        if actor.get_knowledge(OWN[s % 2]) is None:
            actor.create_knowledge_event(name=OWN[s % 2], rehearsal_time_to_complete=1.0)
        else:
            actor.succeed_knowledge_event(name=OWN[s % 2], v=v)

    def act_queue(self, actor: Any, s: int, v: int, task: Any) -> None:
        if len(self.path) < self.listed and task is not self.idle:
            return  # the real actor's queue holds the rest of the list
        if s % 2:
            actor.clear_task_queue("main")
        names = ["T0", "T1", "T2", "D"]
        actor.set_task_queue("main", [names[(v + i) % 4] for i in range(1 + s % 3)])

    def act_next(self, actor: Any, s: int, v: int, task: Any) -> None:
        if len(self.path) < self.listed and task is not self.idle:
            return
        self.note(actor, "queue", actor.get_next_task("main"), actor.get_task_queue("main"))

    def act_marker(self, actor: Any, s: int, v: int, task: Any) -> None:
        if v % 3 == 2:
            task.clear_marker()
        else:
            task.set_marker(f"m{v}")

    def act_log(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.log(f"says {v}")

    def act_seen(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.seen = v % 2 == 0

    def act_record(self, actor: Any, s: int, v: int, task: Any) -> None:
        actor.record_state(["n", "tagged", "lin1", "share", "loc", "inv"][s % 6])

    # -- the two ways of going there ------------------------------------------

    def driver(self) -> Generator:
        c = self.case
        for o in c["before"]:
            if o["op"] == "wait":
                yield self.env.timeout(o["t"])
            else:
                self.act(self.actor, o, self.idle)
        self.actor.deactivate_all_states(task=self.idle)
        self.notes.append(["from", self.env.now, view(self.actor)])
        names = ["T0", "T1", "T2", "D"]
        self.names = [names[x] for x in c["list"]]
        self.know = [{k: v for k, v in kv} for kv in c["know"]]
        if c["mode"] == "route":
            self.stop_at = "END" if c["end"] is None else f"T{c['end']}"
        self.listed = len(self.names) if c["mode"] == "route" else 0
        if self.real:
            yield from self.perform()
        else:
            self.rehearse()

    def rehearse(self) -> None:
        c = self.case
        try:
            if c["mode"] == "tasks":
                u: Any = self.actor
                for i, name in enumerate(self.names):
                    t = self.classes[name]()
                    t._set_network_name("main")
                    u = t.rehearse(
                        actor=u, knowledge=self.know[i % 2], cloned_actor=i > 0 and c["chain"][i] == "cloned"
                    )
            elif c["mode"] == "list":
                u = self.actor.rehearse_network("main", self.names, knowledge=self.know[0])
            else:
                u = self.actor.rehearse_network(
                    "main", self.names, knowledge=self.know[0], end_task=self.stop_at
                )
            self.end = "ended"
            self.outcome = self.result(u)
        except TooLong:
            self.end = "too long"
        except UP.SimulationError as e:
            self.end = f"refused: {e}"

    def perform(self) -> Generator:
        c = self.case
        if c["mode"] == "route":
            self.actor.set_bulk_knowledge(self.know[0], overwrite=True)
            q = self.actor.get_task_queue("main")
            self.actor.clear_task_queue("main")
            self.actor.set_task_queue("main", self.names + list(q))
            self.actor.start_network_loop("main")
            return
        if c["mode"] == "list":
            self.actor.set_bulk_knowledge(self.know[0], overwrite=True)
        for i, name in enumerate(self.names):
            if c["mode"] == "tasks":
                self.actor.set_bulk_knowledge(self.know[i % 2], overwrite=True)
            t = self.classes[name]()
            t._set_network_name("main")
            yield t.run(actor=self.actor)
        self.finish(self.actor)


def links(c: dict) -> dict:
    names = ["T0", "T1", "T2", "D"]
    end = "END" if c["end"] is None else "T0"
    out = {}
    for n, d, ok in zip(names, c["links"], c["allowed"]):
        default = None if d is None else [*names, end][d]
        out[n] = UP.TaskLinks(default=default, allowed=[x for x, y in zip([*names, "END"], ok) if y])
    out["END"] = UP.TaskLinks(default=None, allowed=[])
    return out


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------

INSTANT = [
    "set", "set", "add", "stamp", "append", "on", "on", "off", "go", "halt", "stop", "item", "field", "know", "know", "forget",
    "recall", "own", "queue", "next", "marker", "log", "seen", "record",
]  # fmt: skip
BEFORE = [
    "set",
    "add",
    "stamp",
    "append",
    "on",
    "off",
    "go",
    "halt",
    "item",
    "field",
    "know",
    "forget",
    "own",
    "queue",
    "queue",
    "log",
]
KINDS = ["wait", "wait", "get", "filter", "put", "drink", "fill", "hold", "event", "event", "know"]


def do(acts: list) -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {"op": st.just("do"), "act": st.sampled_from(acts), "s": st.integers(0, 5), "v": st.integers(0, 4)}
    )


@functools.cache
def leaf() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {"k": st.sampled_from(KINDS), "b": st.integers(0, 8), "v": st.integers(0, 1)}
    )


@functools.cache
def task() -> st.SearchStrategy:
    def join(inner: st.SearchStrategy, least: int) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {"k": st.sampled_from(["any", "any", "all"]), "in": st.lists(inner, min_size=least, max_size=4)}
        )

    flat = join(leaf(), 1)
    tree = st.one_of(
        leaf(),
        join(leaf(), 0),
        join(leaf(), 2),
        join(st.one_of(leaf(), flat, join(st.one_of(leaf(), flat), 1)), 1),
    )
    step = st.one_of(
        do(INSTANT),
        do(INSTANT),
        do(INSTANT),
        st.fixed_dictionaries(
            {
                "op": st.just("wait"),
                "t": st.sampled_from([0.0, 0.5, 1.0, 1.5, 3.0, 0.1]),
                "u": st.sampled_from([None, None, "min", "hr", "s", "days"]),
            }
        ),
        st.fixed_dictionaries(
            {"op": st.just("join"), "e": tree, "cancel": st.booleans(), "keep": st.booleans()}
        ),
        st.fixed_dictionaries(
            {"op": st.just("join"), "e": tree, "cancel": st.just(False), "keep": st.just(True)}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("again"),
                "slots": st.lists(st.integers(0, 5), min_size=1, max_size=3),
                "new": st.lists(leaf().filter(lambda x: x["k"] != "hold"), max_size=2),
                "all": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("routine"),
                "t": st.sampled_from([0.5, 1.0]),
                "take": st.booleans(),
                "b": st.integers(0, 6),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("quick"),
                "es": st.lists(st.sampled_from([*sorted(set(KINDS)), "sorted"]), min_size=1, max_size=3),
                "slow": st.one_of(st.none(), leaf()),
                "all": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("errand"),
                "es": st.lists(
                    st.one_of(
                        st.sampled_from(["get", "filter", "put", "drink", "fill", "wait", "event", "know"]),
                        leaf().filter(lambda x: x["k"] != "hold"),
                    ),
                    max_size=4,
                ),
            }
        ),
        st.fixed_dictionaries({"op": st.just("window"), "t": st.sampled_from([None, 0.0, 0.75, 2.0])}),
        st.fixed_dictionaries({"op": st.just("rehearse"), "k": st.integers(0, 2)}),
    )
    return seqs(step, 10)


@functools.cache
def case() -> st.SearchStrategy:
    names = st.integers(0, 3)
    know = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(5, 7)), max_size=2)
    before = st.one_of(
        do(BEFORE),
        do(BEFORE),
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.5, 1.0, 2.25])}),
    )
    yes = st.sampled_from([True] * 9 + [False])
    return st.fixed_dictionaries(
        {
            "start": st.sampled_from([0.0, 0.0, 3.5]),
            "unit": st.sampled_from([None, None, "hr", "min", "s"]),
            "lin1": st.sampled_from([0.0, 100.0]),
            "skip": st.booleans(),
            "mode": st.sampled_from(["tasks", "list", "route", "route"]),
            "chain": st.lists(st.sampled_from(["cloned", "again"]), min_size=5, max_size=5),
            "list": st.lists(names, min_size=1, max_size=4),
            "end": st.one_of(st.none(), st.none(), st.integers(0, 2)),
            "links": st.lists(
                st.one_of(*[st.integers(0, 4)] * 5, st.just(4), st.just(4), st.none()), min_size=4, max_size=4
            ),
            "allowed": st.lists(st.lists(yes, min_size=5, max_size=5), min_size=4, max_size=4),
            "know": st.lists(know, min_size=2, max_size=2),
            "tasks": st.lists(task(), min_size=N_TASKS, max_size=N_TASKS),
            "decision": st.lists(
                do(["queue", "queue", "set", "know", "recall", "item", "log", "stamp", "append"]), max_size=3
            ),
            "before": st.lists(before, max_size=6),
        }
    )


def run(case: dict, real: bool) -> World:
    with UP.EnvironmentContext(initial_time=case["start"]) as env:
        if case["unit"]:
            UP.add_stage_variable("time_unit", case["unit"])
        w = World(case, env, real)
        env.process(w.driver())
        try:
            drain(env)
        except UP.SimulationError as e:
            w.end = f"refused: {e}"
        except TooLong:
            w.end = "too long"
        return w


def refused_at(names: list, links: dict) -> int | None:
    """The first task of a list after which the next one is not allowed."""
    for i, (a, b) in enumerate(zip(names, names[1:])):
        if b not in links[a].allowed:
            return i
    return None


def check(case: dict, ctx: Ctx) -> None:
    plan, real = run(case, False), run(case, True)
    notes, want = plan.notes, real.notes
    bad = refused_at(plan.names, plan.links) if case["mode"] != "tasks" else None
    if bad is not None and plan.stop_at in plan.names[: bad + 1]:
        bad = None  # the end comes first
    ctx.label(case["mode"])
    if bad is not None:
        ctx.label("route not allowed")
        if not plan.end.startswith("refused"):
            raise Violation(
                f"{plan.names[bad + 1]} was rehearsed after {plan.names[bad]}, which the network does not allow"
            )
        if plan.path != plan.names[: bad + 1] and not (
            real.end.startswith("refused") and plan.path == real.path
        ):
            raise Violation(f"the rehearsal went {plan.path} before refusing {plan.names}")
        want = want[: len(notes)]
    for n, (a, b) in enumerate(zip(notes, want)):
        if not near(a, b):
            raise Violation(f"step {n}: rehearsed {a!r}, really {b!r}")
    ctx.nontrivial(any(x[0] in ("joined", "wait") for x in notes) and any(x[0] == "end" for x in notes))
    if bad is not None:
        return
    if plan.path != real.path:
        raise Violation(f"the rehearsal goes {plan.path}, the actor really goes {real.path}")
    how, really = plan.end.split(":")[0], real.end.split(":")[0]
    if how != really:
        raise Violation(f"the rehearsal {plan.end}, really {real.end}")
    if len(notes) != len(want):
        raise Violation(f"{len(notes)} steps rehearsed, really {len(want)}")
    ctx.label(how, plan.end[:70])
    if len(plan.path) > len(plan.names):
        ctx.label("beyond the list")
    if plan.outcome is not None and real.outcome is not None:
        for k in plan.outcome:
            if k == "queue" and plan.stop_at in plan.names:
                continue  # the real actor's queue holds the rest of the list
            if not near(plan.outcome[k], real.outcome[k]):
                raise Violation(
                    f"at the end, {k} is {plan.outcome[k]!r} in the rehearsal and really {real.outcome[k]!r}"
                )
    for x in notes:
        ctx.label(x[0])


PROP = Prop(
    "C15",
    rule="a task was rehearsed to its end and waited for something on the way",
    parts=[Part("outcome", case, check, quick=4000, thorough=100000)],
)
