"""C32: simulation contexts are isolated, and equal seeds give equal runs."""

from __future__ import annotations

import atexit
import copy
import json
import os
import random
import re
import subprocess
import sys
import threading
from collections.abc import Callable, Generator
from pathlib import Path
from random import Random
from typing import Any

from upstage_des.base import NamedUpstageEntity, UpstageBase, clear_top_context, create_top_context
from upstage_des.communications.routing import RoutingTableCommsManager
from upstage_des.data_utils import create_table, get_recorded_data, record_data
from upstage_des.motion import SensorMotionManager
from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, expect_raises, seqs, st

GROUPS = ["air", "sea", "C1", "vehicle"]
VARS = ["alpha", "beta", "time_unit", "random", "distance_units"]

# ------------------------------------------------------------------ nested contexts


def class_spec() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "root": st.sampled_from(["actor", "actor", "named"]),
            "bases": st.lists(st.integers(0, 7), max_size=2),
            "groups": st.one_of(
                st.none(), st.sampled_from(GROUPS), st.lists(st.sampled_from(GROUPS), max_size=3)
            ),
            "add": st.sampled_from([None, None, None, True, False]),
            "skip": st.sampled_from([None, None, True, False]),
        }
    )


def ops_tree() -> st.SearchStrategy:
    leaf = st.one_of(
        st.fixed_dictionaries({"op": st.just("make"), "k": st.integers(0, 7)}),
        st.fixed_dictionaries({"op": st.just("clock"), "t": st.sampled_from([0.5, 1.0, 3.25])}),
        st.fixed_dictionaries({"op": st.just("var"), "n": st.sampled_from(VARS), "v": st.integers(0, 5)}),
        st.fixed_dictionaries(
            {"op": st.sampled_from(["set", "drop"]), "n": st.sampled_from(VARS), "v": st.integers(0, 5)}
        ),
        st.fixed_dictionaries(
            {"op": st.just("record"), "v": st.integers(0, 9), "copy": st.booleans(), "how": st.integers(0, 1)}
        ),
        st.fixed_dictionaries({"op": st.just("draw"), "n": st.integers(1, 3)}),
        st.fixed_dictionaries({"op": st.just("wait")}),
        st.fixed_dictionaries({"op": st.just("monitored"), "k": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("bad")}),
    )

    def grow(children: st.SearchStrategy) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "op": st.sampled_from(["with", "with", "top", "raise", "thread", "again"]),
                "t0": st.sampled_from([0.0, 0.0, 5, 2.5]),
                "seed": st.one_of(st.none(), st.integers(0, 3)),
                "gen": st.sampled_from([False, False, True]),
                "body": seqs(st.one_of(leaf, children), 9, 0),
            }
        )

    inner = grow(leaf)
    two = grow(inner)
    return seqs(st.one_of(inner, two, two, grow(two)), 4)


def ctx_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {"classes": st.lists(class_spec(), min_size=1, max_size=6), "tree": ops_tree()}
    )


def build_classes(specs: list[dict]) -> list[tuple[type, set[str], bool]]:
    """The classes, and what groups their instances are to be found in."""
    out: list[tuple[type, set[str], bool]] = []
    for i, s in enumerate(specs):
        actor = s["root"] == "actor"
        bases: list[type] = []
        for b in s["bases"]:
            if b < len(out) and out[b][0] not in bases:
                bases.append(out[b][0])
        # an ancestor after its descendant, or in two ways, is not always a legal order
        bases = [b for b in bases if not any(c is not b and issubclass(c, b) for c in bases)]
        if not bases:
            bases = [UP.Actor if actor else NamedUpstageEntity]
        kw: dict[str, Any] = {}
        if s["groups"] is not None:
            kw["entity_groups"] = s["groups"]
        if s["add"] is not None:
            kw["add_to_entity_groups"] = s["add"]
        if s["skip"] is not None:
            kw["skip_classname"] = s["skip"]
        name = f"C{i}"
        try:
            cls = type(name, tuple(bases), {}, **kw)
        except TypeError:  # no consistent order of bases
            cls = type(name, (bases[0],), {}, **kw)
        groups: set[str] = set()
        if s["add"] is not False:
            mine = [s["groups"]] if isinstance(s["groups"], str) else list(s["groups"] or [])
            groups.update(mine)
            if not s["skip"]:
                groups.add(name)
            for c, g, _ in out:
                if issubclass(cls, c):
                    groups |= g
        out.append((cls, groups, issubclass(cls, UP.Actor)))
    return out


class World:
    """What should be visible in one context."""

    def __init__(self, t0: float, rng: Random | None):
        self.now = t0
        self.rng = rng
        self.actors: list[Any] = []
        self.groups: dict[str, list] = {}
        self.monitored: list[Any] = []
        self.recorded: list[tuple[float, Any]] = []
        self.vars: dict[str, Any] = {}
        self.pending: list[float] = []
        self.fired: list[float] = []


MONITORED = [
    lambda env: UP.SelfMonitoringStore(env),
    lambda env: UP.SelfMonitoringContainer(env, capacity=10),
    lambda env: UP.SelfMonitoringFilterStore(env),
]


class Marker(Exception):
    pass


class Walk:
    def __init__(self, c: dict, ctx: Ctx):
        self.classes = build_classes(c["classes"])
        self.ctx = ctx
        self.base = UpstageBase
        self.count = 0
        self.depth = 0

    def verify(self, w: World | None, env: SIM.Environment | None, why: str) -> None:
        """Everything that can be seen from here is what was made here."""
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = UpstageBase()
        if w is None:
            for what in (
                lambda: b.env,
                lambda: b.stage,
                b.get_actors,
                b.get_monitored,
                b.get_recorded,
                b.get_all_entity_groups,
                lambda: b.get_entity_group("C0"),
            ):
                expect_raises(f"{why}: outside of any context", UP.UpstageError, what)
            for fn in (
                UP.get_stage,
                lambda: UP.get_stage_variable("alpha"),
                lambda: UP.add_stage_variable("x", 1),
            ):
                expect_raises(f"{why}: the stage outside of any context", (ValueError, UP.UpstageError), fn)
            return
        if b.env is not env or b.env.now != w.now:
            raise Violation(f"{why}: the clock shows {b.env.now}, should be {w.now}")
        for what, got, want in (
            ("actors", b.get_actors(), w.actors),
            ("monitored", b.get_monitored(), w.monitored),
        ):
            if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
                raise Violation(f"{why}: {what} are {got}, should be {want}")
        for got in (b.get_recorded(), get_recorded_data()):
            if got != w.recorded:
                raise Violation(f"{why}: recorded data are {got}, should be {w.recorded}")
        groups = {k: v for k, v in b.get_all_entity_groups().items() if v}
        want_groups = {k: v for k, v in w.groups.items() if v}
        if set(groups) != set(want_groups):
            raise Violation(f"{why}: groups are {sorted(groups)}, should be {sorted(want_groups)}")
        for g in set(want_groups) | set(GROUPS) | {f"C{i}" for i in range(6)} | {"Actor", "none"}:
            for got in (b.get_entity_group(g), groups.get(g, [])):
                want = want_groups.get(g, [])
                if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
                    raise Violation(f"{why}: group {g} is {got}, should be {want}")
        stage = UP.get_stage()
        if stage is not b.stage:
            raise Violation(f"{why}: two stages")
        have = {k: v for k, v in stage.items() if k != "random"}
        if have != w.vars:
            raise Violation(f"{why}: stage variables are {have}, should be {w.vars}")
        for k, v in w.vars.items():
            if UP.get_stage_variable(k) != v or getattr(b.stage, k) != v:
                raise Violation(f"{why}: stage variable {k} is {UP.get_stage_variable(k)}, should be {v}")
        for k in VARS:
            if k not in w.vars and k != "random":
                expect_raises(f"{why}: stage variable {k}", UP.UpstageError, UP.get_stage_variable, k)
                expect_raises(f"{why}: stage attribute {k}", AttributeError, getattr, b.stage, k)
        if w.rng is not None and b.stage.random.getstate() != w.rng.getstate():
            raise Violation(f"{why}: the random numbers are not those of this context's seed")

    def body(self, ops: list[dict], w: World, env: SIM.Environment) -> None:
        b = UpstageBase()
        for o in ops:
            kind = o["op"]
            why = f"after {o}" if "body" not in o else f"after leaving {o['op']}"
            if kind == "make":
                cls, groups, is_actor = self.classes[o["k"] % len(self.classes)]
                self.count += 1
                x = cls(name=f"x{self.count}") if is_actor else cls()
                if is_actor:
                    w.actors.append(x)
                for g in groups - {"Actor"}:
                    w.groups.setdefault(g, []).append(x)
                if x.env is not env or x.stage is not b.stage:
                    raise Violation("an entity lives in another context than the one it was made in")
                self.ctx.nontrivial(self.depth > 1)
            elif kind == "clock":
                w.now += o["t"]
                env.run(until=w.now)
                due = [t for t in w.pending if t < w.now]
                w.pending = [t for t in w.pending if t >= w.now]
                if sorted(w.fired) != sorted(due):
                    raise Violation(
                        f"until {w.now} processes of this context ran at {w.fired}, should be {due}"
                    )
                w.fired.clear()
            elif kind == "var":
                if o["n"] in w.vars or o["n"] == "random":
                    expect_raises(
                        "a stage variable set twice", UP.UpstageError, UP.add_stage_variable, o["n"], o["v"]
                    )
                else:
                    v = "hr" if o["n"] == "time_unit" else o["v"]
                    UP.add_stage_variable(o["n"], v)
                    w.vars[o["n"]] = v
            elif kind == "set":
                # as an attribute, which works as adding it does
                if o["n"] in w.vars or o["n"] == "random":
                    expect_raises(
                        "a stage attribute set twice", AttributeError, setattr, b.stage, o["n"], o["v"]
                    )
                else:
                    w.vars[o["n"]] = "hr" if o["n"] == "time_unit" else o["v"]
                    setattr(b.stage, o["n"], w.vars[o["n"]])
            elif kind == "drop":
                if o["n"] in w.vars:
                    delattr(b.stage, o["n"])
                    del w.vars[o["n"]]
            elif kind == "record":
                data = [o["v"]]
                if o["how"]:
                    record_data(data, copy=o["copy"])
                else:
                    UP.DataRecorder().record_data(data, copy=o["copy"]) if hasattr(
                        UP, "DataRecorder"
                    ) else record_data(data, o["copy"])
                w.recorded.append((w.now, [o["v"]] if o["copy"] else data))
                data.append("later")
            elif kind == "draw":
                for _ in range(o["n"]):
                    got = b.stage.random.uniform(0, 1)
                    if w.rng is not None and got != w.rng.uniform(0, 1):
                        raise Violation(f"drew {got}, which the seed does not give")
            elif kind == "wait":
                wait = UP.Wait.from_random_uniform(1.0, 2.0)
                if w.rng is not None and wait.timeout != w.rng.uniform(1.0, 2.0):
                    raise Violation(f"a random wait of {wait.timeout}, which the seed does not give")
                at = w.now + wait.timeout
                w.pending.append(at)

                def proc(at=at, wait=wait, env=env, w=w) -> Generator:
                    yield wait.as_event()
                    w.fired.append(at)
                    if env.now != at:
                        raise Violation(f"waited until {env.now} instead of {at}")

                env.process(proc())
            elif kind == "monitored":
                w.monitored.append(MONITORED[o["k"]](env))
                for g in ("SelfMonitoringStore", "SelfMonitoringContainer", "SelfMonitoringFilterStore"):
                    # monitors are entities with groups of their own; take them as they come
                    w.groups.setdefault(g, [])
                x = w.monitored[-1]
                for g in type(x)._entity_groups:
                    w.groups.setdefault(g, []).append(x) if x not in w.groups.get(g, []) else None
            elif kind == "bad":
                expect_raises("an unknown stage variable", UP.UpstageError, UP.get_stage_variable, "nowhere")
                expect_raises(
                    "an unknown stage attribute", AttributeError, getattr, UP.get_stage(), "nowhere"
                )
            else:
                self.enter(o, w, env)
            self.verify(w, env, why)

    def enter(self, o: dict, outer: World | None, outer_env: SIM.Environment | None) -> None:
        self.depth += 1
        self.ctx.label(o["op"], f"depth={self.depth}")
        rng = None
        kw: dict[str, Any] = {"initial_time": o["t0"]} if o["t0"] else {}
        seed = o["seed"]
        if o["gen"]:
            kw["random_gen"] = Random(41 if seed is None else seed)
            kw["random_seed"] = 99  # ignored
            rng = Random(41 if seed is None else seed)
        elif seed is not None:
            kw["random_seed"] = seed
            rng = Random(seed)
        w = World(o["t0"], rng)
        kind = o["op"]

        def inside(env: SIM.Environment) -> None:
            self.verify(w, env, f"just inside {kind}")
            self.body(o["body"], w, env)

        if kind == "top":
            ctx = create_top_context(**kw)
            inside(UpstageBase().env)
            clear_top_context(ctx)
        elif kind == "raise":
            try:
                with UP.EnvironmentContext(**kw) as env:
                    inside(env)
                    raise Marker
            except Marker:
                pass
            else:
                raise Violation("an error within a context was swallowed")
        elif kind == "thread":
            errors: list[BaseException] = []

            def run() -> None:
                try:
                    self.verify(None, None, "in a new thread")
                    with UP.EnvironmentContext(**kw) as env:
                        inside(env)
                    self.verify(None, None, "after a context in a thread")
                except BaseException as e:
                    errors.append(e)

            t = threading.Thread(target=run)
            t.start()
            t.join()
            if errors:
                raise errors[0]
        elif kind == "again":
            # one context object used twice in sequence
            m = UP.EnvironmentContext(**kw)
            with m as env:
                inside(env)
            self.verify(outer, outer_env, "between two uses of a context")
            state = None if rng is None else rng.getstate()
            w = World(o["t0"], None)
            if rng is not None:
                w.rng = rng
                if o["gen"]:
                    rng.setstate(state)  # the generator goes on
                else:
                    w.rng = Random(seed)
            with m as env:
                inside(env)
        else:
            with UP.EnvironmentContext(**kw) as env:
                inside(env)
        self.depth -= 1


def ctx_check(c: dict, ctx: Ctx) -> None:
    before = random.getstate()
    walk = Walk(c, ctx)
    walk.verify(None, None, "at first")
    for o in c["tree"]:
        walk.enter(o, None, None)
        walk.verify(None, None, f"after leaving {o['op']}")
    if random.getstate() != before:
        raise Violation("the interpreter's own random generator was used")


# ------------------------------------------------------------------ equal runs

WORDS = [
    "fuel",
    "pos",
    "heat",
    "x",
    "load",
    "noise",
    "battery",
    "speed2",
    "alpha",
    "Q",
    "zeta",
    "wear",
    "k9",
    "mood",
]


def words(n: int) -> st.SearchStrategy:
    return st.lists(st.sampled_from(WORDS), min_size=n, max_size=n, unique=True)


def program() -> st.SearchStrategy:
    step = st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("wait"),
                "lo": st.sampled_from([0.1, 0.5, 1.0]),
                "d": st.sampled_from([0.0, 0.5, 2.0]),
            }
        ),
        st.fixed_dictionaries(
            {"op": st.just("on"), "s": st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True)}
        ),
        st.fixed_dictionaries(
            {"op": st.just("mimic"), "s": st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True)}
        ),
        st.fixed_dictionaries({"op": st.just("off")}),
        st.fixed_dictionaries({"op": st.sampled_from(["put", "get"])}),
        st.fixed_dictionaries({"op": st.just("pick")}),
    )
    crew = st.one_of(
        st.none(),
        st.fixed_dictionaries(
            {
                "states": words(5),
                "luck": st.integers(0, 3).flatmap(words),
                "steps": st.lists(st.lists(step, min_size=2, max_size=7), min_size=1, max_size=4),
                "hits": st.integers(0, 5),
            }
        ),
    )
    nets = st.one_of(
        st.none(),
        st.fixed_dictionaries(
            {
                "names": st.integers(2, 6).flatmap(words),
                "watch": st.lists(
                    st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), min_size=6, max_size=6
                ),
                "sets": st.integers(1, 6),
            }
        ),
    )
    routes = st.one_of(
        st.none(),
        st.fixed_dictionaries(
            {
                "names": words(7),
                "edges": st.lists(
                    st.tuples(st.integers(0, 6), st.integers(0, 6), st.booleans()).map(list),
                    min_size=4,
                    max_size=16,
                ),
                "sends": st.lists(
                    st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list), min_size=1, max_size=5
                ),
            }
        ),
    )
    sensors = st.one_of(
        st.none(), st.fixed_dictionaries({"n": st.integers(2, 6), "loss": st.sampled_from([3.1, 4.9, 5.5])})
    )
    groups = st.one_of(st.none(), st.fixed_dictionaries({"own": st.lists(words(3), min_size=1, max_size=3)}))
    return st.fixed_dictionaries(
        {
            "seed": st.integers(0, 10**6),
            "crew": crew,
            "nets": nets,
            "routes": routes,
            "sensors": sensors,
            "groups": groups,
            "t0": st.sampled_from([0.0, 0.0, 10.0]),
        }
    )


END = 25.0


def run_program(c: dict, how: str = "seed") -> list:
    """One simulation from a case; everything it shows, in order, as plain data."""
    kw = {"random_seed": c["seed"]} if how == "seed" else {"random_gen": Random(c["seed"])}
    log: list = []
    with UP.EnvironmentContext(initial_time=c["t0"], **kw) as env:
        rng = UP.get_stage().random

        def note(*a: Any) -> None:
            log.append([env.now, *a])

        for part in (crew_part, nets_part, routes_part, sensors_part, groups_part):
            spec = c[part.__name__.split("_")[0]]
            if spec is not None:
                part(spec, env, rng, note)
        drain(env, c["t0"] + END)
        b = UpstageBase()
        note("groups", [[k, len(v)] for k, v in b.get_all_entity_groups().items()])
        note("actors", [a.name for a in b.get_actors()])
        note("table", [list(map(repr, r)) for r in create_table()[0]])
        note("logs", [[a.name, [repr(x) for x in a.get_log()]] for a in b.get_actors()])
        note("next", rng.random())
    # where an object lies in memory is nobody's concern
    return json.loads(re.sub(r"0x[0-9a-f]+", "0x", json.dumps(log)))


def crew_part(spec: dict, env: SIM.Environment, rng: Any, note: Callable) -> None:
    states = spec["states"]

    def watcher(name: str) -> Callable:
        def heard(time: float, value: Any) -> Any:
            note("recorded", name, repr(value))
            return value

        return heard

    body: dict[str, Any] = {
        s: UP.LinearChangingState(
            default=0.0, recording=True, recording_functions=[(watcher(s), f"{s}_seen")]
        )
        for s in states
    }
    body["box"] = UP.ResourceState(default=UP.SelfMonitoringStore)
    for s in spec["luck"]:
        body[f"luck_{s}"] = UP.State(default_factory=lambda: rng.randint(0, 999), recording=True)
    Crew = type("Crew", (UP.Actor,), body)
    crew = [Crew(name=f"m{i}", debug_log=True) for i in range(len(spec["steps"]))]
    box = crew[0].box

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Generator:
            i = crew.index(actor)
            for o in spec["steps"][i]:
                op = o["op"]
                if op == "wait":
                    yield UP.Wait.from_random_uniform(o["lo"], o["lo"] + o["d"])
                elif op == "on":
                    for s in o["s"]:
                        name = states[s]
                        if name not in actor._active_states and name not in actor._mimic_states:
                            actor.activate_state(state=name, task=self, rate=rng.uniform(1, 2))
                elif op == "mimic":
                    other = crew[i - 1]
                    if i == 0:
                        continue
                    for s in o["s"]:
                        name = states[s]
                        if name not in actor._active_states and name not in actor._mimic_states:
                            actor.activate_mimic_state(
                                self_state=name, mimic_state=name, mimic_actor=other, task=self
                            )
                elif op == "off":
                    actor.deactivate_all_states(task=self)
                    actor.deactivate_all_mimic_states(task=self)
                elif op == "put":
                    yield UP.Put(box, [actor.name, rng.randint(0, 99)])
                elif op == "get":
                    item = yield UP.Get(box)
                    note("got", actor.name, item)
                else:
                    note("pick", rng.choice(sorted(states)))
            yield UP.Wait(1.0)
            note("done", actor.name)
            actor.deactivate_all_states(task=self)
            actor.deactivate_all_mimic_states(task=self)

    tasks = [Work() for _ in crew]
    procs = [t.run(actor=a) for t, a in zip(tasks, crew)]

    def hits() -> Generator:
        for _ in range(spec["hits"]):
            yield env.timeout(rng.uniform(0.2, 1.5))
            alive = [p for p in procs if p.is_alive]
            if alive:
                rng.choice(alive).interrupt("hit")

    env.process(hits())


def nets_part(spec: dict, env: SIM.Environment, rng: Any, note: Callable) -> None:
    A = type("Brain", (UP.Actor,), {s: UP.State(default=0, recording=True) for s in ("p", "q", "r")})
    a = A(name="brain", debug_log=True)
    nucleus = UP.TaskNetworkNucleus(actor=a)
    for i, name in enumerate(spec["names"]):

        class React(UP.Task):
            net = name

            def task(self, *, actor: Any) -> Generator:
                note("starts", self.net, rng.random())
                yield UP.Event()

            def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
                note("hears", self.net, cause.state_name, cause.value, rng.random())
                return self.INTERRUPT.END

        a.add_task_network(UP.TaskNetworkFactory.from_single_looping(name, React).make_network())
        nucleus.add_network(name, [("p", "q", "r")[k] for k in spec["watch"][i]])
        a.start_network_loop(name, init_task_name="React")

    def sets() -> Generator:
        for k in range(spec["sets"]):
            yield env.timeout(rng.uniform(0.5, 2.0))
            setattr(a, rng.choice(["p", "q", "r"]), k + 1)

    env.process(sets())


def routes_part(spec: dict, env: SIM.Environment, rng: Any, note: Callable) -> None:
    class Node(UP.Actor):
        inbox = UP.CommunicationStore(modes=["net"])

    class Manager(RoutingTableCommsManager):
        def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
            hop = super().select_hop(source, dest, ignore_nodes)
            note("hop", source.name, dest.name, None if hop is None else hop.name)
            return hop

    nodes = [Node(name=n) for n in spec["names"]]
    mgr = Manager(name="mgr", mode="net", send_time=0.25)
    for u, v, both in spec["edges"]:
        if u != v:
            mgr.connect_nodes(nodes[u], nodes[v], two_way=both)
    mgr.run()

    def send(u: int, v: int) -> Generator:
        yield env.timeout(rng.uniform(0.1, 3.0))
        yield mgr.make_put(["text", u, v], nodes[u], nodes[v]).as_event()

    def read(n: Any) -> Generator:
        while True:
            m = yield n.inbox.get()
            note("read", n.name, repr(m.content), rng.random())

    for u, v in spec["sends"]:
        if u != v:
            env.process(send(u, v))
    for n in nodes:
        env.process(read(n))


def sensors_part(spec: dict, env: SIM.Environment, rng: Any, note: Callable) -> None:
    class Mover(UP.Actor):
        loc = UP.CartesianLocationChangingState(recording=True)
        det = UP.DetectabilityState(default=True)

    class Radar:
        def __init__(self, i: int, x: float):
            self.i = i
            self.location = UP.CartesianLocation(x, 0)
            self.radius = 6.0

        def entity_entered_range(self, m: Any) -> None:
            note("enters", self.i, m.name, rng.random())

        def entity_exited_range(self, m: Any) -> None:
            note("exits", self.i, m.name, rng.random())

    UP.add_stage_variable("distance_units", "km")
    UP.add_stage_variable("altitude_units", "km")
    mgr = SensorMotionManager(cartesian_linear_intersection)
    UP.add_stage_variable("motion_manager", mgr)
    for i in range(spec["n"]):
        mgr.add_sensor(Radar(i, 4.0 + 0.3 * i + rng.uniform(0, 0.1)))
    m = Mover(name="mover", loc=UP.CartesianLocation(-10, 0))

    class Go(UP.Task):
        def task(self, *, actor: Any) -> Generator:
            actor.activate_location_state(
                state="loc", speed=3.0, waypoints=[UP.CartesianLocation(30, 0)], task=self
            )
            yield UP.Wait(spec["loss"])
            actor.det = False
            actor.deactivate_all_states(task=self)

    Go().run(actor=m)


def groups_part(spec: dict, env: SIM.Environment, rng: Any, note: Callable) -> None:
    cls: type = UP.Actor
    for i, own in enumerate(spec["own"]):
        cls = type(f"G{i}", (cls,), {}, entity_groups=own)
        cls(name=f"g{i}")


class Helper:
    """Another interpreter, with another order of sets."""

    def __init__(self, hash_seed: int):
        root = Path(__file__).resolve().parents[2]
        env = {**os.environ, "PYTHONHASHSEED": str(hash_seed), "PYTHONDONTWRITEBYTECODE": "1"}
        self.p = subprocess.Popen(
            [
                sys.executable,
                "-c",
                f"import sys; sys.path.insert(0, {str(root)!r}); from harness import core; core.setup_paths(); from harness.props import c32_contexts as c; c.serve()",
            ],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env,
            cwd=str(root),
            text=True,
        )
        atexit.register(self.close)

    def close(self) -> None:
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()

    def ask(self, c: dict) -> Any:
        self.p.stdin.write(json.dumps(c) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the second interpreter ended")
        return json.loads(line)


def serve() -> None:
    import warnings

    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            ans: Any = run_program(json.loads(line))
        except Exception as e:
            ans = {"error": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(ans) + "\n")
        out.flush()


_helpers: dict[tuple[int, int], Helper] = {}


def helper(seed: int) -> Helper:
    key = (os.getpid(), seed)
    if key not in _helpers:
        _helpers[key] = Helper(seed)
    return _helpers[key]


def differ(want: list, got: Any, what: str) -> None:
    if want == got:
        return
    if isinstance(got, dict):
        raise Violation(f"{what} ended with {got['error']}")
    for x, y in zip(want, got):
        if x != y:
            if isinstance(x[2], list) and isinstance(y[2], list):
                for p, q in zip(x[2], y[2]):
                    if p != q:
                        raise Violation(f"{what} shows {q} in {y[:2]}, first {p}")
            raise Violation(f"{what} shows {y}, first {x}")
    raise Violation(f"{what} shows {len(got)} entries, first {len(want)}")


def run_check(c: dict, ctx: Ctx) -> None:
    before = random.getstate()
    first = run_program(c)
    if random.getstate() != before:
        raise Violation("the interpreter's own random generator was used")
    kinds = {e[1] for e in first}
    ctx.label(*kinds)
    ctx.nontrivial(len(first) > 12)
    # objects elsewhere in memory, another simulation going on around
    ballast = [object() for _ in range(c["seed"] % 97)]
    del ballast[::2]
    random.seed(c["seed"] ^ 5)
    with UP.EnvironmentContext(random_seed=7) as outer:
        outer.run(until=3)
        UP.UpstageBase().stage.random.random()
        r = UP.get_stage().random.getstate()
        differ(first, run_program(c), "the same program within another context")
        if UP.get_stage().random.getstate() != r or outer.now != 3:
            raise Violation("an inner simulation changed the outer clock or random numbers")
        if UpstageBase().get_actors() or UpstageBase().get_recorded():
            raise Violation("an inner simulation left entities in the outer one")
    differ(first, run_program(c, "gen"), "the same program with a generator of that seed")
    random.setstate(before)
    for s in (1, 2):
        differ(first, helper(s).ask(c), "the same program in another interpreter")


PROP = Prop(
    id="C32",
    rule=(
        "Part 1: trees of nested and sequential contexts (with-statement, top context, left by an error, own thread, "
        "one context object used twice) with random class hierarchies and entity groups, clocks, stage variables, "
        "recorded data, monitors and draws; after every step everything visible is compared with what was made in this "
        "context. Part 2: random programs over states, mimics, stores, interrupts, nucleus networks, routed messages, "
        "sensors and groups, all fed by the stage's generator; the complete trace must be the same in a second run "
        "within another context, with a generator given instead of a seed, and in two other interpreters with other "
        "hash seeds. Non-trivial: an entity made two contexts deep; a trace of more than 12 entries."
    ),
    parts=[
        Part("contexts", ctx_case, ctx_check, quick=5000, thorough=60000),
        Part("runs", program, run_check, quick=3200, thorough=40000),
    ],
    assumptions=[
        "contexts of one thread are left in the reverse order of entering",
        "message ids are not compared",
    ],
)
