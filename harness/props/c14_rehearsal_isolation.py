"""C14: a rehearsal leaves the simulation alone, and starts from a faithful copy of the actor."""

from __future__ import annotations

import copy
import functools
import re
from dataclasses import dataclass
from typing import Any, Generator

from upstage_des.base import MockEnvironment
from upstage_des.data_utils import create_location_table, create_table
from upstage_des.geography import Spherical, get_intersection_locations
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.motion.geodetic_model import subdivide_intersection

from harness.core import Ctx, Part, Prop
from harness.motion import add_sensor
from harness.util import SIM, UP, Violation, drain, seqs, st

END = 30.0
EVENTS = (["event", True], ["event", False])
ADDRESS = re.compile("0x[0-9a-f]+")
N_TASKS = 3
PATH_LIMIT = 12  # tasks in one rehearsal
DEPTH = 2
NAMES = ["alpha", "beta", "gamma"]
FLOWS = ["lin1", "lin2", "share", "mirror"]


class Tally:
    """A recording class that keeps something between calls."""

    def __init__(self) -> None:
        self.calls = 0

    def __call__(self, time: float, value: Any) -> Any:
        self.calls += 1
        return self.calls


def twice(time: float, value: Any) -> Any:
    return 2 * value


@dataclass
class Data:
    a: int = 0
    b: str = ""


class Token:
    """A value that is only itself."""


def hero(place_state: Any) -> type:
    class Hero(UP.Actor):
        badge = "blue"
        n = UP.State(default=0, recording=True)
        quiet = UP.State(default=1)
        tagged = UP.State(default=0, recording=True, recording_functions=[(Tally, "tally"), (twice, "twice")])
        bag = UP.State(default_factory=list, recording=True)
        late = UP.State(default=3, no_init=True)
        maybe = UP.State(default=None, allow_none_default=True)
        fixed = UP.State(frozen=True)
        lin1 = UP.LinearChangingState(default=0.0, recording=True)
        lin2 = UP.LinearChangingState(default=10.0, recording=True, recording_functions=[(Tally, "flows")])
        mirror = UP.LinearChangingState(default=-1.0, recording=True)
        share = UP.SharedLinearChangingState(default=5.0, recording=True)
        loc = place_state
        inv = UP.DictionaryState(valid_types=int, recording=True)
        data = UP.DataclassState(valid_types=Data, recording=True)
        tray = UP.ResourceState(default=SIM.Store)
        pick = UP.ResourceState(default=UP.SelfMonitoringSortedFilterStore)
        fuel = UP.ResourceState(default=SIM.Container)
        shelf = UP.MultiStoreState(default=SIM.Store, valid_types=(SIM.Store, SIM.Container))
        mail = UP.CommunicationStore(modes="uhf")
        seen = UP.DetectabilityState(default=True, recording=True)

        @property
        def title(self) -> str:
            return f"{self.badge} {self.n}"

        @classmethod
        def kind(cls) -> str:
            return cls.__name__

        @staticmethod
        def motto() -> str:
            return "on"

    return Hero


Hero = hero(UP.CartesianLocationChangingState(recording=True))
Rover = hero(UP.GeodeticLocationChangingState(recording=True))


STATE_NAMES = [
    "n", "quiet", "tagged", "bag", "late", "maybe", "fixed", "lin1", "lin2", "mirror", "share", "loc", "inv", "data",
    "tray", "pick", "fuel", "shelf", "mail", "seen",
]  # fmt: skip
CALM = [s for s in STATE_NAMES if s not in (*FLOWS, "loc")]


# ---------------------------------------------------------------------------
# what is looked at
# ---------------------------------------------------------------------------


def freeze(v: Any) -> Any:
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, *[freeze(x) for x in v]]
    if isinstance(v, dict):
        return {str(k): freeze(x) for k, x in v.items()}
    if isinstance(v, UP.CartesianLocation):
        return ["at", v.x, v.y, v.z]
    if isinstance(v, UP.GeodeticLocation):
        return ["at", v.lat, v.lon, v.alt]
    if isinstance(v, SIM.Store):
        return [
            type(v).__name__,
            v.capacity,
            [freeze(x) for x in v.items],
            len(v.get_queue),
            len(v.put_queue),
        ]
    if isinstance(v, SIM.Container):
        return [type(v).__name__, v.capacity, v.level, len(v.get_queue), len(v.put_queue)]
    if isinstance(v, UP.Event):
        return ["event", v.is_complete()]
    if hasattr(v, "keys") and hasattr(v, "__getitem__"):
        return {str(k): freeze(v[k]) for k in list(v.keys())}
    if hasattr(v, "a") and hasattr(v, "b"):
        return ["data", v.a, v.b]
    return type(v).__name__


def state(actor: Any, name: str) -> Any:
    try:
        return freeze(getattr(actor, name))
    except (AttributeError, UP.SimulationError, RuntimeError):
        return "unset"


def calm(actor: Any) -> dict:
    """What can be looked at without changing anything."""
    return {
        "states": {s: state(actor, s) for s in CALM},
        "histories": {k: [[t, freeze(v)] for t, v in h] for k, h in actor._state_histories.items()},
        "knowledge": {
            k: [freeze(actor.get_knowledge(k)), k]
            for k in [*NAMES, "list"]
            if actor.get_knowledge(k) is not None
        },
        "queues": {k: list(q) for k, q in actor.get_all_task_queues().items()},
        "networks": [n for n in ("main", "side") if actor.has_task_network(n)],
        "running": {k: [d.name, d.process.is_alive] for k, d in actor.get_running_tasks().items()},
        "log": [[t, ADDRESS.sub("0x", x)] for t, x in actor.get_log()],
    }


def insides(actor: Any) -> dict:
    """The same things, as objects."""
    return {
        **{f"process of {k}": d.process for k, d in actor.get_running_tasks().items()},
        **{f"knowledge {k}": actor.get_knowledge(k) for k in [*NAMES, "list"]},
        **{f"state {s}": getattr(actor, s) for s in ("bag", "tray", "pick", "fuel", "mail")},
        "nucleus": actor.get_nucleus() if actor.has_nucleus else None,
    }


def difference(a: Any, b: Any, path: str = "") -> str | None:
    if isinstance(a, dict) and isinstance(b, dict):
        for k in [*a, *[x for x in b if x not in a]]:
            d = difference(a.get(k, "(absent)"), b.get(k, "(absent)"), f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and a != b:
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return (
            f"{path}: {len(a)} entries and {len(b)}; next is {(a + b)[min(len(a), len(b))]!r}"
            if len(a) != len(b)
            else None
        )
    return None if a == b and type(a) is type(b) else f"{path}: {a!r} and {b!r}"


# ---------------------------------------------------------------------------
# what the tasks do
# ---------------------------------------------------------------------------


class Chore(UP.Routine):
    def __init__(self, actor: Any, t: float, take: bool) -> None:
        super().__init__()
        self.actor, self.t, self.take = actor, t, take
        self.got: Any = None

    def run(self) -> Generator:
        yield UP.Wait(self.t)
        if self.take:
            get = UP.Get(self.actor.tray, rehearsal_time_to_complete=self.t)
            yield UP.Any(get, UP.Wait(2.0))
            if get.is_complete():
                self.got = get.get_value()
            else:
                get.cancel()
        self.actor.quiet += 1
        return "done"

    def cancel(self) -> Generator:
        if self.got is not None:
            yield UP.Put(self.actor.tray, self.got)


# a network that watches what its own task sets cannot be interrupted then (RuntimeError)
REFUSED = (UP.SimulationError, UP.UpstageError, UP.RulesError, RuntimeError)


class Final(UP.TerminalTask):
    def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
        return self.INTERRUPT.IGNORE


class Worker(UP.Task):
    """A task that interprets a program."""

    W: Any
    k: int

    def task(self, *, actor: Any) -> Generator:
        w = self.W
        w.begin()
        for o in w.case["tasks"][self.k]:
            yield from getattr(self, "_" + o["op"])(actor, o)
        w.note(actor, "end", self.k)

    def _do(self, actor: Any, o: dict) -> Generator:
        if o["act"] == "mimic":
            # has to be asked for by the task itself
            other = self.W.other(actor)
            try:
                actor.activate_mimic_state(
                    self_state="mirror", mimic_state="lin1", mimic_actor=other, task=self
                )
                if self.W.depth:
                    raise Violation("an understudy was allowed to mimic")
            except REFUSED as e:
                self.W.note(actor, "refused", "mimic", type(e).__name__)
        else:
            self.W.act(actor, o, self)
        return
        yield

    def _wait(self, actor: Any, o: dict) -> Generator:
        yield UP.Wait(o["t"], timeout_unit=o["u"])

    def _rehearse(self, actor: Any, o: dict) -> Generator:
        self.W.rehearse(o, actor, self)
        return
        yield

    def _rules(self, actor: Any, o: dict) -> Generator:
        if self.W.depth:
            if o["raw"]:
                yield SIM.Event(self.W.env)
            raise UP.RulesError("not possible")

    def _routine(self, actor: Any, o: dict) -> Generator:
        if o["windowed"]:
            r: Any = UP.WindowedGet(actor.tray, 1.0, get_kwargs={"rehearsal_time_to_complete": o["t"]})
        else:
            r = Chore(actor, o["t"], o["take"])
        res = yield r
        self.W.note(actor, "routine", freeze(res) if not self.W.depth else None)

    def make(self, actor: Any, leaf: Any, made: list) -> Any:
        k, t, v = leaf["k"], leaf["t"], leaf["v"]
        if k in ("any", "all"):
            e: Any = (UP.Any if k == "any" else UP.All)(*[self.make(actor, x, made) for x in leaf["in"]])
        elif k == "wait":
            e = UP.Wait(t)
        elif k == "get":
            e = UP.Get(actor.tray, rehearsal_time_to_complete=t)
        elif k == "filter":
            e = UP.FilterGet(actor.pick, lambda x: x % 2 == v % 2, rehearsal_time_to_complete=t)
        elif k == "put":
            e = UP.Put(actor.tray, v, rehearsal_time_to_complete=t)
        elif k == "shelf":
            e = UP.Put(actor.shelf["low"], v, rehearsal_time_to_complete=t)
        elif k == "drink":
            e = UP.Get(actor.fuel, 1 + v % 2, rehearsal_time_to_complete=t)
        elif k == "fill":
            e = UP.Put(actor.fuel, 1 + v % 2, rehearsal_time_to_complete=t)
        elif k == "hold":
            e = UP.ResourceHold(self.W.desk, rehearsal_time_to_complete=t)
        elif k == "event":
            e = self.W.events[v % 2]
        else:
            try:
                e = actor.create_knowledge_event(name=NAMES[v % 3], rehearsal_time_to_complete=t)
            except REFUSED:
                e = UP.Wait(t)
        made.append(e)
        return e

    def _join(self, actor: Any, o: dict) -> Generator:
        made: list = []
        e = self.make(actor, o["e"], made)
        yield e
        done = [m.is_complete() for m in made]
        self.W.note(actor, "joined", done)
        for m, d in zip(made, done):
            if isinstance(m, UP.ResourceHold) and d:
                yield m
            elif o["cancel"] and not d and not hasattr(m, "events"):
                m.cancel()


class Chooser(UP.DecisionTask):
    W: Any

    def make_decision(self, *, actor: Any) -> None:
        self.W.note(actor, "decide")
        for o in self.W.case["decision"]:
            self.W.act(actor, o, self)

    def rehearse_decision(self, *, actor: Any) -> None:
        self.W.begin()
        for o in self.W.case["decision"]:
            self.W.act(actor, o, self)


class World:
    def __init__(self, case: dict, env: SIM.Environment, rehearsing: bool, ctx: Ctx) -> None:
        self.case, self.env, self.real, self.ctx = case, env, rehearsing, ctx
        self.notes: list = []
        self.looks: list = []
        self.depth = 0
        self.count = 0
        self.done = 0
        self.notices: list = []
        self.earth = case.get("earth", False)
        if self.earth:
            UP.add_stage_variable("distance_units", "nmi")
            UP.add_stage_variable("altitude_units", "ft")
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("intersection_model", get_intersection_locations)
        if case["manager"]:
            if case["manager"] == "stepped":
                manager: Any = UP.SteppedMotionManager(0.5, max_empty_events=4)
            else:
                manager = UP.SensorMotionManager(
                    subdivide_intersection if self.earth else cartesian_linear_intersection
                )
            UP.add_stage_variable("motion_manager", manager)
            add_sensor(env, manager, {"actor": False, "r": 6.0}, 0, self.place(5.0, 0.0), self.notices)
        self.desk = SIM.Resource(env, 1)
        self.events = [UP.Event(rehearsal_time_to_complete=1.0), UP.Event(rehearsal_time_to_complete=0.5)]
        self.classes: dict[str, type] = {
            f"T{k}": type(f"T{k}", (Worker,), {"W": self, "k": k}) for k in range(N_TASKS)
        }
        self.classes["D"] = type("D", (Chooser,), {"W": self, "DO_NOT_HOLD": case["skip"]})
        self.classes["END"] = Final
        names = [f"T{k}" for k in range(N_TASKS)]
        links = {
            n: UP.TaskLinks(
                default=(names + ["END"])[d], allowed=[*names, "D", "END"][: 5 - len(n + str(d)) % 2]
            )
            for n, d in zip([*names, "D"], case["links"])
        }
        if links["D"].default == "D":
            raise AssertionError
        self.links = {**links, "END": UP.TaskLinks(default=None, allowed=[])}
        self.actors = []
        for i, d in enumerate(case["actors"]):
            a = (Rover if self.earth else Hero)(
                name=f"hero{i}",
                debug_log=d["debug"],
                fixed=i,
                loc=self.place(0.0, float(i)),
                inv={"a": i},
                data=Data(i),
                tray={"capacity": 4},
                fuel={"capacity": 10.0, "init": 4.0},
                shelf={"low": {"capacity": 2}, "can": {"kind": SIM.Container, "init": 3}},
                initial_knowledge={"list": [1]},
            )
            for net in ("main", "side"):
                a.add_task_network(UP.TaskNetwork(net, self.classes, self.links))
            a.has_nucleus = d["nucleus"]
            if d["nucleus"]:
                UP.TaskNetworkNucleus(actor=a).add_network("main", ["n", "seen", "lin2"])
            self.actors.append(a)
        self.idle = [UP.Task() for _ in self.actors]
        self.inst = [self.classes[f"T{k}"]() for k in range(N_TASKS)]
        for t in self.inst:
            t._set_network_name("main")
        self.subs: list[Any] = [None, None]

    # -- helpers ------------------------------------------------------------

    def index(self, actor: Any) -> int:
        return int(actor.fixed)

    def other(self, actor: Any) -> Any:
        return self.actors[1 - self.index(actor)]

    def note(self, actor: Any, *what: Any) -> None:
        if not self.depth:
            self.notes.append([self.env.now, self.index(actor), *what])

    def begin(self) -> None:
        """A task starts."""
        self.count += 1
        if self.depth and self.count > PATH_LIMIT:
            raise UP.RulesError("the path is too long")

    # -- what takes no time ---------------------------------------------------

    def act(self, actor: Any, o: dict, task: Any) -> None:
        try:
            getattr(self, "act_" + o["act"])(actor, o, task)
        except REFUSED as e:
            self.note(actor, "refused", o["act"], type(e).__name__)

    def act_set(self, actor: Any, o: dict, task: Any) -> None:
        setattr(actor, ["n", "quiet", "tagged", "late", "maybe"][o["s"] % 5], o["v"])

    def place(self, x: float, y: float) -> Any:
        """On the plane, or in minutes of arc."""
        return UP.GeodeticLocation(y / 60, x / 60) if self.earth else UP.CartesianLocation(x, y)

    def act_flowset(self, actor: Any, o: dict, task: Any) -> None:
        setattr(actor, FLOWS[o["s"] % 4], float(o["v"]))

    def act_append(self, actor: Any, o: dict, task: Any) -> None:
        actor.bag.append(o["v"])
        if o["s"] % 2:
            actor.bag = [*actor.bag]

    def act_jump(self, actor: Any, o: dict, task: Any) -> None:
        actor.loc = self.place(float(o["v"]), 1.0)

    def act_on(self, actor: Any, o: dict, task: Any) -> None:
        actor.activate_linear_state(state=FLOWS[o["s"] % 4], rate=float(o["v"]) - 1.5, task=task)

    def act_off(self, actor: Any, o: dict, task: Any) -> None:
        actor.deactivate_state(state=FLOWS[o["s"] % 4], task=task)

    def act_go(self, actor: Any, o: dict, task: Any) -> None:
        way = [self.place(4.0 * o["v"], 0.0), self.place(12.0, float(o["s"]))]
        actor.activate_location_state(state="loc", speed=1.0 + o["s"] % 3, waypoints=way, task=task)

    def act_stop(self, actor: Any, o: dict, task: Any) -> None:
        actor.deactivate_all_states(task=task)

    def act_unmimic(self, actor: Any, o: dict, task: Any) -> None:
        actor.deactivate_all_mimic_states(task=task)

    def act_item(self, actor: Any, o: dict, task: Any) -> None:
        actor.inv["abc"[o["s"] % 3]] = o["v"]

    def act_field(self, actor: Any, o: dict, task: Any) -> None:
        if o["s"] % 2:
            actor.data.a = o["v"]
        else:
            actor.data.b = "xyz"[o["v"] % 3]

    def act_know(self, actor: Any, o: dict, task: Any) -> None:
        actor.set_knowledge(NAMES[o["s"] % 3], o["v"], overwrite=o["s"] % 2 == 0)

    def act_knowlist(self, actor: Any, o: dict, task: Any) -> None:
        actor.get_knowledge("list").append(o["v"])

    def act_forget(self, actor: Any, o: dict, task: Any) -> None:
        actor.clear_knowledge(NAMES[o["s"] % 3])

    def act_newevent(self, actor: Any, o: dict, task: Any) -> None:
        actor.create_knowledge_event(name=NAMES[o["s"] % 3], rehearsal_time_to_complete=1.0)

    def act_succeed(self, actor: Any, o: dict, task: Any) -> None:
        actor.succeed_knowledge_event(name=NAMES[o["s"] % 3], v=o["v"])

    def act_queue(self, actor: Any, o: dict, task: Any) -> None:
        net = "main" if o["s"] % 3 else "side"
        if o["s"] % 2:
            actor.clear_task_queue(net)
        actor.set_task_queue(net, [f"T{(o['v'] + i) % N_TASKS}" for i in range(1 + o["s"] % 3)])

    def act_unqueue(self, actor: Any, o: dict, task: Any) -> None:
        actor.clear_task_queue("main")

    def act_marker(self, actor: Any, o: dict, task: Any) -> None:
        if o["v"] % 3 == 2:
            task.clear_marker()
        else:
            task.set_marker(
                f"m{o['v']}",
                [UP.InterruptStates.END, UP.InterruptStates.IGNORE, UP.InterruptStates.RESTART][o["s"] % 3],
            )

    def act_log(self, actor: Any, o: dict, task: Any) -> None:
        actor.log(f"says {o['v']}")

    def act_seen(self, actor: Any, o: dict, task: Any) -> None:
        actor.seen = o["v"] % 2 == 0

    def act_blink(self, actor: Any, o: dict, task: Any) -> None:
        if o["s"] % 2:
            self.act_go(actor, o, task)
        actor.seen = False
        actor.seen = True

    def act_record(self, actor: Any, o: dict, task: Any) -> None:
        actor.record_state(["n", "tagged", "lin1", "share", "loc", "inv"][o["s"] % 6])

    def act_mimic(self, actor: Any, o: dict, task: Any) -> None:
        if not actor._is_rehearsing:
            actor.activate_mimic_state(
                self_state="mirror", mimic_state="lin1", mimic_actor=self.other(actor), task=task
            )

    def act_drop(self, actor: Any, o: dict, task: Any) -> None:
        if actor.has_task_network("side"):
            actor.delete_task_network("side")
        else:
            actor.add_task_network(UP.TaskNetwork("side", self.classes, self.links))

    # -- rehearsing -----------------------------------------------------------

    def world(self) -> dict:
        base = UP.UpstageBase()
        queue = sorted((t, p, i) for t, p, i, _ in self.env._queue)
        return {
            "now": self.env.now,
            "events to come": [list(q) for q in queue],
            "actors": [a.name for a in base.get_actors()],
            "groups": {
                k: [getattr(x, "name", "?") for x in v] for k, v in base.get_all_entity_groups().items()
            },
            "monitored": [type(x).__name__ for x in base.get_monitored()],
            "recorded": len(base.get_recorded()),
            "heroes": [calm(a) for a in self.actors],
            # an event that an outer rehearsal has gone through is not real
            "events": [e.is_complete() for e in self.events] if not self.depth else [],
            "desk": [self.desk.count, len(self.desk.queue)],
            "notices": [[t, n, what] for t, n, _, what, _ in self.notices],
        }

    def markers(self) -> list:
        return [
            [t.get_marker(), t.get_marker_time(), t._interrupt_action.value, t._rehearsing] for t in self.inst
        ]

    def rehearse(self, o: dict, actor: Any, task: Any) -> None:
        """Rehearse, or leave it. Either way the same things are looked at."""
        if self.depth >= DEPTH:
            return
        if o["look"] and not self.depth:
            self.looks.append([[state(a, s) for s in STATE_NAMES] for a in self.actors])
        if not self.real:
            return
        before, objects, marks = self.world(), [insides(a) for a in self.actors], self.markers()
        environ = [t.env for t in self.inst] + ([task.env] if task is not None else [])
        self.depth += 1
        count = self.count
        if self.depth == 1:
            self.count = 0
        end = "returned"
        try:
            self.perform(o, actor, task)
        except REFUSED as e:
            end = type(e).__name__
            if self.depth > 1 and "too long" in str(e):
                raise
        finally:
            self.depth -= 1
            if self.depth == 0:
                self.count = count
        after, later = self.world(), [insides(a) for a in self.actors]
        d = difference(before, after)
        if d:
            raise Violation(f"rehearsing ({o['how']}) changed {d}")
        for i, (x, y) in enumerate(zip(objects, later)):
            for k in x:
                if x[k] is not y[k]:
                    raise Violation(f"rehearsing ({o['how']}) replaced the {k} of hero {i}")
        if marks != self.markers():
            raise Violation(f"rehearsing left marks on the task: {marks} and {self.markers()}")
        for x, t in zip(environ, self.inst + [task]):
            if t.env is not x:
                raise Violation("rehearsing left a task in another environment")
        self.done += 1
        self.ctx.label(f"{o['how']} {end}")
        if not self.depth:
            if o["how"] != "copy" and end == "returned":
                self.ctx.label("rehearsed in a task" if task is not None else "rehearsed outside")

    def perform(self, o: dict, actor: Any, task: Any) -> None:
        i = self.index(actor)
        know = {k: v for k, v in o["know"]}
        if o["how"] == "copy":
            self.subs[i] = self.compare(actor, know)
        elif o["how"] == "net":
            if not actor.has_task_network("main"):
                return
            path = [f"T{x % N_TASKS}" if x < 4 else "D" for x in o["path"]]
            end = None if o["end"] is None else ["T0", "T1", "END", "END"][o["end"] % 4]
            if not path and end is None:
                return
            self.subs[i] = actor.rehearse_network("main", path or ["T0"], knowledge=know, end_task=end)
        else:
            k = o["k"] % N_TASKS
            if o["how"] == "self" and isinstance(task, Worker):
                t = task
            elif o["how"] == "kept":
                t = self.inst[k]
            else:
                t = self.classes["D" if o["k"] == N_TASKS else f"T{k}"]()
                t._set_network_name("main")
            if o["sub"] and self.depth == 1 and self.subs[i] is not None:
                sub = self.subs[i]
                if o["sub"] == "cloned":
                    self.subs[i] = t.rehearse(actor=sub, cloned_actor=True, knowledge=know)
                else:
                    before = [calm(sub), sub.env.now]
                    self.subs[i] = t.rehearse(actor=sub, knowledge=know)
                    d = difference(before, [calm(sub), sub.env.now])
                    if d:
                        raise Violation(f"rehearsing an understudy changed the understudy: {d}")
            else:
                self.subs[i] = t.rehearse(actor=actor, knowledge=know)
        for x in o["after"]:
            self.act(self.subs[i], x, self.idle[i])

    def compare(self, actor: Any, know: dict) -> Any:
        """Look at an understudy before it does anything."""
        seen: dict = {}

        class Look(UP.Task):
            def task(self, *, actor: Any) -> Generator:
                seen.update(
                    calm(actor), now=self.env.now, title=actor.title, kind=actor.kind(), motto=actor.motto()
                )
                seen["moving"] = {s: state(actor, s) for s in (*FLOWS, "loc")}
                seen["known"] = [actor.get_knowledge(k) for k in [*NAMES, "list"]]
                seen["parts"] = [getattr(actor, s) for s in ("bag", "tray", "pick", "fuel", "mail")]
                seen["modes"] = actor._mail__mode_names_ if hasattr(actor, "_mail__mode_names_") else None
                for x in (actor.tray, actor.pick, actor.mail, actor.shelf["low"]):
                    x.items.append(Token())
                return
                yield

        real = calm(actor)
        real_parts = [getattr(actor, s) for s in ("bag", "tray", "pick", "fuel", "mail")]
        real_known = [actor.get_knowledge(k) for k in [*NAMES, "list"]]
        u = Look().rehearse(actor=actor, knowledge=know)
        moving = self.looks[-1][self.index(actor)] if not actor._is_rehearsing else None
        for k, v in know.items():
            real["knowledge"][k] = [freeze(v), k]
        if self.depth > 1:
            # what an understudy's events went through is not real
            for view in (real, seen):
                view["knowledge"] = {
                    k: v if isinstance(v[0], (int, list)) and v[0] not in EVENTS else k
                    for k, v in view["knowledge"].items()
                }
        # nobody waits at the resources of an understudy
        for s in ("tray", "pick", "fuel", "mail"):
            real["states"][s][-2:] = seen["states"][s][-2:]
        real["states"]["shelf"] = {k: [*v[:-2], 0, 0] for k, v in real["states"]["shelf"].items()}
        d = difference(
            {k: v for k, v in real.items() if k not in ("running",)},
            {k: seen[k] for k in real if k != "running"},
        )
        if d:
            raise Violation(f"the understudy is no faithful copy (actor, understudy): {d}")
        if seen["now"] != actor.env.now:
            raise Violation(f"the understudy starts at {seen['now']} instead of {actor.env.now}")
        if [seen["title"], seen["kind"], seen["motto"]] != [f"blue {real['states']['n']}", "Hero", "on"]:
            raise Violation("the understudy has other properties")
        if moving is not None:
            values = dict(zip(STATE_NAMES, moving))
            for s in (*FLOWS, "loc"):
                if values[s] != "unset" and values[s] != seen["moving"][s]:
                    raise Violation(f"the understudy has {s} = {seen['moving'][s]}, the actor {values[s]}")
        for s, a, b in zip(("bag", "tray", "pick", "fuel", "mail"), real_parts, seen["parts"]):
            if a is b:
                raise Violation(f"the understudy shares {s} with the actor")
        for k, a, b in zip([*NAMES, "list"], real_known, seen["known"]):
            if a is b and isinstance(a, (list, UP.Event)):
                raise Violation(f"the understudy shares the knowledge {k} with the actor")
        return u

    # -- what happens -----------------------------------------------------------

    def driver(self, n: int) -> Generator:
        for o in self.case["scripts"][n]:
            what = o["op"]
            actor = self.actors[o["a"] % 2]
            i = self.index(actor)
            if what == "wait":
                yield self.env.timeout(o["t"])
            elif what == "start":
                net = "main" if o["v"] % 3 else "side"
                if actor.has_task_network(net) and (i, net) not in self.started:
                    self.started.add((i, net))
                    actor.start_network_loop(net, f"T{o['v'] % N_TASKS}")
            elif what == "run":
                self.inst_runs.append((self.inst[o["v"] % N_TASKS].run(actor=actor), o["v"] % N_TASKS, actor))
            elif what == "int":
                net = "main" if o["v"] % 3 else "side"
                data = actor.get_running_tasks().get(net)
                if data is not None and data.process.is_alive and data.name != "END":
                    data.process.interrupt(cause=o["v"])
            elif what == "supply":
                [actor.tray, actor.pick, actor.mail][o["s"] % 3].put(o["v"])
            elif what == "pour":
                actor.fuel.put(1) if o["s"] % 2 else actor.fuel.get(1)
            elif what == "signal":
                try:
                    self.events[o["s"] % 2].succeed(v=o["v"])
                except REFUSED:
                    pass
            elif what == "rehearse":
                self.rehearse(o, actor, None)
            elif what == "do":
                self.act(actor, o, self.idle[i])

    def run(self) -> dict:
        self.started: set = set()
        self.inst_runs: list = []
        for n in range(len(self.case["scripts"])):
            self.env.process(self.driver(n))
        end: Any = "ran"
        try:
            drain(self.env, self.env.now + END, 30000)
        except Violation:
            raise
        except Exception as e:
            end = ["stopped", type(e).__name__]
        self.looks.append([[state(a, s) for s in STATE_NAMES] for a in self.actors])
        table = create_table()
        where = create_location_table()
        return {
            "end": end,
            "notes": self.notes,
            "looks": self.looks,
            "world": self.world(),
            "tables": [[freeze(list(r)) for r in table[0]], [freeze(list(r)) for r in where[0]]],
            "markers": self.markers(),
        }


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------

INSTANT = [
    "set", "set", "append", "jump", "on", "on", "off", "go", "go", "stop", "unmimic", "item", "field", "know", "knowlist",
    "forget", "newevent", "succeed", "queue", "unqueue", "marker", "log", "seen", "record", "mimic", "flowset", "drop", "blink",
]  # fmt: skip
T = st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0])


@functools.cache
def instant() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {"op": st.just("do"), "act": st.sampled_from(INSTANT), "s": st.integers(0, 5), "v": st.integers(0, 4)}
    )


@functools.cache
def know() -> st.SearchStrategy:
    return st.lists(st.tuples(st.sampled_from(NAMES), st.integers(5, 7)), max_size=2)


@functools.cache
def rehearsal() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "op": st.just("rehearse"),
            "a": st.integers(0, 1),
            "how": st.sampled_from(["task", "kept", "self", "net", "net", "copy"]),
            "k": st.sampled_from([0, 1, 2, 0, 1, 2, N_TASKS]),
            "path": st.lists(st.integers(0, 4), max_size=3),
            "end": st.one_of(st.none(), st.integers(0, 3)),
            "know": know(),
            "sub": st.sampled_from([None, None, None, "cloned", "again"]),
            "look": st.just(True),
            "after": st.lists(instant(), max_size=2),
        }
    )


@functools.cache
def tree() -> st.SearchStrategy:
    leaf = st.fixed_dictionaries(
        {
            "k": st.sampled_from(
                [
                    "wait",
                    "wait",
                    "get",
                    "filter",
                    "put",
                    "shelf",
                    "drink",
                    "fill",
                    "hold",
                    "event",
                    "know",
                    "know",
                ]
            ),
            "t": T,
            "v": st.integers(0, 3),
            "in": st.just([]),
        }
    )

    def join(inner: st.SearchStrategy, n: int) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "k": st.sampled_from(["any", "any", "all"]),
                "t": st.just(0.0),
                "v": st.just(0),
                "in": st.lists(inner, max_size=n),
            }
        )

    return st.one_of(leaf, join(leaf, 3), join(st.one_of(leaf, leaf, join(leaf, 2)), 3))


@functools.cache
def task() -> st.SearchStrategy:
    wait = st.fixed_dictionaries(
        {"op": st.just("wait"), "t": T, "u": st.sampled_from([None, None, None, "min", "hr", "s"])}
    )
    first = st.fixed_dictionaries(
        {"op": st.just("wait"), "t": st.sampled_from([0.25, 0.5, 1.0, 2.0]), "u": st.none()}
    )
    step = st.one_of(
        instant(),
        instant(),
        instant(),
        wait,
        wait,
        st.fixed_dictionaries({"op": st.just("join"), "e": tree(), "cancel": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("join"), "e": tree(), "cancel": st.booleans()}),
        st.fixed_dictionaries(
            {
                "op": st.just("routine"),
                "windowed": st.sampled_from([False, False, True]),
                "t": T,
                "take": st.booleans(),
            }
        ),
        rehearsal(),
        st.sampled_from(
            [{"op": "rules", "raw": False}, {"op": "rules", "raw": True}, {"op": "wait", "t": 1.0, "u": None}]
        ),
    )
    rest = seqs(step, 9)
    before = st.lists(instant(), max_size=2)
    return st.tuples(before, first, rest).map(lambda x: [*x[0], x[1], *x[2]])


@functools.cache
def case() -> st.SearchStrategy:
    a, s, v = st.integers(0, 1), st.integers(0, 5), st.integers(0, 5)
    base = {"a": a, "s": s, "v": v}
    wait = st.fixed_dictionaries({"op": st.just("wait"), "a": a, "t": T})
    drive = st.one_of(
        wait,
        wait,
        st.fixed_dictionaries(
            {"op": st.sampled_from(["start", "start", "run", "int", "supply", "pour", "signal"]), **base}
        ),
        st.fixed_dictionaries({"op": st.just("start"), **base}),
        st.builds(lambda o, a: {**o, "a": a}, instant(), a),
        rehearsal(),
        rehearsal(),
    )
    return st.fixed_dictionaries(
        {
            "start": st.sampled_from([0.0, 0.0, 2.5]),
            "unit": st.sampled_from([None, None, "hr", "min"]),
            "manager": st.sampled_from([None, "sensor", "sensor", "stepped"]),
            "earth": st.sampled_from([False, False, True]),
            "skip": st.booleans(),
            "links": st.lists(st.integers(0, 3), min_size=4, max_size=4),
            "actors": st.lists(
                st.fixed_dictionaries(
                    {"debug": st.sampled_from([True, True, False]), "nucleus": st.booleans()}
                ),
                min_size=2,
                max_size=2,
            ),
            "tasks": st.lists(task(), min_size=N_TASKS, max_size=N_TASKS),
            "decision": st.lists(
                st.fixed_dictionaries(
                    {
                        "op": st.just("do"),
                        "act": st.sampled_from(["queue", "set", "know", "item", "log", "on"]),
                        "s": st.integers(0, 5),
                        "v": st.integers(0, 4),
                    }
                ),
                max_size=2,
            ),
            "scripts": st.lists(seqs(drive, 20), min_size=1, max_size=2),
        }
    )


def run(case: dict, rehearsing: bool, ctx: Ctx) -> tuple[dict, World]:
    with UP.EnvironmentContext(initial_time=case["start"]) as env:
        if case["unit"]:
            UP.add_stage_variable("time_unit", case["unit"])
        w = World(case, env, rehearsing, ctx)
        return w.run(), w


def check(case: dict, ctx: Ctx) -> None:
    got, w = run(case, True, ctx)
    want, _ = run(case, False, ctx)
    d = difference(want, got)
    if d:
        raise Violation(f"the run without the rehearsals and the run with them differ in {d}")
    ctx.nontrivial(w.done > 0 and any(x[2] == "end" for x in w.notes))
    if got["end"] != "ran":
        ctx.label("run stopped by " + got["end"][1])
    for x in w.notes:
        ctx.label(x[2])


# ---------------------------------------------------------------------------
# clones
# ---------------------------------------------------------------------------

GIVEN = {
    "n": [7, 8],
    "quiet": ["q"],
    "bag": [[5], []],
    "lin1": [50.0],
    "fixed": [9],
    "seen": [False],
    "share": [1.5],
}


def clone_case() -> st.SearchStrategy:
    wait = st.fixed_dictionaries({"op": st.just("wait"), "t": T})
    step = st.one_of(instant(), instant(), wait)
    on = st.sampled_from([True, True, False])
    who = st.integers(0, 2)
    return st.fixed_dictionaries(
        {
            "start": st.sampled_from([0.0, 2.5]),
            "manager": st.sampled_from([None, "sensor"]),
            "earth": st.sampled_from([False, False, True]),
            "debug": on,
            "nucleus": st.booleans(),
            "before": seqs(step, 12),
            "clones": st.lists(
                st.fixed_dictionaries(
                    {
                        "env": st.sampled_from([None, None, 0.0, 1.5]),
                        "know": know(),
                        "states": st.lists(
                            st.sampled_from(sorted(GIVEN)).flatmap(
                                lambda k: st.tuples(st.just(k), st.sampled_from(GIVEN[k]))
                            ),
                            max_size=2,
                        ),
                        "of": who,
                    }
                ),
                min_size=1,
                max_size=3,
            ),
            "after": seqs(st.builds(lambda o, w: {**o, "who": w}, step, who), 12),
        }
    )


def run_clones(c: dict, cloning: bool, ctx: Ctx) -> dict:
    made = {
        "manager": c["manager"],
        "earth": c.get("earth", False),
        "links": [1, 2, 0, 0],
        "skip": False,
        "tasks": [[]] * N_TASKS,
        "decision": [],
        "actors": [{"debug": c["debug"], "nucleus": c["nucleus"]}] * 2,
    }
    with UP.EnvironmentContext(initial_time=c["start"]) as env:
        w = World(made, env, cloning, ctx)
        actor = w.actors[0]

        def do(a: Any, o: dict, task: Any) -> None:
            if o["op"] == "do":
                w.act(a, o, task)
            elif a is actor:
                env.run(until=env.now + o["t"]) if o["t"] else None
            else:
                a.env.now += o["t"]

        for o in c["before"]:
            do(actor, o, w.idle[0])
        clones: list = []
        # the flows are brought up to date in both runs
        if "unset" in [state(actor, f) for f in (*FLOWS, "loc")]:
            ctx.label("a motion has gone past its end")
            return {}
        if cloning:
            for d in c["clones"]:
                source = [actor, *clones][d["of"] % (len(clones) + 1)]
                clones.append(one_clone(source, d, [actor, *clones], w))
        tasks = [w.idle[0]]
        for x in clones:
            tasks.append(UP.Task())
            tasks[-1].env = x.env
        for o in c["after"]:
            who = o["who"] % (len(c["clones"]) + 1)
            if not cloning and who:
                continue
            everyone = [actor, *clones]
            before = [calm(x) for x in everyone]
            depth, w.depth = w.depth, int(who > 0)
            try:
                do(everyone[who], o, tasks[who])
            finally:
                w.depth = depth
            for k, x in enumerate(everyone):
                if k == who or x is actor and o["op"] == "wait":
                    continue
                diff = difference(before[k], calm(x))
                if diff:
                    raise Violation(f"{o} on {everyone[who].name} changed {x.name}: {diff}")
        flows = {f: state(actor, f) for f in (*FLOWS, "loc")}
        return {"world": w.world(), "flows": flows, "notes": w.notes}


def one_clone(source: Any, d: dict, everyone: list, w: World) -> Any:
    know, states = dict(d["know"]), {k: copy.deepcopy(v) for k, v in d["states"]}
    new_env = None if d["env"] is None else MockEnvironment(now=source.env.now + d["env"])
    kw = {} if new_env is None else {"new_env": new_env}
    want = calm(source)
    want["states"].update({f: clone_state(source, f) for f in (*FLOWS, "loc")})
    others = [calm(x) for x in everyone]
    world = w.world()
    clone = source.clone(knowledge=know, **kw, **states)
    for x, before in zip(everyone, others):
        diff = difference(before, calm(x))
        if diff:
            raise Violation(f"cloning {source.name} changed {x.name}: {diff}")
    diff = difference(world, w.world())
    if diff:
        raise Violation(f"cloning {source.name} changed the simulation: {diff}")
    if type(clone) is not type(source) or clone in everyone:
        raise Violation(f"the clone of {source.name} is {clone!r}")
    if any(x.name == clone.name for x in everyone):
        raise Violation(f"the clone of {source.name} has a name that is taken: {clone.name}")
    if new_env is not None and clone.env is not new_env:
        raise Violation(f"the clone of {source.name} is not in the environment it was given")
    if new_env is None and (clone.env.now != source.env.now or clone.env is source.env):
        raise Violation(f"the clone of {source.name} is at {clone.env.now}, not {source.env.now}")
    for k, v in states.items():
        want["states"][k] = freeze(v)
    for k, v in know.items():
        want["knowledge"][k] = [freeze(v), k]
    got = calm(clone)
    got["states"].update({f: clone_state(clone, f) for f in (*FLOWS, "loc")})
    for k in ("states", "knowledge", "queues", "networks", "histories", "log"):
        diff = difference(want[k], got[k])
        if diff:
            raise Violation(f"{k} of the clone of {source.name} differ: {diff}")
    w.done += 1
    return clone


def clone_state(clone: Any, name: str) -> Any:
    """The value as it was last brought up to date."""
    return freeze(clone.__dict__.get(name))


def check_clones(c: dict, ctx: Ctx) -> None:
    got, want = run_clones(c, True, ctx), run_clones(c, False, ctx)
    d = difference(want, got)
    if d:
        raise Violation(f"the run without the clones and the run with them differ in {d}")
    ctx.nontrivial(any(o["op"] == "do" for o in c["before"]) and any(o["op"] == "do" for o in c["after"]))
    ctx.label(f"{len(c['clones'])} clones")
    for x in c["clones"]:
        if x["states"]:
            ctx.label("new states")
        if x["know"]:
            ctx.label("knowledge given")
        if x["env"] is not None:
            ctx.label("environment given")


PROP = Prop(
    "C14",
    rule="at least one rehearsal was made in a run in which a task really ended, or things were done before and after cloning",
    parts=[
        Part("apart", case, check, quick=5000, thorough=120000),
        Part("clones", clone_case, check_clones, quick=2500, thorough=50000),
    ],
)
