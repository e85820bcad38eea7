"""C27: what the stepped manager says is in range, is in range at every step."""

from __future__ import annotations

import functools
import math
from typing import Any, Generator

from upstage_des.geography import WGS84, Spherical

from harness import geo_ref as G
from harness import motion as M
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, expect_raises, seqs, st

MODELS = {"Spherical": Spherical, "WGS84": WGS84}
NEAR = 1e-7  # of times


# ---------------------------------------------------------------------------
# where things are
# ---------------------------------------------------------------------------


class Leg:
    """A straight leg, or one over the earth (lat, lon, metres)."""

    def __init__(self, start: tuple, end: tuple, model: str | None, unit: float) -> None:
        self.start, self.end, self.model = start, end, model
        if model is None:
            self.length = math.dist(start, end)
            return
        self.metres = self.bearing = 0.0
        if start[:2] != end[:2]:
            if model == "Spherical":
                self.metres, self.bearing = G.ground(start, end), G.course(start, end)
            else:
                self.metres, self.bearing = WGS84.distance_and_bearing(start[:2], end[:2], units="m")
        self.length = self.metres / unit

    def at(self, x: float) -> tuple:
        if x in (0.0, 1.0) or not self.length:
            return self.end if x == 1.0 else self.start
        if self.model is None:
            return tuple(a + x * (b - a) for a, b in zip(self.start, self.end))
        h = self.start[2] + x * (self.end[2] - self.start[2])
        if self.model == "Spherical":
            return (*G.travel(self.start, self.bearing, x * self.metres / G.R), h)
        return (*G.wgs_direct(self.start, self.bearing, x * self.metres)[:2], h)


class Ground:
    """Cartesian places are [x, y, z]; those on earth are east and north of a base, in 10 km."""

    def __init__(self, case: dict) -> None:
        self.model, self.base = case["earth"], case["base"]
        self.unit = G.METRES[case["units"][0]]

    def point(self, p: Any, here: Any = None) -> tuple:
        if p == "here":
            return here
        e, n, h = p
        if self.model is None:
            return (float(e), float(n), float(h))
        far = 10000.0 * math.hypot(e, n)
        place = G.travel(self.base, math.degrees(math.atan2(e, n)), far / G.R) if far else tuple(self.base)
        return (*place, 1000.0 * abs(h))

    def leg(self, start: tuple, end: tuple) -> Leg:
        return Leg(start, end, self.model, self.unit)

    def apart(self, a: tuple, b: tuple) -> float:
        if self.model is None:
            return math.dist(a, b)
        return math.dist(G.ecef(a, self.model), G.ecef(b, self.model)) / self.unit


class Life(M.Track):
    """Where one thing is, and what happens to it."""

    def __init__(self, geo: Ground, thing: dict, n: int, t0: float) -> None:
        self.n, self.marks, self.fast = n, [], 0.0
        super().__init__(t0, geo, {**thing, "script": []})
        self.places: list = [self.pos]

    def live(self, start: float, script: list) -> list:
        # no two things begin their scripts at once
        self.plan, self.t = [("wait", 0.0131 * (self.n + 1))], start + 0.0131 * (self.n + 1)
        for o in script:
            getattr(self, "_" + o["op"])(o)
        return self.plan

    def _hide(self, o: dict) -> None:
        super()._hide(o)
        self.marks.append((self.t, "hide", self.n, None))

    def _show(self, o: dict) -> None:
        super()._show(o)
        self.marks.append((self.t, "show", self.n, None))

    def _reach(self, o: dict) -> None:
        self.plan.append(("reach", o["r"]))
        self.marks.append((self.t, "reach", self.n, o["r"]))

    def _put(self, o: dict) -> None:
        super()._put(o)
        self.places.append(self.pos)
        self.marks.append((self.t, "put", self.n, None))

    def _go(self, o: dict) -> None:
        self.marks.append((self.t, "go", self.n, None))
        super()._go(o)
        self.flights[-1].goal = self.pos
        self.places.append(self.flights[-1])
        self.fast = max(self.fast, o["v"])
        f = self.flights[-1]
        for a, b, leg in f.legs:
            # a waypoint passed a moment ago (1e-4) is still shown
            if leg.model and b - a < 3e-4 and leg.start[2] != leg.end[2]:
                raise M.TooClose
            if leg.model and leg.metres:
                self.fast = max(self.fast, o["v"] * abs(leg.end[2] - leg.start[2]) / leg.metres)

    def pos_at(self, t: float, n: int) -> tuple[tuple, bool]:
        """After so many moves; and whether it was put there."""
        place = self.places[n]
        if isinstance(place, M.Flight):
            return (M.where(place, t) if t < place.stop else place.goal), False
        return place, True


class World:
    """What should be in view of what, and when that changes."""

    def __init__(self, case: dict, geo: Ground, lives: list[Life]) -> None:
        self.case, self.geo, self.lives = case, geo, lives
        self.things = case["things"]
        self.reach = {n: x["reach"] for n, x in enumerate(self.things)}
        self.seen = {n: x["detect"] is not False for n, x in enumerate(self.things)}
        self.moved = [0] * len(lives)
        self.sensors: list[int] = []
        self.listed: list[int] = []
        self.view: set[tuple[int, int]] = set()
        self.told: list[tuple] = []
        self.looks: list[tuple] = []  # (time, what is in view then)
        self.running: float | None = None  # when the next step is

    def sees(self, s: int, d: int, t: float) -> bool:
        p, still = self.lives[s].pos_at(t, self.moved[s])
        q, here = self.lives[d].pos_at(t, self.moved[d])
        check = self.things[s]["checker"]
        off = q[0] - check if check is not None else self.geo.apart(p, q) - self.reach[s]
        cartesian = self.geo.model is None
        if cartesian and (still or check is not None) and here and off == 0:
            return check is None  # the edge belongs to it
        if cartesian:
            tol = 1e-6 * (1 + t) * (1 + self.lives[s].fast + self.lives[d].fast)
        else:
            tol = 2.0 / self.geo.unit + 1.1e-4 * (self.lives[s].fast + self.lives[d].fast)
            tol = tol / 100 * self.geo.unit / 1000 if check is not None else tol  # degrees
        if not (cartesian and still and here and abs(off) > 1e-9) and abs(off) < tol:
            raise M.TooClose
        return off > 0 if check is not None else off < 0

    def tell(self, t: float, s: int, d: int, what: str) -> None:
        self.told.append((t, s, d, what))
        (self.view.add if what == "in" else self.view.discard)((s, d))

    def look(self, t: float, at: list[int]) -> None:
        new = []
        for s in self.sensors:
            for d in at:
                if s == d:
                    continue
                was, now = (s, d) in self.view, self.seen[d] and self.sees(s, d, t)
                if was != now:
                    self.tell(t, s, d, "in" if now else "out")
                    new.append((s, d, "in" if now else "out"))
        for s, d, what in new:
            if self.things[s]["react"] == what and self.things[d]["kind"] != "thing":
                if self.things[d]["detect"] is not None:
                    self.hide(t, d)
        self.looks.append((t, set(self.view)))

    def hide(self, t: float, d: int) -> None:
        self.seen[d] = False
        if self.things[d]["kind"] != "thing":
            for s, x in sorted(self.view):
                if x == d:
                    self.tell(t, s, d, "out")
        self.looks.append((t, set(self.view)))

    def happen(self, t: float, what: str, n: int, value: Any) -> None:
        if what in ("put", "go"):
            self.moved[n] += 1
        if what == "hide":
            self.hide(t, n)
        elif what == "show":
            self.seen[n] = True
            if n in self.listed and self.things[n]["kind"] != "thing":
                self.look(t, [n])
        elif what == "reach":
            self.reach[n] = value
        elif what == "list":
            self.listed.append(n)
        elif what == "sense":
            self.sensors.append(n)
        if what == "go" and n not in self.listed:
            self.listed.append(n)
        if what in ("go", "run") and self.running is None:
            self.running = t + self.case["dt"]

    def live(self, marks: list, last: float, until: float | None) -> float:
        """Run a phase; its end."""
        marks, empty = sorted(marks, key=lambda m: m[0]), 0
        for a, b in zip(marks, marks[1:]):
            if b[0] - a[0] < NEAR and a[2] != b[2]:
                raise M.TooClose
        fast = list(self.case["fast"]) if until is not None else []
        steps: list[list] = [[last + 1, f["rate"], f["n"]] for f in fast]
        for s, f in zip(steps, fast):
            s[0] = self.case["t0"] + f["rate"]
        while True:
            due = [(s[0], k) for k, s in enumerate(steps)]
            if self.running is not None:
                due.append((self.running, -1))
            nxt, k = min(due, default=(math.inf, -1))
            if marks and marks[0][0] <= nxt:
                if nxt - marks[0][0] < NEAR:
                    raise M.TooClose
                self.happen(*marks.pop(0))
                continue
            if until is not None and nxt > until:
                return until
            if self.running is None and until is None:
                return last
            if any(abs(nxt - m) < NEAR for m in [last, until or 0.0]):
                raise M.TooClose
            if k >= 0:
                self.look(nxt, [n for n in self.listed if n == steps[k][2]])
                steps[k][0] += steps[k][1]
                continue
            self.look(nxt, self.listed)
            empty = empty + 1 if nxt > last and until is None else 0
            if empty >= self.case["empty"]:
                self.running = None
                return nxt
            self.running += self.case["dt"]


# ---------------------------------------------------------------------------
# the real things
# ---------------------------------------------------------------------------


class Eyes:
    def entity_entered_range(self, entity: Any) -> None:
        self.hear(entity, "in")

    def entity_exited_range(self, entity: Any) -> None:
        self.hear(entity, "out")

    def hear(self, entity: Any, what: str) -> None:
        self.notices.append((self.env.now, self.n, entity.n, what))
        if self.react == what and isinstance(entity, UP.Actor) and hasattr(entity, "detect"):
            entity.detect = False


class Base(UP.Actor, Eyes):
    n = UP.State(default=0)
    reach = UP.State(default=1.0)
    react = UP.State(default="")
    notices = UP.State(default_factory=list)
    flight = UP.State(default=False)
    end_flight = M.Pilot.end_flight
    entity_entered_range = Eyes.entity_entered_range
    entity_exited_range = Eyes.entity_exited_range
    hear = Eyes.hear


class Post(Base):
    loc = UP.State()


class HiddenPost(Post):
    detect = UP.DetectabilityState(default=True)


class Cart(Base):
    loc = UP.CartesianLocationChangingState()


class HiddenCart(Cart):
    detect = UP.DetectabilityState(default=True)


class Plane(Base):
    loc = UP.GeodeticLocationChangingState(recording=True)


class HiddenPlane(Plane):
    detect = UP.DetectabilityState(default=True)


class Thing(Eyes):
    """Something that is no actor."""

    flight = False

    def __init__(self, env: SIM.Environment, **values: Any) -> None:
        self.env = env
        self.__dict__.update(values)


class NamedThing(Thing):
    def _get_detection_state(self) -> str:
        return "detect"


class SelfThing(Thing):
    def _get_detection_state(self) -> bool:
        return self.detect


def checker(low: float, cartesian: bool) -> Any:
    if cartesian:
        return lambda loc: loc.x > low
    return lambda loc: loc.to_degrees().lat > low


def build(env: SIM.Environment, x: dict, n: int, loc: Any, log: list) -> Any:
    values = {"n": n, "loc": loc, "react": x["react"] or "", "notices": log}
    if x["reach"] is not None:
        values["reach"] = x["reach"]
    if x["detect"] is not None:
        values["detect"] = x["detect"]
    if x["kind"] == "thing":
        values.setdefault("reach", 1.0)
        return {None: Thing, 0: NamedThing, 1: SelfThing}[x["own"] if x["detect"] is not None else None](
            env, **values
        )
    kinds = {
        "actor": (Post, HiddenPost),
        "craft": (Cart, HiddenCart) if isinstance(loc, UP.CartesianLocation) else (Plane, HiddenPlane),
    }
    return kinds[x["kind"]][x["detect"] is not None](name=f"x{n}", **values)


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------


def coord() -> st.SearchStrategy:
    return st.one_of(
        st.integers(-6, 6),
        st.integers(-6000, 6000).map(lambda x: x / 1000),
        st.integers(-6000, 6000).map(lambda x: x / 1000),
    )


def place() -> st.SearchStrategy:
    return st.tuples(coord(), coord(), st.one_of(st.just(0), st.just(0), coord())).map(list)


def radius() -> st.SearchStrategy:
    return st.one_of(st.sampled_from([1, 3, 5.0]), st.floats(0.5, 12).map(lambda x: round(x, 3)))


@functools.cache
def script(kind: str, detect: bool, sensor: bool) -> st.SearchStrategy:
    frac = st.floats(0.01, 0.99).map(lambda x: round(x, 4))
    ops = [
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.77, 3.13])}),
        st.fixed_dictionaries({"op": st.just("put"), "p": place()}),
    ]
    acts: Any = st.just([])
    if detect:
        ops.append(st.sampled_from([{"op": "hide"}, {"op": "show"}, {"op": "show"}]))
        acts = st.lists(st.tuples(frac, st.sampled_from(["hide", "show"])).map(list), max_size=2)
    if sensor:
        ops.append(st.builds(lambda r: {"op": "reach", "r": r}, radius()))
    if kind == "craft":
        go = st.fixed_dictionaries(
            {
                "op": st.just("go"),
                "w": st.lists(st.one_of(*[place()] * 12, st.just("here")), min_size=1, max_size=3),
                "v": st.one_of(st.sampled_from([1, 0.3]), st.floats(0.1, 20).map(lambda x: round(x, 3))),
                "part": st.one_of(st.just(1.0), st.floats(0.01, 1).map(lambda x: round(x, 4))),
                "acts": st.one_of(st.just([]), acts),
                "task": st.booleans(),
            }
        )
        ops += [go] * 3
    return seqs(st.one_of(*ops), 4)


@st.composite
def thing(draw: Any) -> dict:
    kind = draw(st.sampled_from(["craft", "craft", "craft", "actor", "thing"]))
    detect = draw(st.sampled_from([True, True, False, None]))
    reach = draw(st.one_of(st.none(), radius(), radius()))
    late = st.one_of(st.just(0.0), st.floats(0, 4).map(lambda x: round(x, 4)))
    return {
        "kind": kind,
        "at": draw(place()),
        "detect": detect,
        "own": draw(st.integers(0, 1)),
        "reach": reach,
        "sense": draw(late) if reach is not None else None,
        "list": draw(st.one_of(st.none(), late)) if kind == "craft" else draw(late),
        "checker": draw(st.sampled_from([None] * 7 + [0, 0.3])) if reach is not None else None,
        "react": draw(st.sampled_from([None] * 5 + ["in", "out"])) if reach is not None else None,
        "script": draw(script(kind, detect is not None, reach is not None)),
        "more": draw(script(kind, detect is not None, reach is not None)) if draw(st.booleans()) else [],
    }


def case() -> st.SearchStrategy:
    fast = st.fixed_dictionaries(
        {"rate": st.floats(0.05, 2).map(lambda x: round(x, 4)), "n": st.integers(0, 3)}
    )
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 12.5]),
            "earth": st.sampled_from([None, None, "Spherical", "WGS84"]),
            "units": st.sampled_from([["km", "m"], ["nmi", "ft"], ["m", "km"]]),
            "base": st.sampled_from([[0.0, 0.0], [33.5, -84.5], [62.0, 179.9], [-81.0, 20.0]]),
            "dt": st.sampled_from([1.0, 0.37, 0.1931]),
            "empty": st.sampled_from([3, 3, 1, 4]),
            "debug": st.booleans(),
            "run": st.one_of(st.just(0.0), st.none(), st.floats(0, 3).map(lambda x: round(x, 4))),
            "again": st.booleans(),
            "until": st.one_of(st.none(), st.floats(0, 3).map(lambda x: round(x, 4))),
            "fast": st.lists(fast, max_size=1),
            "things": st.lists(thing(), min_size=2, max_size=4),
        }
    )


def scaled(case: dict) -> dict:
    """In the units of the stage: 10 km to one on earth."""
    if case["earth"] is None:
        return case
    k = 10000.0 / G.METRES[case["units"][0]]

    def op(o: dict) -> dict:
        return {**o, **{x: o[x] * k for x in ("r", "v") if x in o}}

    return {
        **case,
        "things": [
            {
                **x,
                "reach": x["reach"] * k if x["reach"] is not None else None,
                "checker": x["checker"] + case["base"][0] if x["checker"] is not None else None,
                "script": [op(o) for o in x["script"]],
                "more": [op(o) for o in x["more"]],
            }
            for x in case["things"]
        ],
    }


# ---------------------------------------------------------------------------
# the check
# ---------------------------------------------------------------------------


def predict(case: dict) -> tuple[World, list, list]:
    """The world, the plans of both phases, and how those end."""
    geo, t0 = Ground(case), case["t0"]
    lives = [Life(geo, x, n, t0) for n, x in enumerate(case["things"])]
    world = World(case, geo, lives)
    marks: list[tuple] = []
    for n, x in enumerate(case["things"]):
        for what in ("sense", "list"):
            if x[what] == 0.0:
                world.happen(t0, what, n, None)
            elif x[what] is not None:
                marks.append((t0 + x[what], what, n, None))
    if case["run"] == 0.0:
        world.happen(t0, "run", -1, None)
    elif case["run"] is not None:
        marks.append((t0 + case["run"], "run", -1, None))
    plans = [[life.live(t0, x["script"]) for life, x in zip(lives, case["things"])]]
    last = max([life.t for life in lives] + [m[0] for m in marks])
    for life in lives:
        marks, life.marks = marks + life.marks, []
    if case["until"] is not None:
        until = last + case["until"]
        return world, plans, [world.live(marks, last, until)]
    ends = [world.live(marks, last, None)]
    if any(x["more"] for x in case["things"]):
        if case["again"]:
            world.happen(ends[0], "run", -1, None)
        plans.append([life.live(ends[0], x["more"]) for life, x in zip(lives, case["things"])])
        marks = [m for life in lives for m in life.marks]
        ends.append(world.live(marks, max(life.t for life in lives), None))
    return world, plans, ends


def run(case: dict, world: World, plans: list, ends: list) -> list:
    log: list = []
    unit, up = case["units"]

    def loc(p: tuple) -> Any:
        if case["earth"] is None:
            return UP.CartesianLocation(*p)
        return UP.GeodeticLocation(p[0], p[1], p[2] / G.METRES[up])

    with UP.EnvironmentContext(initial_time=case["t0"]) as env:
        if case["earth"] is not None:
            UP.add_stage_variable("distance_units", unit)
            UP.add_stage_variable("altitude_units", up)
            UP.add_stage_variable("stage_model", MODELS[case["earth"]])
        manager = UP.SteppedMotionManager(case["dt"], max_empty_events=case["empty"], debug=case["debug"])
        UP.add_stage_variable("motion_manager", manager)
        things = []

        def sense(n: int) -> None:
            manager.add_sensor(things[n], location_attr_name="loc", radius_attr_name="reach")

        def enlist(n: int) -> None:
            manager.add_detectable(things[n], "loc")

        def later(t: float, what: Any, *args: Any) -> Generator:
            yield env.timeout(t)
            what(*args)

        for n, x in enumerate(case["things"]):
            things.append(build(env, x, n, loc(world.lives[n].places[0]), log))
            if x["checker"] is not None:
                low = checker(x["checker"], case["earth"] is None)
                if x["kind"] == "thing":
                    things[n].detection_checker = low
                else:
                    object.__setattr__(things[n], "detection_checker", low)
        for n, x in enumerate(case["things"]):
            for what, do in (("sense", sense), ("list", enlist)):
                if x[what] == 0.0:
                    do(n)
                elif x[what] is not None:
                    env.process(later(x[what], do, n))
        if case["run"] == 0.0:
            manager.run()
        elif case["run"] is not None:
            env.process(later(case["run"], manager.run))
        if case["until"] is not None:
            for f in case["fast"]:
                if f["n"] < len(things):
                    manager.run_particular(f["rate"], things[f["n"]])
        for k, plan in enumerate(plans):
            if k and case["again"]:
                manager.run()
            for actor, steps in zip(things, plan):
                env.process(M.drive(env, actor, steps, loc))
            if case["until"] is None:
                drain(env)
            else:
                drain(env, until=ends[0])
            if abs(env.now - ends[k]) > 1e-6 * (1 + env.now):
                raise Violation(f"part {k} of the simulation ended at {env.now}, should be {ends[k]}")
    return log


def check(case: dict, ctx: Ctx) -> None:
    case = scaled(case)
    case = {**case, "fast": [f for f in case["fast"] if f["n"] < len(case["things"])]}
    case["fast"] = [f for f in case["fast"] if case["things"][f["n"]]["list"] == 0.0]
    try:
        world, plans, ends = predict(case)
    except M.TooClose:
        ctx.label("too close to a boundary")
        return
    log = run(case, world, plans, ends)
    eps = 1e-6 * (1 + ends[-1])
    looks = [a for a, b in zip(world.looks, world.looks[1:] + [(math.inf,)]) if b[0] - a[0] > NEAR]
    reacting = any(x["react"] for x in case["things"])
    pairs = {x[1:3] for x in log} | {x[1:3] for x in world.told}
    for pair in sorted(pairs):
        got = [(t, e) for t, s, d, e in log if (s, d) == pair]
        want = [(t, e) for t, s, d, e in world.told if (s, d) == pair]
        who = f"sensor {pair[0]} was told of {pair[1]}"
        if [e for _, e in got] != ["in", "out"] * (len(got) // 2) + ["in"] * (len(got) % 2):
            raise Violation(f"{who}: {got}")
        if not reacting:
            if [e for _, e in got] != [e for _, e in want] or any(
                abs(a[0] - b[0]) > eps for a, b in zip(got, want)
            ):
                raise Violation(f"{who}: {got}, should be {want}")
        if len(want) > 1:
            ctx.nontrivial()
            ctx.label("told twice or more")
        for t, view in looks:
            told = [e for when, e in got if when <= t + eps / 100]
            if (told[-1:] == ["in"]) != (pair in view):
                raise Violation(f"{who}: {got}, but in view at {t} is {sorted(view)}")
    note(case, world, ends, ctx)


def note(case: dict, world: World, ends: list, ctx: Ctx) -> None:
    ctx.label(f"earth: {case['earth']}")
    if any(case["things"][x[1]]["react"] for x in world.told):
        ctx.label("reacted")
    if len(ends) > 1:
        ctx.label("resumed")
    if case["until"] is not None and case["fast"]:
        ctx.label("one looked at more often")
    if world.looks and len(world.looks) > 200:
        ctx.label("more than 200 steps")
    for t, s, d, e in world.told:
        ctx.label(f"{case['things'][d]['kind']} told {e}")
        if case["things"][s]["checker"] is not None:
            ctx.label("by its own check")
        if any(f.start <= t <= f.stop for f in world.lives[s].flights):
            ctx.label("by a moving sensor")
        if e == "out" and not any(f.start <= t <= f.stop for f in world.lives[d].flights):
            if any(f.stop < t for f in world.lives[d].flights):
                ctx.label("left after it stopped")


# ---------------------------------------------------------------------------
# who may join
# ---------------------------------------------------------------------------


def applicant() -> st.SearchStrategy:
    most = st.sampled_from([True] * 7 + [False])
    return st.fixed_dictionaries(
        {
            "actor": st.booleans(),
            "senses": st.sampled_from([True, True, False]),
            "seen": st.sampled_from([True, True, False]),
            "enter": most,
            "exit": most,
            "radius": most,
            "place": most,
            "names": st.booleans(),
            "detect": st.sampled_from([None, None, "one", "one", "two"]),
            "shown": most,
            "at": st.integers(-6, 6),
            "reach": st.integers(1, 8),
            "when": st.integers(0, 3),
        }
    )


def join_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 12.5]),
            "dt": st.sampled_from([1.0, 0.37]),
            "first": st.booleans(),
            "who": st.lists(applicant(), min_size=2, max_size=5),
        }
    )


def joiner(env: Any, a: dict, n: int, log: list) -> Any:
    """Something with, or without, what the manager asks of it."""
    place, radius = ("location", "radius") if a["names"] else ("spot", "range_of")
    body: dict[str, Any] = {}
    if a["enter"]:
        body["entity_entered_range"] = lambda self, x: log.append((env.now, n, x.number, "in"))
    if a["exit"]:
        body["entity_exited_range"] = lambda self, x: log.append((env.now, n, x.number, "out"))
    here = UP.CartesianLocation(a["at"], 0)
    if not a["actor"]:
        if a["detect"]:
            body["_get_detection_state"] = lambda self: a["shown"]
        it = type("Thing", (), body)()
        if a["place"]:
            setattr(it, place, here)
        if a["radius"]:
            setattr(it, radius, a["reach"])
        it.number = n
        return it
    kw: dict[str, Any] = {}
    body["number"] = UP.State()
    if a["place"]:
        body[place] = UP.CartesianLocationChangingState() if a["at"] % 2 else UP.State()
        kw[place] = here
    if a["radius"]:
        body[radius] = UP.State(valid_types=int)
        kw[radius] = a["reach"]
    for x in {None: [], "one": ["shown"], "two": ["shown", "lit"]}[a["detect"]]:
        body[x] = UP.DetectabilityState(default=a["shown"])
    return type("Joiner", (UP.Actor,), body)(name=f"joiner {n}", number=n, **kw)


def check_joining(c: dict, ctx: Ctx) -> None:
    log: list = []
    dt = c["dt"]
    sensors: dict[int, float] = {}
    shown: dict[int, float] = {}
    with UP.EnvironmentContext(initial_time=c["t0"]) as env:
        manager = UP.SteppedMotionManager(dt, max_empty_events=3)
        UP.add_stage_variable("motion_manager", manager)
        if c["first"]:
            manager.run()
        things = [joiner(env, a, n, log) for n, a in enumerate(c["who"])]

        def join(n: int, a: dict) -> None:
            it, who = things[n], f"applicant {n}, {a}"
            if a["senses"]:
                args = [] if a["names"] else ["range_of", "spot"]
                if not (a["enter"] and a["exit"]):
                    expect_raises(f"{who} as a sensor", NotImplementedError, manager.add_sensor, it, *args)
                elif not (a["radius"] and a["place"]):
                    expect_raises(f"{who} as a sensor", UP.SimulationError, manager.add_sensor, it, *args)
                else:
                    manager.add_sensor(it, *args)
                    sensors[n] = env.now
            if a["seen"]:
                args = [] if a["names"] else ["spot"]
                if not a["place"] or (a["actor"] and a["detect"] == "two"):
                    expect_raises(f"{who} to be seen", UP.SimulationError, manager.add_detectable, it, *args)
                else:
                    manager.add_detectable(it, *args)
                    shown[n] = env.now

        def joining() -> Generator:
            for k in range(4):
                for n, a in enumerate(c["who"]):
                    if a["when"] == k:
                        join(n, a)
                yield env.timeout(dt * (1.5 if k == 0 else 1.0))

        env.process(joining())
        if not c["first"]:
            manager.run()
        drain(env)
        want = set()
        for s, a in sensors.items():
            for d, b in shown.items():
                it = c["who"][d]
                visible = it["shown"] or it["detect"] is None
                if s != d and visible and abs(c["who"][s]["at"] - it["at"]) <= c["who"][s]["reach"]:
                    steps = math.floor((max(a, b) - c["t0"]) / dt + 1e-6) + 1
                    want.add((s, d, steps))
                    ctx.nontrivial()
        got = [(s, d, round((t - c["t0"]) / dt)) for t, s, d, e in log if e == "in"]
        if sorted(got) != sorted(want) or len(got) != len(log):
            raise Violation(f"sensors were told {log}, should be (sensor, thing, step) {sorted(want)}")
        refused = sum(a["senses"] and n not in sensors for n, a in enumerate(c["who"]))
        refused += sum(a["seen"] and n not in shown for n, a in enumerate(c["who"]))
        ctx.label(f"{min(refused, 3)} refused, {'some' if want else 'none'} told")


PROP = Prop(
    "C27",
    "a sensor is told at least twice about one thing (joining: of anything)",
    [
        Part("steps", case, check, quick=8000, thorough=80000),
        Part("joining", join_case, check_joining, quick=1500, thorough=20000),
    ],
    [
        "what happens in the moment of a step, or changes sides within rounding there, is not judged",
        "a sensor hides the thing it is told of, and no other one",
        "new_rate of add_detectable is not judged, and run_particular only in simulations with an end",
    ],
)
