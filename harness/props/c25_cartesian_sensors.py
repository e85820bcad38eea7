"""C25: sensors are told of Cartesian movers exactly when they enter and leave."""

from __future__ import annotations

import math
from typing import Any, Generator

from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from harness import motion as M
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, expect_raises, seqs, st

METRES = {"m": 1.0, "km": 1000.0, "nmi": 1852.0, "ft": 0.3048}
UNITS = [["km", "m"], ["m", "km"], ["m", "m"], ["ft", "ft"]]


class Leg:
    def __init__(self, start: tuple, end: tuple) -> None:
        self.start, self.end = start, end
        self.length = math.dist(start, end)

    def at(self, frac: float) -> tuple:
        return tuple(a + frac * (b - a) for a, b in zip(self.start, self.end))


class Space:
    """Straight lines; heights are in the distance unit once they are in here."""

    def __init__(self, units: list) -> None:
        self.up = METRES[units[1]] / METRES[units[0]]

    def point(self, p: list, here: Any = None) -> tuple:
        if p == "here":
            return here
        x, y, z, alt = p
        return (float(x), float(y), z * self.up if alt else float(z))

    leg = staticmethod(Leg)


def crossings(leg: Leg, centre: tuple, r: float) -> list[float]:
    """Where a leg crosses a sphere, from the distance of its line to the centre."""
    ends = [math.dist(leg.start, centre) - r, math.dist(leg.end, centre) - r]
    slack = 1e-5 * (1 + r)
    if min(map(abs, ends)) < slack:
        raise M.TooClose
    if leg.length == 0:
        return []
    u = [(b - a) / leg.length for a, b in zip(leg.start, leg.end)]
    along = sum(k * (c - a) for k, a, c in zip(u, leg.start, centre))
    foot = [a + along * k for a, k in zip(leg.start, u)]
    miss = math.dist(foot, centre)
    if -slack < along < leg.length + slack and abs(miss - r) < slack:
        raise M.TooClose
    if miss > r:
        return []
    half = math.sqrt((r - miss) * (r + miss))
    return [s / leg.length for s in (along - half, along + half) if 0 < s < leg.length]


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------


def coord() -> st.SearchStrategy:
    return st.one_of(st.integers(-8, 8), st.floats(-10, 10).map(lambda x: round(x, 3)))


def point() -> st.SearchStrategy:
    z = st.one_of(st.just(0), coord())
    return st.tuples(coord(), coord(), z, st.sampled_from([False, False, True])).map(list)


def go() -> st.SearchStrategy:
    frac = st.one_of(st.floats(0.01, 0.99).map(lambda x: round(x, 4)), st.just(0))
    return st.fixed_dictionaries(
        {
            "op": st.just("go"),
            "w": st.lists(st.one_of(*[point()] * 8, st.just("here")), min_size=1, max_size=5),
            "v": st.one_of(st.sampled_from([1, 2.0, 0.3]), st.floats(0.1, 20).map(lambda x: round(x, 3))),
            "part": st.one_of(st.just(1.0), st.just(1.0), st.floats(0, 1).map(lambda x: round(x, 4))),
            "acts": st.one_of(
                st.just([]),
                st.just([]),
                st.lists(st.tuples(frac, st.sampled_from(["hide", "show"])).map(list), max_size=3),
            ),
            "task": st.booleans(),
        }
    )


def script() -> st.SearchStrategy:
    other = st.one_of(
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 0.77, 3.13])}),
        st.sampled_from([{"op": "hide"}, {"op": "show"}, {"op": "show"}]),
        st.fixed_dictionaries({"op": st.just("put"), "p": point()}),
    )
    return seqs(st.one_of(go(), go(), other), 7)


def case() -> st.SearchStrategy:
    sensor = st.fixed_dictionaries(
        {
            "at": point(),
            "r": st.one_of(
                st.sampled_from([1, 3, 5.0, 20.0]), st.floats(0.05, 15).map(lambda x: round(x, 3))
            ),
            "late": st.one_of(st.none(), st.none(), st.floats(0, 40).map(lambda x: round(x, 3))),
            "actor": st.booleans(),
        }
    )
    mover = st.fixed_dictionaries(
        {"at": point(), "detect": st.sampled_from([True, True, True, False]), "script": script()}
    )
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 12.5, 5000.0]),
            "units": st.sampled_from(UNITS),
            "debug": st.booleans(),
            "sensors": st.lists(sensor, min_size=1, max_size=4),
            "movers": st.lists(mover, min_size=1, max_size=3),
        }
    )


class Mover(M.Pilot):
    loc = UP.CartesianLocationChangingState(recording=True)


def make(p: tuple) -> UP.CartesianLocation:
    return UP.CartesianLocation(*p)


def raw(p: list) -> UP.CartesianLocation:
    return UP.CartesianLocation(*p[:3], use_altitude_units=p[3])


def simulate(case: dict, tracks: list) -> list:
    """Run the real thing: [(time, sensor, mover, in/out, place)]."""
    space = Space(case["units"])
    log: list = []
    with UP.EnvironmentContext(initial_time=case["t0"]) as env:
        UP.add_stage_variable("distance_units", case["units"][0])
        UP.add_stage_variable("altitude_units", case["units"][1])
        manager = UP.SensorMotionManager(cartesian_linear_intersection, debug=case["debug"])
        UP.add_stage_variable("motion_manager", manager)
        for k, s in enumerate(case["sensors"]):

            def later(k: int = k, s: dict = s) -> Generator:
                yield env.timeout(s["late"])
                M.add_sensor(env, manager, s, k, raw(s["at"]), log)

            if s["late"] is None:
                M.add_sensor(env, manager, s, k, raw(s["at"]), log)
            else:
                env.process(later())
        for n, m in enumerate(case["movers"]):
            actor = Mover(name=f"m{n}", loc=raw(m["at"]), detect=m["detect"], n=n)
            env.process(M.drive(env, actor, tracks[n].plan, make))
        drain(env)
        where = [(t, k, n, e, p._as_array()) for t, k, n, e, p in log]
    if [w[0] for w in where] != sorted(w[0] for w in where):
        raise Violation(f"notices are out of order: {where}")
    return where


def check(case: dict, ctx: Ctx) -> None:
    space = Space(case["units"])
    tracks = [M.Track(case["t0"], space, m) for m in case["movers"]]
    end = max(t.t for t in tracks)
    scale = 1 + abs(case["t0"]) + end
    want: dict[tuple, list] = {}
    sensors = []
    try:
        for k, s in enumerate(case["sensors"]):
            centre = space.point(s["at"])
            since = case["t0"] + s["late"] if s["late"] is not None else -math.inf
            sensors.append((centre, since))
            for n, tr in enumerate(tracks):
                times = [x for f in tr.flights for x in (f.start, f.stop, f.tracked_until)] + [
                    t for t, _ in tr.hides
                ]
                if any(abs(since - t) < 1e-6 for t in times):
                    raise M.TooClose
                for f in tr.flights:
                    if f.tracked and abs(math.dist(M.where(f, max(f.start, since)), centre) - s["r"]) < 1e-5:
                        raise M.TooClose
                want[k, n] = M.membership(
                    tr,
                    lambda p, _, c=centre, r=s["r"]: math.dist(p, c) - r,
                    since,
                    1e-6,
                    lambda leg, c=centre, r=s["r"]: crossings(leg, c, r),
                )
    except M.TooClose:
        ctx.label("too close to a boundary")
        return
    where = simulate(case, tracks)
    for (k, n), exp in want.items():
        got = [(t, e, p) for t, kk, nn, e, p in where if (kk, nn) == (k, n)]
        M.compare(got, exp, (k, n), 1e-9 * scale + 1e-9 * len(got))
        for (t, e, p), (_, _, why) in zip(got, exp):
            off = math.dist(p, sensors[k][0]) - case["sensors"][k]["r"]
            if (why == "cross" and abs(off) > 1e-6 * scale) or (why == "start" and off > 0):
                raise Violation(
                    f"mover {n} was {off} from the edge of sensor {k} when it was told {e!r} ({why})"
                )
        if len(exp) > 1:
            ctx.nontrivial()
        if len(exp) > 2:
            ctx.label("three notices or more of one mover")
        for why in {x[2] for x in exp}:
            ctx.label(why)
    note(case, tracks, want, ctx)


def note(case: dict, tracks: list, want: dict, ctx: Ctx) -> None:
    if any(s["late"] is not None for s in case["sensors"]) and any(want.values()):
        ctx.label("late sensor")
    for n, tr in enumerate(tracks):
        if len(tr.flights) > 1:
            ctx.label("several flights")
        if any(len(f.legs) > 1 for f in tr.flights):
            ctx.label("several legs")
            if any(not want[k, n] for k in range(len(case["sensors"]))):
                ctx.label("several legs, nothing to report")
        if any(leg.length == 0 for f in tr.flights for _, _, leg in f.legs):
            ctx.label("leg of no length")
        if any(f.tracked and f.tracked_until < f.stop for f in tr.flights):
            ctx.label("hidden on the way")


def edge_case() -> st.SearchStrategy:
    whole = st.integers(-5, 5)
    place = st.tuples(whole, whole, st.sampled_from([0, 0, 0, 3]), st.just(False)).map(list)
    legs = st.fixed_dictionaries(
        {
            "op": st.just("go"),
            "w": st.lists(place, min_size=1, max_size=5),
            "v": st.sampled_from([1, 2.0, 0.3]),
            "part": st.sampled_from([1.0, 1.0, 0.5]),
            "acts": st.sampled_from([[], [], [[0.5, "hide"]]]),
            "task": st.booleans(),
        }
    )
    other = st.sampled_from([{"op": "wait", "t": 1.0}, {"op": "hide"}, {"op": "show"}])
    sensor = st.fixed_dictionaries(
        {
            "at": place,
            "r": st.sampled_from([1, 2.0, 3, 5, 10**0.5]),
            "late": st.sampled_from([None, None, None, 0.37, 1.0, 3.71]),
            "actor": st.booleans(),
        }
    )
    mover = st.fixed_dictionaries(
        {"at": place, "detect": st.just(True), "script": seqs(st.one_of(legs, legs, other), 6)}
    )
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.1, 1000.1]),
            "units": st.just(["km", "km"]),
            "debug": st.booleans(),
            "sensors": st.lists(sensor, min_size=1, max_size=3),
            "movers": st.lists(mover, min_size=1, max_size=2),
        }
    )


def check_edge(case: dict, ctx: Ctx) -> None:
    space = Space(case["units"])
    tracks = [M.Track(case["t0"], space, m) for m in case["movers"]]
    where = simulate(case, tracks)
    for k, s in enumerate(case["sensors"]):
        centre, r = space.point(s["at"]), s["r"]
        since = case["t0"] + s["late"] if s["late"] is not None else -math.inf
        for n, tr in enumerate(tracks):

            def sees(p: tuple) -> float:
                return math.dist(p, centre) - r

            try:
                want = M.probes(tr, sees, since, 1e-6, lambda leg: cuts(leg, centre, r))
            except M.TooClose:
                ctx.label("a sensor appears as a mover stops")
                continue
            M.check_probes([(t, e) for t, kk, nn, e, _ in where if (kk, nn) == (k, n)], want, (k, n))
            told = [w for w in where if (w[1], w[2]) == (k, n)]
            if len(told) > 1 and any(a[0] == b[0] for a, b in zip(told, told[1:])):
                ctx.label("in and out at once")
            for f in tr.flights:
                if f.tracked and any(
                    abs(sees(x)) < 1e-9 for _, _, leg in f.legs for x in (leg.start, leg.end)
                ):
                    ctx.label("a waypoint at the edge")
                    ctx.nontrivial()
                for _, _, leg in f.legs:
                    if leg.length and abs(miss(leg, centre)[0] - r) < 1e-9:
                        ctx.label("a tangent")
                        ctx.nontrivial()


def miss(leg: Leg, centre: tuple) -> tuple[float, float]:
    """How far a line passes from a point, and how far along that is."""
    u = [(b - a) / leg.length for a, b in zip(leg.start, leg.end)]
    along = sum(k * (c - a) for k, a, c in zip(u, leg.start, centre))
    return math.dist([a + along * k for a, k in zip(leg.start, u)], centre), along


def cuts(leg: Leg, centre: tuple, r: float) -> list[float]:
    if leg.length == 0:
        return []
    by, along = miss(leg, centre)
    half = math.sqrt((r - by) * (r + by)) if by < r else 0.0
    return [x / leg.length for x in (along - half, along + half)]


def react_case() -> st.SearchStrategy:
    part = st.one_of(st.just(1.0), st.floats(0, 1).map(lambda x: round(x, 4)))
    flight = st.fixed_dictionaries(
        {
            "op": st.just("go"),
            "w": st.lists(point(), min_size=1, max_size=6),
            "v": st.sampled_from([1, 2.0, 0.3]),
            "part": part,
            "acts": st.just([]),
            "task": st.booleans(),
        }
    )
    does = st.sampled_from([[], ["hide"], ["stop"], ["hide", "stop"], ["stop", "hide"], ["hide", "hide"]])
    sensor = st.fixed_dictionaries(
        {
            "at": point(),
            "r": st.one_of(st.sampled_from([3, 5.0, 20.0]), st.floats(0.05, 15).map(lambda x: round(x, 3))),
            "late": st.none(),
            "actor": st.booleans(),
            "react": st.fixed_dictionaries({"in": does, "out": does}),
        }
    )
    mover = st.fixed_dictionaries(
        {"at": point(), "detect": st.just(True), "script": st.tuples(flight).map(list)}
    )
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 12.5]),
            "units": st.just(["km", "km"]),
            "debug": st.booleans(),
            "sensors": st.lists(sensor, min_size=1, max_size=4),
            "movers": st.lists(mover, min_size=1, max_size=3),
        }
    )


def foretell(flight: M.Flight, case: dict, space: Space, ctx: Ctx) -> list:
    """The notices about one flight, with what the sensors do: [(time, sensor, in/out)]."""
    marks = []
    start = flight.legs[0][2].start
    for k, s in enumerate(case["sensors"]):
        centre = space.point(s["at"])
        if abs(math.dist(start, centre) - s["r"]) < 1e-5:
            raise M.TooClose
        if math.dist(start, centre) < s["r"]:
            marks.append((flight.start, k))
        for a, b, leg in flight.legs:
            marks += [(a + (b - a) * x, k) for x in crossings(leg, centre, s["r"])]
    marks.sort()
    stops = any("stop" in r for s in case["sensors"] for r in s["react"].values())
    if stops and sum(t == flight.start for t, _ in marks) > 1:
        raise M.TooClose  # how soon the flight stops depends on how it is stopped
    times = [t for t, _ in marks] + [flight.stop]
    if any(
        abs(a - b) < 1e-6 for i, a in enumerate(times) for b in times[:i] if (a, b) != (flight.start,) * 2
    ):
        raise M.TooClose
    out: list = []
    view: list[int] = []
    seen = moving = True

    def do(k: int, what: str, t: float) -> None:
        nonlocal seen, moving
        out.append((t, k, what))
        for r in case["sensors"][k]["react"][what]:
            ctx.label(f"{r} when told {what}")
            if r == "stop":
                moving = False
            elif seen or view:
                seen = False
                while view:
                    do(view.pop(0), "out", t)

    for t, k in marks:
        if t > flight.stop or not (seen and moving):
            break
        if k in view:
            view.remove(k)
            do(k, "out", t)
        else:
            view.append(k)
            do(k, "in", t)
    return out


def check_react(case: dict, ctx: Ctx) -> None:
    space = Space(case["units"])
    tracks = [M.Track(case["t0"], space, m) for m in case["movers"]]
    try:
        want = [foretell(tr.flights[0], case, space, ctx) for tr in tracks]
    except M.TooClose:
        ctx.label("too close to a boundary")
        return
    told = simulate(case, tracks)
    for n, exp in enumerate(want):
        got = [(t, k, e) for t, k, nn, e, _ in told if nn == n]
        if len(got) != len(exp) or any(
            g[1:] != w[1:] or abs(g[0] - w[0]) > 1e-9 * (20 + w[0]) for g, w in zip(got, exp)
        ):
            raise Violation(f"sensors were told of mover {n}: {got}, should be {exp}")
        done = [r for t, k, e in exp for r in case["sensors"][k]["react"][e]]
        if done and len(exp) > 1:
            ctx.nontrivial()


class Unseen(UP.Actor):
    loc = UP.CartesianLocationChangingState()


class Partly:
    """A sensor without some of what it needs."""

    def __init__(self, has: list) -> None:
        for h in has:
            setattr(self, h, {"where": UP.CartesianLocation(0, 0), "reach": 5.0}.get(h, lambda entity: None))


NEEDED = ["entity_entered_range", "entity_exited_range", "where", "reach"]


def misuse_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "has": st.lists(st.sampled_from(NEEDED), unique=True),
            "at": point(),
            "to": st.lists(point(), min_size=1, max_size=3),
        }
    )


def check_misuse(case: dict, ctx: Ctx) -> None:
    log: list = []
    if 0 < len(case["has"]) < 4:
        ctx.nontrivial()
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "km")
        manager = UP.SensorMotionManager(cartesian_linear_intersection)
        UP.add_stage_variable("motion_manager", manager)
        sensor: Any = Partly(case["has"])
        if len(case["has"]) < 4:
            ctx.label("an incomplete sensor")
            kind = NotImplementedError if len({*NEEDED[:2]} & {*case["has"]}) < 2 else UP.SimulationError
            expect_raises("adding an incomplete sensor", kind, manager.add_sensor, sensor, "where", "reach")
        M.add_sensor(env, manager, {"actor": False, "r": 1e6}, 0, UP.CartesianLocation(0, 0), log)
        unseen = Unseen(name="u", loc=raw(case["at"]))
        unseen.activate_location_state(
            state="loc", speed=1.0, waypoints=[raw(p) for p in case["to"]], task=UP.Task()
        )
        drain(env)
        if log:
            raise Violation(f"a sensor was told of something that can't be detected: {log}")


PROP = Prop(
    "C25",
    "a sensor is told at least twice about one mover; a waypoint is at the edge of a sensor's range or a leg "
    "touches it; a sensor acts on what it is told and is told again; a sensor has some of what it needs",
    [
        Part("notices", case, check, quick=6000, thorough=100000),
        Part("edges", edge_case, check_edge, quick=5000, thorough=80000),
        Part("react", react_case, check_react, quick=4000, thorough=60000),
        Part("misuse", misuse_case, check_misuse, quick=300, thorough=3000),
    ],
    [
        "crossings, waypoints, stops and switches are not within rounding of the edge of a sphere or of each other",
        "sensors do not move",
    ],
)
