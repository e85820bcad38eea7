"""C26: sensors are told of movers over the earth when they enter and leave."""

from __future__ import annotations

import math
from typing import Any, Generator

from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection

from harness import geo_ref as G
from harness import motion as M
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st

MODELS = {"Spherical": Spherical, "WGS84": WGS84}
NODES = [math.cos(math.pi * (2 * k + 1) / 18) / 2 + 0.5 for k in range(9)]
WEIGHTS = [1 / math.prod(x - y for y in NODES if y != x) for x in NODES]
COARSE = 9260.0  # metres between the first samples of the subdividing method, or up to half more
FINE = 75.0  # more than the last ones are apart
ROUND = 1e-5  # the relative error of a radius in some units, and more


class Leg:
    """A leg between places (lat, lon, metres, in radians); its length in stage units."""

    def __init__(self, start: tuple, end: tuple, model: str, unit: str) -> None:
        self.start, self.end, self.model = start, end, model
        if start[:2] == end[:2]:
            if start[2] != end[2]:
                raise M.TooClose  # a climb on the spot takes no time, and does not show
            self.metres = self.bearing = 0.0
        elif model == "Spherical":
            self.metres, self.bearing = G.ground(start, end), G.course(start, end)
        else:
            self.metres, self.bearing = WGS84.distance_and_bearing(start[:2], end[:2], units="m")
        self.length = self.metres / G.METRES[unit]
        # the samples of the subdividing method are that much further apart than on the ground
        self.steep = math.hypot(self.metres, end[2] - start[2]) / self.metres if self.metres else 1.0
        self.nodes: list = []

    def at(self, x: float) -> tuple:
        h = self.start[2] + x * (self.end[2] - self.start[2])
        if x in (0.0, 1.0) or not self.metres:
            return (*(self.end if x == 1.0 else self.start)[:2], h, False)
        if self.model == "Spherical":
            return (*G.travel(self.start, self.bearing, x * self.metres / G.R), h, False)
        return (*G.wgs_direct(self.start, self.bearing, x * self.metres)[:2], h, False)

    def space(self, x: float) -> tuple:
        """Earth-centred, from a polynomial through nine places."""
        if not self.nodes:
            self.nodes = [G.ecef(self.at(n), self.model) for n in NODES]
        tot, low = [0.0, 0.0, 0.0], 0.0
        for n, w, p in zip(NODES, WEIGHTS, self.nodes):
            if x == n:
                return p
            k = w / (x - n)
            low += k
            for i in range(3):
                tot[i] += k * p[i]
        return tuple(t / low for t in tot)


class Globe:
    """Places are given by how far east and north of a base they are."""

    def __init__(self, case: dict) -> None:
        self.base, self.case = case["base"], case
        self.sphere = case["method"] == "analytic"

    def point(self, p: Any, here: Any = None) -> tuple:
        if p == "here":
            return here
        e, n, h, rad = p
        far = 1000.0 * math.hypot(e, n) * self.case["scale"]
        place = G.travel(self.base, math.degrees(math.atan2(e, n)), far / G.R) if far else tuple(self.base)
        return (*place, self.case["level"] if self.case["level"] is not None else h, rad)

    def leg(self, start: tuple, end: tuple) -> Leg:
        return Leg(start, end, self.case["model"], self.case["units"][0])


class Sight:
    """What one sensor sees, by either method; metres."""

    def __init__(self, case: dict, s: dict, globe: Globe) -> None:
        self.place = globe.point(s["at"])
        self.place = (*self.place[:2], s["at"][2], self.place[3])
        self.r, self.analytic = s["r"] * 1000.0 * case["scale"], case["method"] == "analytic"
        self.centre = G.ecef(self.place, case["model"])

    def margin(self) -> float:
        return ROUND * self.r + 1.0

    def over(self, leg: Leg, x: float) -> float:
        """How far out of range a place on a leg is."""
        if not self.analytic:
            return math.dist(leg.space(x), self.centre) - self.r
        return self.flat(leg.at(x), leg)

    def flat(self, p: tuple, leg: Leg) -> float:
        # the ground distance, with a radius reduced for the average height
        up = (leg.start[2] + leg.end[2]) / 2 - self.place[2]
        if abs(abs(up) - self.r) < self.margin():
            raise M.TooClose
        if abs(up) > self.r:
            return G.ground(p, self.place) + 1000.0
        return G.ground(p, self.place) - math.sqrt(self.r**2 - up**2)

    def sees(self, p: tuple, leg: Leg) -> float:
        if self.analytic:
            return self.flat(p, leg)
        return math.dist(G.ecef(p, leg.model), self.centre) - self.r

    def edge(self, leg: Leg) -> list[float]:
        ends = [self.over(leg, 0.0), self.over(leg, 1.0)]
        if min(map(abs, ends)) < 2 * FINE * leg.steep + self.margin():
            raise M.TooClose
        if not leg.metres:
            return []
        lo, hi = 0.0, 1.0
        for _ in range(60):
            m, n = lo + (hi - lo) * 0.382, hi - (hi - lo) * 0.382
            if self.over(leg, m) < self.over(leg, n):
                hi = n
            else:
                lo = m
        foot = (lo + hi) / 2
        if abs(self.over(leg, foot)) < self.margin():
            raise M.TooClose
        if self.over(leg, foot) > 0:
            return []
        out = []
        for inside, outside, side in ((foot, 0.0, ends[0]), (foot, 1.0, ends[1])):
            if side > 0:
                for _ in range(45):
                    m = (inside + outside) / 2
                    if self.over(leg, m) <= 0:
                        inside = m
                    else:
                        outside = m
                out.append(inside)
        for x in out:
            d = min(1.0 / leg.metres, x, 1 - x)
            if abs(self.over(leg, x + d) - self.over(leg, x - d)) < 0.2 * 2 * d * leg.metres:
                raise M.TooClose  # it grazes, and a rounding of the radius matters
        if not self.analytic and len(out) == 2 and out[1] - out[0] < 1.05 / max(2, int(leg.metres / COARSE)):
            raise M.TooClose  # the method may not see so short a visit
        return out


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------


def km() -> st.SearchStrategy:
    return st.one_of(
        st.integers(-12, 12).map(lambda x: 10 * x),
        st.integers(-150000, 150000).map(lambda x: x / 1000),
        st.integers(-150000, 150000).map(lambda x: x / 1000),
    )


def place() -> st.SearchStrategy:
    return st.tuples(km(), km(), st.sampled_from([0.0, 0.0, 800.0, 9000.0]), st.booleans()).map(list)


def go() -> st.SearchStrategy:
    frac = st.one_of(st.floats(0.01, 0.99).map(lambda x: round(x, 4)), st.just(0))
    return st.fixed_dictionaries(
        {
            "op": st.just("go"),
            "w": st.lists(st.one_of(*[place()] * 12, st.just("here")), min_size=1, max_size=4),
            "v": st.one_of(st.sampled_from([100, 850.0, 3.0]), st.floats(1, 2000).map(lambda x: round(x, 3))),
            "part": st.one_of(st.just(1.0), st.just(1.0), st.floats(0, 1).map(lambda x: round(x, 4))),
            "acts": st.one_of(
                st.just([]),
                st.just([]),
                st.just([]),
                st.lists(st.tuples(frac, st.sampled_from(["hide", "show"])).map(list), max_size=2),
            ),
            "task": st.booleans(),
        }
    )


def script() -> st.SearchStrategy:
    other = st.one_of(
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.0, 0.077, 0.313])}),
        st.sampled_from([{"op": "hide"}, {"op": "show"}, {"op": "show"}]),
        st.fixed_dictionaries({"op": st.just("put"), "p": place()}),
    )
    return seqs(st.one_of(go(), go(), go(), other), 4)


def case() -> st.SearchStrategy:
    sensor = st.fixed_dictionaries(
        {
            "at": place(),
            "r": st.one_of(
                st.sampled_from([15.0, 50.0, 100.0]), st.floats(2, 160).map(lambda x: round(x, 3))
            ),
            "late": st.one_of(st.none(), st.none(), st.floats(0, 2).map(lambda x: round(x, 4))),
            "actor": st.booleans(),
        }
    )
    mover = st.fixed_dictionaries(
        {"at": place(), "detect": st.sampled_from([True, True, True, False]), "script": script()}
    )
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 12.5]),
            "method": st.sampled_from(["subdivide", "analytic"]),
            "model": st.sampled_from(["Spherical", "WGS84"]),
            "units": st.sampled_from([["km", "m"], ["nmi", "ft"], ["m", "km"]]),
            "base": st.sampled_from(
                [[0.0, 0.0], [33.5, -84.5], [-20.0, 179.9], [62.0, 20.0], [-81.0, -179.5]]
            ),
            "level": st.sampled_from([None, None, 0.0, 9000.0]),
            "scale": st.sampled_from([1.0, 1.0, 0.2]),
            "debug": st.booleans(),
            "sensors": st.lists(sensor, min_size=1, max_size=3),
            "movers": st.lists(mover, min_size=1, max_size=2),
        }
    ).map(lambda c: {**c, "model": "Spherical"} if c["method"] == "analytic" else c)


def joints() -> st.SearchStrategy:
    """Legs of other heights, and radii not much above those."""

    def near(c: dict, r: float) -> dict:
        out = {**c, "method": "analytic", "model": "Spherical", "level": None, "scale": 0.1}
        return {**out, "sensors": [{**x, "r": r} for x in c["sensors"]]}

    return st.builds(near, case(), st.floats(92, 140).map(lambda x: round(x, 1)))


class Mover(M.Pilot):
    loc = UP.GeodeticLocationChangingState(recording=True)


def check(case: dict, ctx: Ctx) -> None:
    globe = Globe(case)
    unit, up = case["units"]
    try:
        tracks = [M.Track(case["t0"], globe, m) for m in case["movers"]]
    except M.TooClose:
        ctx.label("a climb on the spot")
        return
    steep = [max((leg.steep for f in tr.flights for _, _, leg in f.legs), default=1.0) for tr in tracks]
    slowest = min((o["v"] for m in case["movers"] for o in m["script"] if o["op"] == "go"), default=1.0)
    sights = [Sight(case, s, globe) for s in case["sensors"]]
    # how far the reported times may be off, from metres
    eps = max((FINE + 5 * s.margin()) / G.METRES[unit] / slowest for s in sights) + 1e-9
    want: dict[tuple, list] = {}
    try:
        for k, s in enumerate(case["sensors"]):
            since = case["t0"] + s["late"] if s["late"] is not None else -math.inf
            for n, tr in enumerate(tracks):
                times = [x for f in tr.flights for x in (f.start, f.stop, f.tracked_until)] + [
                    t for t, _ in tr.hides
                ]
                if any(abs(since - t) < 1e-6 for t in times):
                    raise M.TooClose
                for f in tr.flights:
                    if f.tracked and f.tracked_until >= since:
                        for a, b, leg in f.legs:
                            for t in (max(f.start, since), f.tracked_until):
                                if a <= t <= b and a < b:
                                    if abs(sights[k].over(leg, (t - a) / (b - a))) < sights[k].margin():
                                        raise M.TooClose
                want[k, n] = M.membership(tr, sights[k].sees, since, 2 * eps, sights[k].edge)
    except M.TooClose:
        ctx.label("too close to a boundary")
        return
    log: list = []
    to_m = G.METRES[up]

    def loc(p: tuple) -> UP.GeodeticLocation:
        if p[3]:
            return UP.GeodeticLocation(math.radians(p[0]), math.radians(p[1]), p[2] / to_m, in_radians=True)
        return UP.GeodeticLocation(p[0], p[1], p[2] / to_m)

    with UP.EnvironmentContext(initial_time=case["t0"]) as env:
        UP.add_stage_variable("distance_units", unit)
        UP.add_stage_variable("altitude_units", up)
        UP.add_stage_variable("stage_model", MODELS[case["model"]])
        UP.add_stage_variable("intersection_model", get_intersection_locations)
        method = analytical_intersection if case["method"] == "analytic" else subdivide_intersection
        manager = UP.SensorMotionManager(method, debug=case["debug"])
        UP.add_stage_variable("motion_manager", manager)
        for k, s in enumerate(case["sensors"]):
            s = {**s, "r": s["r"] * 1000.0 * case["scale"] / G.METRES[unit]}

            def later(k: int = k, s: dict = s) -> Generator:
                yield env.timeout(s["late"])
                M.add_sensor(env, manager, s, k, loc(sights[k].place), log)

            if s["late"] is None:
                M.add_sensor(env, manager, s, k, loc(sights[k].place), log)
            else:
                env.process(later())
        for n, m in enumerate(case["movers"]):
            actor = Mover(name=f"m{n}", loc=loc(globe.point(m["at"])), detect=m["detect"], n=n)
            env.process(M.drive(env, actor, tracks[n].plan, loc))
        drain(env)
        where = []
        for t, k, n, e, p in log:
            p = p.to_degrees()
            where.append((t, k, n, e, (p.lat, p.lon, p.alt * to_m)))
    if [w[0] for w in where] != sorted(w[0] for w in where):
        raise Violation(f"notices are out of order: {where}")
    ctx.label(f"{case['method']} {case['model']}")
    for (k, n), exp in want.items():
        got = [(t, e, p) for t, kk, nn, e, p in where if (kk, nn) == (k, n)]
        M.compare(got, exp, (k, n), eps)
        for (t, e, p), (_, _, why) in zip(got, exp):
            if case["method"] == "subdivide" and why == "cross":
                off = math.dist(G.ecef(p, case["model"]), sights[k].centre) - sights[k].r
                if abs(off) > 2 * FINE * steep[n] + 5 * sights[k].margin():
                    raise Violation(
                        f"mover {n} was {off} m from the edge of sensor {k} when it was told {e!r}"
                    )
        if len(exp) > 1:
            ctx.nontrivial()
            ctx.label(f"{case['method']} {case['model']}: told twice or more")
        for why in {x[2] for x in exp}:
            ctx.label(why)
        for f in tracks[n].flights:
            for (_, b, one), (_, _, two) in zip(f.legs, f.legs[1:]):
                if any(x[2] == "cross" and abs(x[0] - b) < 1e-9 for x in exp):
                    into = sights[k].sees(two.start, two) <= 0
                    ctx.label("seen from the next leg" if into else "not seen from the next leg")
    if case["method"] == "analytic" and case["level"] is None and any(want.values()):
        ctx.label("analytic, legs of several heights")
    for n, tr in enumerate(tracks):
        if any(len(f.legs) > 1 for f in tr.flights) and any(not want[k, n] for k in range(len(sights))):
            ctx.label("several legs, nothing to report")
        if any(leg.length == 0 for f in tr.flights for _, _, leg in f.legs):
            ctx.label("leg of no length")


PROP = Prop(
    "C26",
    "a sensor is told at least twice about one mover",
    [
        Part("notices", case, check, quick=10000, thorough=50000),
        Part("joints", joints, check, quick=5000, thorough=30000),
    ],
    [
        "crossings are not within the method's resolution of waypoints, stops and switches, and legs do not graze",
        "visits that the subdividing method's samples, 5 nmi apart, can miss are not judged",
        "the analytical method measures on the ground, with a radius reduced for a leg's average height",
    ],
)
