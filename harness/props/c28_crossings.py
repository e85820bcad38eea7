"""C28: reported crossings lie on the path and on the boundary."""

from __future__ import annotations

import math
from typing import Any

from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.geography.intersections import find_crossing_points
from upstage_des.motion.cartesian_model import cartesian_linear_intersection, ray_intersection
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
from upstage_des.motion.great_circle_calcs import (
    get_course_rad,
    get_dist_rad,
    get_great_circle_points,
    get_pos_from_points_and_distance,
)

from harness import geo_ref as G
from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, st

MODELS = {"Spherical": Spherical, "WGS84": WGS84}


def fail(text: str) -> None:
    raise Violation(text)


# ---------------------------------------------------------------------------
# straight lines
# ---------------------------------------------------------------------------


def coord() -> st.SearchStrategy:
    return st.one_of(st.integers(-6, 6), st.floats(-10, 10).map(lambda x: round(x, 3)))


def ray_case() -> st.SearchStrategy:
    def made(n: int) -> st.SearchStrategy:
        place = st.lists(coord(), min_size=n, max_size=n)
        size = st.one_of(st.integers(1, 6), st.floats(0.05, 12).map(lambda x: round(x, 3)))
        return st.fixed_dictionaries(
            {
                "start": place,
                "toward": place,
                "centre": place,
                "radii": st.one_of(
                    size, st.lists(size, min_size=n, max_size=n), st.lists(size, min_size=1, max_size=1)
                ),
                "v": st.sampled_from([1.0, 0.3, 250]),
            }
        )

    return st.sampled_from([2, 3, 3]).flatmap(made)


def check_ray(case: dict, ctx: Ctx) -> None:
    n = len(case["start"])
    radii = case["radii"]
    each = [float(radii)] * n if not isinstance(radii, list) else (radii * n if len(radii) == 1 else radii)
    if isinstance(radii, list) and len(radii) > 1:
        ctx.label("ellipsoid")
    start, toward, centre = (tuple(case[k]) for k in ("start", "toward", "centre"))
    # in a space in which the ellipsoid is the unit sphere at the origin
    p = [(a - c) / r for a, c, r in zip(start, centre, each)]
    d = [(b - a) / r for a, b, r in zip(start, toward, each)]
    size = math.hypot(*d)
    want: list[float] = []  # multiples of the way from start to toward
    if size > 0:
        u = [x / size for x in d]
        along = -sum(a * b for a, b in zip(p, u))
        foot = math.hypot(*[a + along * b for a, b in zip(p, u)])
        if abs(foot - 1) < 1e-6 or abs(math.hypot(*p) - 1) < 1e-6:
            ctx.label("too close to a boundary")
            return
        if foot < 1:
            half = math.sqrt((1 - foot) * (1 + foot))
            want = [x / size for x in (along - half, along + half) if x >= 0]
    else:
        ctx.label("a ray of no length")
    got, times = ray_intersection(
        start, toward, centre, tuple(radii) if isinstance(radii, list) else radii, case["v"]
    )
    if len(got) != len(want) or len(times) != len(want):
        fail(f"a ray crosses at {got}, should be {len(want)} crossings")
    far = math.dist(start, toward)
    for g, t, w in zip(got, times, want):
        place = [a + w * (b - a) for a, b in zip(start, toward)]
        tol = 1e-7 * (1 + math.dist(start, place))
        if len(g) != n or math.dist(g, place) > tol:
            fail(f"a crossing is at {g}, should be {place}")
        if abs(t - w * far / case["v"]) > tol / case["v"]:
            fail(f"a crossing is at time {t}, should be {w * far / case['v']}")
    if want:
        ctx.nontrivial()
        ctx.label(f"{len(want)} crossings of a ray")


METRES = {"m": 1.0, "km": 1000.0, "ft": 0.3048}


def line_case() -> st.SearchStrategy:
    place = st.tuples(
        coord(), coord(), st.one_of(st.just(0), coord()), st.sampled_from([False, False, True])
    ).map(list)
    return st.fixed_dictionaries(
        {
            "units": st.sampled_from([["km", "m"], ["m", "km"], ["km", "km"], ["ft", "ft"]]),
            "start": place,
            "finish": place,
            "centre": place,
            "r": st.one_of(st.sampled_from([1, 5.0]), st.floats(0.05, 15).map(lambda x: round(x, 3))),
            "v": st.sampled_from([1, 0.3, 250.0]),
        }
    )


def check_line(case: dict, ctx: Ctx) -> None:
    up = METRES[case["units"][1]] / METRES[case["units"][0]]

    def flat(p: list) -> tuple:
        return (float(p[0]), float(p[1]), float(p[2]) * (up if p[3] else 1.0))

    a, b, c = (flat(case[k]) for k in ("start", "finish", "centre"))
    r, v, length = case["r"], case["v"], math.dist(a, b)
    sides = [math.dist(a, c) - r, math.dist(b, c) - r]
    if min(map(abs, sides)) < 1e-5 * (1 + r):
        ctx.label("too close to a boundary")
        return
    cuts: list[float] = []
    if length > 0:
        u = [(y - x) / length for x, y in zip(a, b)]
        along = sum(k * (y - x) for k, x, y in zip(u, a, c))
        miss = math.dist([x + along * k for x, k in zip(a, u)], c)
        if abs(miss - r) < 1e-5 * (1 + r):
            ctx.label("too close to a boundary")
            return
        if miss < r:
            half = math.sqrt((r - miss) * (r + miss))
            cuts = [x for x in (along - half, along + half) if 0 < x < length]
    want = [("START_INSIDE", 0.0)] if sides[0] < 0 else []
    want += [("EXIT" if (k + len(want)) % 2 else "ENTER", x) for k, x in enumerate(cuts)]
    want += [("END_INSIDE", length)] if sides[1] < 0 else []
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", case["units"][0])
        UP.add_stage_variable("altitude_units", case["units"][1])

        def loc(p: list) -> Any:
            return UP.CartesianLocation(*p[:3], use_altitude_units=p[3])

        got, times, kinds, total = cartesian_linear_intersection(
            loc(case["start"]), loc(case["finish"]), v, loc(case["centre"]), r
        )
        places = [g._as_array() for g in got]
    if abs(total - length / v) > 1e-9 * (1 + length / v):
        fail(f"a path of {length} at {v} takes {total}")
    if not want:
        if got or times:
            fail(f"a path that misses crosses at {places}, {times}")
        return
    ctx.nontrivial()
    ctx.label("line " + " ".join(k for k, _ in want))
    if kinds != [k for k, _ in want] or len(got) != 2 or len(times) != 2:
        fail(f"crossings are {kinds} {times}, should be {want}")
    for g, t, (k, x) in zip(places, times, want):
        place = [p + (x / length if length else 0.0) * (q - p) for p, q in zip(a, b)]
        if math.dist(g, place) > 1e-7 * (1 + length + r) or abs(t - x / v) > 1e-7 * (1 + length + r) / v:
            fail(f"{k} is at {g}, {t}, should be {place}, {x / v}")


# ---------------------------------------------------------------------------
# great circles
# ---------------------------------------------------------------------------


def lat() -> st.SearchStrategy:
    return st.one_of(st.sampled_from([0.0, 30.0, -45.0, 80.0]), st.floats(-89, 89).map(lambda x: round(x, 5)))


def lon() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 90.0, -180.0, 179.5]), st.floats(-180, 180).map(lambda x: round(x, 5))
    )


def brg() -> st.SearchStrategy:
    return st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), st.floats(0, 360).map(lambda x: round(x, 3)))


def leg_case(max_leg: float, max_r: float) -> st.SearchStrategy:
    """A leg, and a sensor placed by how far along and across the leg it is, in metres and radii."""
    return st.fixed_dictionaries(
        {
            "a": st.tuples(lat(), lon()).map(list),
            "b": brg(),
            "s": st.one_of(
                st.floats(2.5, math.log10(max_leg)).map(lambda e: round(10.0**e, 2)),
                st.sampled_from([1e4, 1e5, 1e6]) if max_leg < 1e7 else st.floats(1e6, max_leg),
            ),
            "r": st.one_of(
                st.floats(2.5, math.log10(max_r)).map(lambda e: round(10.0**e, 2)),
                st.sampled_from([1e4, 1e5]) if max_r < 5e6 else st.floats(1e6, max_r),
            ),
            "along": st.one_of(
                st.sampled_from([0.0, 1.0, 0.5]), st.floats(-0.3, 1.3).map(lambda x: round(x, 4))
            ),
            "over": st.sampled_from([0.0, 0.0, 0.5, -0.5, 1.5]),
            "across": st.one_of(st.just(0.0), st.floats(-1.4, 1.4).map(lambda x: round(x, 4))),
            "rad": st.tuples(*[st.booleans()] * 3).map(list),
            "v": st.sampled_from([1.0, 250.0, 0.2]),
        }
    )


def situate(case: dict) -> tuple:
    """The leg's ends and the centre, as lat/lon in degrees."""
    a = tuple(case["a"])
    b = G.travel(a, case["b"], case["s"] / G.R)
    ahead = (case["along"] * case["s"] + case["over"] * case["r"]) / G.R
    if case["across"] == 0 and ahead == 0:
        return a, b, a
    on = G.travel(a, case["b"], ahead)
    if case["across"] == 0:
        return a, b, on if abs(ahead * G.R - case["s"]) > 1e-6 else b
    # the direction of travel there, from a point further on
    way = G.course(on, G.travel(a, case["b"], ahead + 1e-2))
    return a, b, G.travel(on, way + 90, case["across"] * case["r"] / G.R)


class Arc:
    """A great-circle leg, by vectors."""

    def __init__(self, a: tuple, b: tuple) -> None:
        self.a, self.u = a, G.vec(a)
        w = G.vec(b)
        n = G.cross(self.u, w)
        k = G.norm(n)
        self.length = math.atan2(k, G.dot(self.u, w))
        n = tuple(x / k for x in n)
        self.e = G.cross(n, self.u)

    def at(self, x: float) -> tuple:
        return G.to_ll([math.cos(x) * p + math.sin(x) * q for p, q in zip(self.u, self.e)])

    def cuts(self, centre: tuple, r: float) -> list | None:
        """Where the circle around a place crosses the great circle, or None; angles, the first
        not before -r... so that the part inside meets the leg if any turn of it does."""
        c = G.vec(centre)
        x, y = G.dot(c, self.u), G.dot(c, self.e)
        rho, delta = math.hypot(x, y), math.atan2(y, x)
        off = math.atan2(abs(G.dot(c, G.cross(self.u, self.e))), rho)
        if abs(off - r) < 1e-7 + 1e-6 * r:
            raise Close
        if off > r:
            return None
        half = math.acos(max(-1.0, min(1.0, math.cos(r) / rho)))
        for turn in (0.0, 2 * math.pi):
            lo, hi = delta - half + turn, delta + half + turn
            if min(abs(lo), abs(hi), abs(lo - self.length), abs(hi - self.length)) < 1e-7 + 1e-6 * r:
                raise Close
            if hi > 0 and lo < self.length:
                return [lo, hi]
        return None


class Close(Exception):
    pass


def geo(p: tuple, rad: bool, alt: float = 0.0) -> UP.GeodeticLocation:
    if rad:
        return UP.GeodeticLocation(math.radians(p[0]), math.radians(p[1]), alt, in_radians=True)
    return UP.GeodeticLocation(p[0], p[1], alt)


def circle_case() -> st.SearchStrategy:
    return leg_case(1.9e7, 8e6)


def check_circle(case: dict, ctx: Ctx) -> None:
    a, b, c = situate(case)
    r = case["r"] / G.R
    arc = Arc(a, b)
    try:
        want = arc.cuts(c, r)
    except Close:
        ctx.label("too close to a boundary")
        return
    with UP.EnvironmentContext():
        la, lb, lc = (geo(p, rad) for p, rad in zip((a, b, c), case["rad"]))
        d = get_dist_rad(la, lb)
        if abs(d - arc.length) > 1e-9 * (1 + 10 * (arc.length > 3)):
            fail(f"{a} and {b} are {d} apart, should be {arc.length}")
        x = 0.37 * arc.length
        mid = get_pos_from_points_and_distance(la, lb, x)
        near(mid, arc.at(x), 1e-8, "a point along the way")
        way = get_course_rad(la, lb)
        # measured the other way round
        if (
            abs(math.remainder(-math.degrees(way) - case["b"], 360)) > 1e-5 + 1e-2 / case["s"]
            and abs(a[0]) < 89.5
        ):
            fail(f"the course from {a} to {b} is {math.degrees(way)}, should be {-case['b'] % 360}")
        got = get_great_circle_points(la, lb, lc, r)
    if (got is None) != (want is None):
        fail(f"the circle of {case['r']} m around {c} cuts {a} -> {b} at {got}, should be {want}")
    if got is None:
        ctx.label("no crossing")
        return
    points, dists = got
    ctx.nontrivial()
    if want[1] > math.pi:
        ctx.label("crossings beyond the far side")
    if arc.length > math.pi / 2:
        ctx.label("a leg over a quarter of the way round")
    if want[0] < 0 and want[1] > arc.length:
        ctx.label("inside all the way")
    for p, x, w in zip(points, dists, want):
        # an arc cosine of a number next to one loses digits
        tol = 1e-8 + 1e-14 / r + 1e-14 / abs(want[1] - want[0])
        if abs(x - w) > tol:
            fail(f"crossings are at {dists}, should be {want}")
        near(p, arc.at(w), 2 * tol, "a crossing")
        off = G.angle([math.degrees(q) for q in p], c)
        if abs(off - r) > 2 * tol:
            fail(f"a crossing is {off} from the centre, should be {r}")


def near(p: tuple, q: tuple, tol: float, what: str) -> None:
    if G.angle([math.degrees(x) for x in p], q) > tol:
        fail(f"{what} is {[math.degrees(x) for x in p]}, should be {q}")


# ---------------------------------------------------------------------------
# the two ways of crossing a sphere
# ---------------------------------------------------------------------------

HEIGHTS = [0.0, 0.0, 500.0, 9000.0, 12000.0]


def analytic_case() -> st.SearchStrategy:
    heights = st.one_of(
        st.sampled_from([[0.0] * 3, [9000.0, 9000.0, 0.0], [9000.0] * 3]),
        st.lists(st.sampled_from(HEIGHTS), min_size=3, max_size=3),
    )
    return st.tuples(leg_case(5e6, 2e6), heights, units()).map(lambda x: {**x[0], "h": x[1], "units": x[2]})


def units() -> st.SearchStrategy:
    return st.sampled_from([["km", "m"], ["nmi", "ft"], ["m", "m"], ["km", "km"]])


def in_stage(case: dict, model: str) -> tuple:
    """Set the stage, and the leg's ends and centre as locations in its units."""
    du, au = case["units"]
    UP.add_stage_variable("stage_model", MODELS[model])
    UP.add_stage_variable("distance_units", du)
    UP.add_stage_variable("altitude_units", au)
    UP.add_stage_variable("intersection_model", get_intersection_locations)
    places = situate(case)
    alts = [h / G.METRES[au] for h in case["h"]]
    locs = [geo(p, rad, alt) for p, rad, alt in zip(places, case["rad"], alts)]
    return places, locs


def check_analytic(case: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext():
        (a, b, c), (la, lb, lc) = in_stage(case, "Spherical")
        du, au = case["units"]
        arc = Arc(a, b)
        v = case["v"]
        got, times, kinds, total = analytical_intersection(la, lb, v, lc, case["r"] / G.METRES[du])
        got = [
            (*(math.degrees(x) if g.in_radians else x for x in (g.lat, g.lon)), g.alt * G.METRES[au])
            for g in got
        ]
    rel = 3e-6 if "nmi" in case["units"] or "ft" in case["units"] else 1e-8
    whole = arc.length * G.R / G.METRES[du] / v
    if abs(total - whole) > rel * whole:
        fail(f"the leg takes {total}, should be {whole}")
    # the method takes the ground distance, with a radius reduced for the average height
    h1, h2, h3 = case["h"]
    up = (h1 + h2) / 2 - h3
    want: list = []
    try:
        if abs(abs(up) - case["r"]) < 1e-4 * case["r"]:
            raise Close
        if abs(up) < case["r"]:
            r = math.sqrt(case["r"] ** 2 - up**2) / G.R
            cuts = arc.cuts(c, r)
            if cuts:
                lo, hi = cuts
                want.append(("START_INSIDE", 0.0) if lo < 0 else ("ENTER", lo))
                want.append(("END_INSIDE", arc.length) if hi > arc.length else ("EXIT", hi))
        else:
            ctx.label("too high to be seen")
    except Close:
        ctx.label("too close to a boundary")
        return
    if not want:
        if got or times:
            fail(f"a leg that misses is reported as {kinds} {times}")
        return
    ctx.nontrivial()
    ctx.label("great circle " + " ".join(k for k, _ in want))
    if kinds != [k for k, _ in want] or not len(got) == len(times) == 2:
        fail(f"crossings are {kinds} at {times}, should be {want}")
    for g, t, (k, x) in zip(got, times, want):
        tol = 1e-8 + 1e-14 / r + 1e-14 / abs(cuts[1] - cuts[0]) + rel * (r + r)
        if abs(t * v * G.METRES[du] / G.R - x) > 2 * tol + rel * x:
            fail(f"{k} is at {t}, should be {x * G.R / G.METRES[du] / v}")
        if G.angle(g, arc.at(x)) > 2 * tol:
            fail(f"{k} is at {g}, should be {arc.at(x)}")
        alt = h1 + (h2 - h1) * x / arc.length
        if abs(g[2] - alt) > 1e-2 + 1e-5 * abs(alt) + abs(h2 - h1) * 2 * tol / arc.length:
            fail(f"{k} is at a height of {g[2]} m, should be {alt}")


def sub_case() -> st.SearchStrategy:
    heights = st.one_of(
        st.sampled_from([[0.0] * 3, [9000.0, 9000.0, 0.0], [9000.0] * 3]),
        st.lists(st.sampled_from(HEIGHTS), min_size=3, max_size=3),
    )
    return st.tuples(
        leg_case(4e5, 2e5),
        heights,
        units(),
        st.sampled_from(sorted(MODELS)),
        st.sampled_from([None, None, 3000.0, 20000.0]),
        st.sampled_from([None, [10, 20], [20, 20], [5]]),
    ).map(lambda x: {**x[0], "h": x[1], "units": x[2], "model": x[3], "step": x[4], "levels": x[5]})


class Curve:
    """A leg over either model of the earth with its height changing evenly: place in space by fraction."""

    def __init__(self, a: tuple, b: tuple, h: list, model: str) -> None:
        self.model, self.h = model, h
        if model == "Spherical":
            self.arc = Arc(a, b)
            self.length = self.arc.length * G.R
        else:
            self.a = a
            self.length, self.bearing = WGS84.distance_and_bearing(a, b, units="m")

    def at(self, x: float) -> tuple:
        if self.model == "Spherical":
            p = self.arc.at(x * self.arc.length)
        else:
            p = G.wgs_direct(self.a, self.bearing, x * self.length)[:2]
        return (*p, self.h[0] + x * (self.h[1] - self.h[0]))

    def away(self, x: float, centre: tuple) -> float:
        return math.dist(G.ecef(self.at(x), self.model), centre)


def check_sub(case: dict, ctx: Ctx) -> None:
    model, (h1, h2, h3) = case["model"], case["h"]
    a, b, c = situate(case)
    curve = Curve(a, b, [h1, h2], model)
    centre = G.ecef((*c, h3), model)
    r = case["r"]
    step = case["step"] or 9260.0
    segments = max(3, int(curve.length / step) + 1)
    # how finely the method looks: first, and at the end
    coarse = curve.length / segments
    levels = case["levels"] or [10, 20]
    fine = min(step / math.prod(levels), coarse / 3 ** len(levels))
    ends = [curve.away(x, centre) - r for x in (0.0, 1.0)]
    # the nearest point, as the distance only falls and then rises
    lo, hi = 0.0, 1.0
    for _ in range(80):
        m, n = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if curve.away(m, centre) < curve.away(n, centre):
            hi = n
        else:
            lo = m
    foot = (lo + hi) / 2
    nearest = curve.away(foot, centre) - r
    if min(abs(e) for e in ends) < 0.01 or abs(nearest) < 0.01:
        ctx.label("too close to a boundary")
        return

    def root(inside: float, outside: float) -> float:
        for _ in range(60):
            m = (inside + outside) / 2
            if curve.away(m, centre) <= r:
                inside = m
            else:
                outside = m
        return (inside + outside) / 2

    want: list = []
    if nearest < 0:
        first = ("START_INSIDE", 0.0) if ends[0] < 0 else ("ENTER", root(foot, 0.0))
        last = ("END_INSIDE", 1.0) if ends[1] < 0 else ("EXIT", root(foot, 1.0))
        want = [first, last]
    unsure = (
        bool(want)
        and first[0] == "ENTER"
        and last[0] == "EXIT"
        and (last[1] - first[1]) * curve.length < 1.01 * coarse
    )
    with UP.EnvironmentContext():
        (a, b, c), (la, lb, lc) = in_stage(case, model)
        du, au = case["units"]
        lla = [(*p, h) for p, h in zip((a, b, c), case["h"])]
        rough = find_crossing_points(lla[0], lla[1], lla[2], MODELS[model], r, step)
        got = get_intersection_locations(
            lla[0], lla[1], lla[2], r / G.METRES[du], du, MODELS[model], case["step"], case["levels"]
        )
        wrapped = subdivide_intersection(la, lb, case["v"], lc, r / G.METRES[du])
        places = [
            (*(math.degrees(x) if g.in_radians else x for x in (g.lat, g.lon)), g.alt * G.METRES[au])
            for g in wrapped[0]
        ]
    kinds = [g.kind for g in got]
    sides = ["START_" + ("INSIDE" if ends[0] < 0 else "OUT"), "END_" + ("INSIDE" if ends[1] < 0 else "OUT")]
    if [rough[0].kind, rough[-1].kind] != sides:
        fail(f"a leg is said to be {rough[0].kind} and {rough[-1].kind}, should be {sides}")
    rel = 3e-6 if "nmi" in case["units"] or "ft" in case["units"] else 1e-9
    whole = curve.length / G.METRES[du] / case["v"]
    if abs(wrapped[3] - whole) > (rel + 1e-6) * whole:
        fail(f"the leg takes {wrapped[3]}, should be {whole}")
    if unsure and not kinds:
        ctx.label("a visit between two samples")
        return
    if kinds != [k for k, _ in want]:
        fail(f"crossings are {kinds}, should be {want}")
    slack = r * rel + 0.01
    for g, (k, x) in zip(got, want):
        compare(curve, centre, r, k, x, g.begin, fine, slack)
    if want:
        ctx.nontrivial()
        ctx.label("subdivided " + " ".join(kinds))
    coarse_default = max(3, int(curve.length / 9260.0) + 1)
    if unsure or (want and (want[1][1] - want[0][1]) * coarse_default < 1.01):
        return
    if (wrapped[2] if want else []) != [k for k, _ in want] or (not want and wrapped[0]):
        fail(f"crossings of locations are {wrapped[2]}, should be {want}")
    for p, t, (k, x) in zip(places, wrapped[1], want):
        compare(curve, centre, r, k, x, p, 9260 / 200, slack)
        at = t * case["v"] * G.METRES[du]
        if abs(at - x * curve.length) > 1.05 * 9260 / 200 + slack + 2 * rel * curve.length + skew(
            x, curve, centre, r
        ):
            fail(f"{k} is at {t}, should be {x * whole}")


def skew(x: float, curve: Curve, centre: tuple, r: float) -> float:
    """How far along the leg a change of the radius by a rounding of units moves the crossing."""
    if x in (0.0, 1.0):
        return 0.0
    d = 1e-5
    slope = abs(curve.away(x + d, centre) - curve.away(x - d, centre)) / (2 * d * curve.length)
    return min((3e-6 * r + 0.01) / max(slope, 1e-9), 2000.0)


def compare(
    curve: Curve, centre: tuple, r: float, kind: str, x: float, p: tuple, fine: float, slack: float
) -> None:
    """A crossing is on the leg, on the inner side of the edge, and not further from it than the method looks."""
    steep = math.hypot(1.0, (curve.h[1] - curve.h[0]) / curve.length)
    at = math.dist(G.ecef(p, curve.model), G.ecef(curve.at(x), curve.model)) / steep
    if at > 1.05 * fine + slack + skew(x, curve, centre, r):
        fail(f"{kind} is at {p}, {at} m of ground from {curve.at(x)}")
    if math.dist(G.ecef(p, curve.model), centre) > r + slack:
        fail(f"{kind} at {p} is out of range")


PROP = Prop(
    "C28",
    "a path crosses a boundary",
    [
        Part("ray", ray_case, check_ray, quick=6000, thorough=100000),
        Part("line", line_case, check_line, quick=5000, thorough=100000),
        Part("circle", circle_case, check_circle, quick=9000, thorough=100000),
        Part("analytic", analytic_case, check_analytic, quick=5000, thorough=80000),
        Part("subdivided", sub_case, check_sub, quick=2500, thorough=40000),
    ],
    [
        "paths do not touch a boundary within rounding, and do not end on one",
        "the distance to a centre falls and then rises along a leg: legs below half a great circle",
    ],
)
