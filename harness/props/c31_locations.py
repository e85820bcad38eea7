"""C31: location objects are immutable points with a consistent distance."""

from __future__ import annotations

import copy
import math

from upstage_des.geography import WGS84, Spherical

from harness import geo_ref as G
from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, expect_raises, st

UNITS = ["m", "km", "mi", "nmi", "ft"]
MODELS = {"Spherical": Spherical, "WGS84": WGS84}
FROZEN = (AttributeError,)  # FrozenInstanceError is one
VALUES = [0.0, 1.0, -7.5, 1e6, None]


def stage(c: dict) -> None:
    UP.add_stage_variable("distance_units", c["du"])
    UP.add_stage_variable("altitude_units", c["au"])
    if "model" in c:
        UP.add_stage_variable("stage_model", MODELS[c["model"]])


def frozen(loc, fields: tuple[str, ...], v) -> None:
    before = {f: getattr(loc, f) for f in fields}
    h, text = hash(loc), repr(loc)
    for f in fields:
        expect_raises(f"setting {f} of {loc!r}", FROZEN, setattr, loc, f, v)
        expect_raises(f"setting {f} of {loc!r} again", FROZEN, setattr, loc, f, before[f])
    expect_raises(
        "item assignment",
        TypeError,
        lambda: loc.__class__.__setitem__(loc, 0, v) if hasattr(loc, "__setitem__") else _no(),
    )
    now = {f: getattr(loc, f) for f in fields}
    if now != before or hash(loc) != h or repr(loc) != text:
        raise Violation(f"a location changed from {before} to {now} / {text} to {loc!r}")


def _no():
    raise TypeError


def refusals(loc, others) -> None:
    for o in others:
        expect_raises(f"{loc!r} == {o!r}", ValueError, lambda: loc == o)
        expect_raises(f"{loc!r} != {o!r}", ValueError, lambda: loc != o)
        expect_raises(f"{loc!r} - {o!r}", ValueError, lambda: loc - o)
        expect_raises(
            f"straight line of {loc!r} to {o!r}", (ValueError, TypeError), loc.straight_line_distance, o
        )


def same_all_ways(a, b, want: bool, why: str) -> None:
    for x, y in ((a, b), (b, a)):
        if (x == y) is not want or (x != y) is want:
            raise Violation(f"{x!r} == {y!r} is {x == y} and != is {x != y}: {why}")


# --- Cartesian ------------------------------------------------------------------


def coord() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 1.0, -1.0, 10.0, 3.5, 1e5]),
        st.integers(-1000, 1000),
        st.floats(-1e5, 1e5, allow_nan=False),
        st.floats(-50, 50).map(lambda x: round(x, 3)),
    )


def xyz() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "p": st.lists(coord(), min_size=3, max_size=3),
            "alt": st.booleans(),
            "noz": st.sampled_from([False, False, True]),
        }
    )


def cart_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "du": st.sampled_from(UNITS),
            "au": st.sampled_from(UNITS),
            "pts": st.lists(xyz(), min_size=3, max_size=4),
            "near": st.one_of(st.none(), st.floats(0, 3e-5), st.sampled_from([0.0, 9e-6, 1.1e-5, 1e-3])),
            "set": st.sampled_from(VALUES),
            "bare": st.booleans(),
        }
    )


def cart_check(c: dict, ctx: Ctx) -> None:
    k = G.METRES[c["au"]] / G.METRES[c["du"]]
    rel = 1e-6 if {c["du"], c["au"]} & {"mi", "nmi", "ft"} else 1e-12
    with UP.EnvironmentContext():
        bare = c["bare"] and not any(q["alt"] for q in c["pts"])
        if not bare:
            stage(c)
        locs, true, raw = [], [], []
        pts = list(c["pts"])
        if c["near"] is not None:
            p = dict(pts[0])
            p["p"] = [p["p"][0] + c["near"], *p["p"][1:]]
            pts.append(p)
        for q in pts:
            x, y, z = q["p"]
            if q["noz"]:
                z = 0.0
                a = UP.CartesianLocation(x, y, use_altitude_units=q["alt"])
            else:
                a = (
                    UP.CartesianLocation(x=x, y=y, z=z, use_altitude_units=q["alt"])
                    if q["alt"]
                    else UP.CartesianLocation(x, y, z)
                )
            locs.append(a)
            raw.append((x, y, z, q["alt"]))
            true.append((x, y, z * k if q["alt"] else z))
        ctx.label("bare" if bare else "mixed" if len({q["alt"] for q in pts}) > 1 else "plain")

        def dist(i, j):
            return math.dist(true[i], true[j])

        n = len(locs)
        for i in range(n):
            a = locs[i]
            b = a.copy()
            other = UP.CartesianLocation(*raw[i][:3], use_altitude_units=raw[i][3])
            for x in (b, other, copy.copy(a), copy.deepcopy(a)):
                same_all_ways(a, x, True, "a copy or equal coordinates")
                if hash(x) != hash(a) or {a: 1}.get(x) != 1:
                    raise Violation(f"an equal location {x!r} is another dictionary key than {a!r}")
                if (x.x, x.y, x.z, x.use_altitude_units) != raw[i]:
                    raise Violation(f"copy of {raw[i]} is {x!r}")
                if a - x != 0.0:
                    raise Violation(f"distance of {a!r} to its copy is {a - x}")
            if b is a:
                raise Violation("copy returned the location itself")
            got = [a[0], a[1], a[2]]
            if tuple(got) != raw[i][:3]:
                raise Violation(f"items of {raw[i]} are {got}")
            for bad in (-1, 3, 10):
                expect_raises(f"item {bad}", (ValueError, IndexError), lambda: a[bad])
            for j in range(n):
                d, want = a - locs[j], dist(i, j)
                # rounded unit constants act on the heights
                tol = (
                    1e-12
                    + 1e-12 * max(map(abs, (*true[i], *true[j])))
                    + rel * (abs(true[i][2]) + abs(true[j][2]))
                )
                if abs(d - want) > tol:
                    raise Violation(
                        f"{raw[i]} - {raw[j]} (distance {c['du']}, altitude {c['au']}) is {d}, should be {want}"
                    )
                if d != locs[j] - a:
                    raise Violation(f"distance {raw[i]} {raw[j]} is not symmetric: {d}, {locs[j] - a}")
                if a.straight_line_distance(locs[j]) != d:
                    raise Violation(f"straight-line distance {a.straight_line_distance(locs[j])} is not {d}")
                if want > 1e-5 * (1 + 1e-6) + tol:
                    same_all_ways(a, locs[j], False, f"{want} apart")
                    ctx.nontrivial()
                elif want < 1e-5 * (1 - 1e-6) - tol:
                    same_all_ways(a, locs[j], True, f"only {want} apart")
                    if i != j and raw[i] != raw[j]:
                        ctx.label("nearly equal")
                for m in range(n):
                    via = (a - locs[m]) + (locs[m] - locs[j])
                    if via < d - 1e-9 * (1 + d):
                        raise Violation(f"triangle {raw[i]} {raw[m]} {raw[j]}: {d} > {via}")
            frozen(a, ("x", "y", "z", "use_altitude_units"), c["set"])
            dx = UP.CartesianLocationData(*raw[i][:3], use_altitude_units=raw[i][3])
            # what is left out is the default
            less = dict(zip("xyz", raw[i])) if raw[i][2] else dict(zip("xy", raw[i]))
            if not raw[i][3]:
                less["use_altitude_units"] = False
            least = UP.CartesianLocationData(**less)
            if (least.x, least.y, least.z, least.use_altitude_units) != raw[i] or not least == dx:
                raise Violation(f"stored data of {less} is {vars(least)}")
            if (dx.x, dx.y, dx.z, dx.use_altitude_units) != raw[i]:
                raise Violation(f"stored data of {raw[i]} is {vars(dx)}")
            for _ in range(2):
                made = dx.make_location()
                if (made.x, made.y, made.z, made.use_altitude_units) != raw[i] or not made == a:
                    raise Violation(f"location made from data {raw[i]} is {made!r}")
            for j in range(n):
                dy = UP.CartesianLocationData(*raw[j][:3], use_altitude_units=raw[j][3])
                x, y = raw[i], raw[j]
                want = x[:3] == y[:3] and (x[3] == y[3] or x[2] == 0)
                same_all_ways(dx, dy, want, "stored data")
            expect_raises("data == tuple", ValueError, lambda: dx == raw[i])
        refusals(locs[0], [10, None, "x", tuple(raw[0]), UP.GeodeticLocation(1.0, 2.0, 3.0)])


# --- geodetic -------------------------------------------------------------------


def lat() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 33.0, -86.0, 90.0, -90.0, 45.5]),
        st.floats(-90, 90),
        st.floats(-90, 90).map(lambda x: round(x, 3)),
    )


def lon() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 180.0, -180.0, 179.999, 90.0]),
        st.floats(-180, 180),
        st.floats(-180, 180).map(lambda x: round(x, 3)),
    )


def alt() -> st.SearchStrategy:
    return st.one_of(st.sampled_from([0.0, 0, 1000, 30000.0]), st.floats(-50, 6e4).map(lambda x: round(x, 2)))


def geo_case() -> st.SearchStrategy:
    pt = st.fixed_dictionaries(
        {"lat": lat(), "lon": lon(), "alt": alt(), "rad": st.booleans(), "noalt": st.booleans()}
    )
    return st.fixed_dictionaries(
        {
            "du": st.sampled_from(UNITS),
            "au": st.sampled_from(UNITS),
            "model": st.sampled_from(sorted(MODELS)),
            "pts": st.lists(pt, min_size=2, max_size=3),
            "leg": st.tuples(
                st.floats(0, 360), st.one_of(st.floats(0, 7.25).map(lambda e: 10.0**e), st.floats(0, 1.9e7))
            ).map(list),
            "legrad": st.booleans(),
            "set": st.sampled_from(VALUES),
        }
    )


def ecef(model: str, la: float, lo: float, h: float):
    """Earth-centred position from the definition of the two bodies."""
    u = G.vec((la, lo))
    if model == "Spherical":
        return [(G.R + h) * x for x in u]
    nn = G.A / math.sqrt(1 - G.E2 * math.sin(math.radians(la)) ** 2)
    return [(nn + h) * u[0], (nn + h) * u[1], (nn * (1 - G.E2) + h) * u[2]]


def geo_check(c: dict, ctx: Ctx) -> None:
    name, du, au = c["model"], c["du"], c["au"]
    ku, ka = G.METRES[du], G.METRES[au]
    rel = 1e-6 if {du, au} & {"mi", "nmi", "ft"} else 1e-11
    with UP.EnvironmentContext():
        stage(c)
        deg, raw, locs = [], [], []
        pts = [dict(p) for p in c["pts"]]
        b, s = c["leg"]
        p0 = (pts[0]["lat"], pts[0]["lon"])
        if name == "Spherical":
            q = G.travel(p0, b, s / G.R)
        else:
            la, lo, _ = G.wgs_direct(p0, b, s)
            q = (la, (lo + 180) % 360 - 180)
        pts.append({"lat": q[0], "lon": q[1], "alt": pts[1]["alt"], "rad": c["legrad"], "noalt": False})
        for p in pts:
            la, lo, h = p["lat"], p["lon"], 0.0 if p["noalt"] else p["alt"]
            if p["rad"]:
                v = (math.radians(la), math.radians(lo))
            else:
                v = (la, lo)
            if p["noalt"]:
                a = UP.GeodeticLocation(*v, in_radians=p["rad"])
            elif p["rad"]:
                a = UP.GeodeticLocation(lat=v[0], lon=v[1], alt=h, in_radians=True)
            else:
                a = UP.GeodeticLocation(*v, h)
            locs.append(a)
            deg.append((la, lo, h))
            raw.append((*v, h, p["rad"]))
        n = len(locs)
        ctx.label(name, "mixed angles" if len({r[3] for r in raw}) > 1 else "same angles")
        ctx.nontrivial(s > 1.0)
        expect = {(0, n - 1): s}
        for i in range(n):
            a, (la, lo, h) = locs[i], deg[i]
            r, d = a.to_radians(), a.to_degrees()
            twin = UP.GeodeticLocation(*raw[i][:3], in_radians=raw[i][3])
            for x in (a.copy(), twin, copy.copy(a), copy.deepcopy(a)):
                same_all_ways(a, x, True, "a copy or equal coordinates")
                if hash(x) != hash(a) or {a: 1}.get(x) != 1:
                    raise Violation(f"an equal location {x!r} is another dictionary key than {a!r}")
                if (x.lat, x.lon, x.alt, x.in_radians) != raw[i]:
                    raise Violation(f"copy of {raw[i]} is {x!r}")
            if a.copy() is a:
                raise Violation("copy returned the location itself")
            for x in (r, d):
                same_all_ways(a, x, True, "the same point in other angles")
            if not r.in_radians or d.in_radians or r.alt != h or d.alt != h:
                raise Violation(f"{a!r} is {r!r} in radians and {d!r} in degrees")
            if r.to_radians() is not r or d.to_degrees() is not d:
                raise Violation("conversion to the same angles did not return the location itself")
            for got, want in (
                ((r.lat, r.lon), (math.radians(la), math.radians(lo))),
                ((d.lat, d.lon), (la, lo)),
                (a.latlon(), (la, lo)),
                (r.latlon(), (la, lo)),
            ):
                if any(abs(x - y) > 1e-12 for x, y in zip(got, want, strict=True)):
                    raise Violation(f"angles of {a!r} are {got}, should be {want}")
            if (a[0], a[1], a[2]) != raw[i][:3]:
                raise Violation(f"items of {raw[i]} are {a[0], a[1], a[2]}")
            for bad in (-1, 3, 10):
                expect_raises(f"item {bad}", IndexError, lambda: a[bad])
            if a - a != 0 or abs(r - d) * ku > 2e-3:
                raise Violation(f"{a!r} is {a - a} from itself, {r - d} in other angles")
            for j in range(n):
                e = locs[j]
                # a WGS84 pair close to antipodal may be refused (Vincenty does not converge)
                ang = G.angle(deg[i][:2], deg[j][:2])
                try:
                    x = a - e
                except ValueError:
                    if name == "WGS84" and math.pi - ang < 0.03:
                        ctx.label("antipodal-refused")
                        continue
                    raise
                y = e - a
                # the inverse of a cosine near one (or minus one) loses half the digits
                tol = 2e-3 + 1e-12 * G.R * ang
                if abs(x - y) * ku > tol:
                    raise Violation(f"distance {deg[i]} {deg[j]} is {x} one way and {y} the other")
                want = G.R * ang
                if name == "WGS84":
                    if abs(x * ku - want) > 0.007 * want + tol:
                        raise Violation(f"{name} {deg[i]} - {deg[j]} is {x} {du}, sphere {want} m")
                elif abs(x * ku - want) > 0.2 + rel * want:
                    raise Violation(f"{name} {deg[i]} - {deg[j]} is {x} {du}, should be {want} m")
                known = expect.get((i, j), expect.get((j, i)))
                if known is not None and abs(x * ku - known) > 4e-3 + rel * known:
                    raise Violation(f"{name} {deg[i]} - {deg[j]} is {x} {du}, should be {known} m")
                model_says = MODELS[name].distance(d.latlon(), e.latlon(), units=du)
                if abs(model_says - x) * ku > tol:
                    raise Violation(f"{a!r} - {e!r} is {x}, the model says {model_says}")
                for f in (e.to_radians(), e.to_degrees()):
                    for g in (r, d):
                        if abs((g - f) - x) * ku > 4e-3:
                            raise Violation(f"the distance depends on angle units: {g - f} and {x} {du}")
                dh = abs(deg[i][2] - deg[j][2]) * ka / ku
                full = a.dist_with_altitude(e)
                if abs(full - math.hypot(x, dh)) > 1e-9 * full + rel * dh + 1e-9:
                    raise Violation(
                        f"distance with altitude {deg[i]} {deg[j]} in {du}/{au} is {full}, should be {math.hypot(x, dh)}"
                    )
                if abs(full - e.dist_with_altitude(a)) * ku > tol:
                    raise Violation("distance with altitude is not symmetric")
                pi, pj = (ecef(name, *deg[k][:2], deg[k][2] * ka) for k in (i, j))
                want = math.dist(pi, pj)
                got = a.straight_line_distance(e)
                if abs(got * ku - want) > 1e-5 + rel * (want + (abs(deg[i][2]) + abs(deg[j][2])) * ka):
                    raise Violation(
                        f"straight line {name} {deg[i]} {deg[j]} is {got} {du}, should be {want} m"
                    )
                if abs(got - e.straight_line_distance(a)) * ku > 1e-6:
                    raise Violation("straight-line distance is not symmetric")
                for m in range(n):
                    try:
                        via = (a - locs[m]) + (locs[m] - e)
                    except ValueError:
                        continue
                    if (x - via) * ku > 0.4 + 1e-9 * via * ku:
                        raise Violation(f"triangle {deg[i]} {deg[m]} {deg[j]}: {x} > {via} {du}")
                    dx = a.straight_line_distance(locs[m]) + locs[m].straight_line_distance(e)
                    if (got - dx) * ku > 1e-5:
                        raise Violation(
                            f"straight-line triangle {deg[i]} {deg[m]} {deg[j]}: {got} > {dx} {du}"
                        )
                far = max(abs(deg[i][k] - deg[j][k]) for k in range(3))
                if far > 1e-9:
                    same_all_ways(a, e, False, f"coordinates differ by {far}")
            frozen(a, ("lat", "lon", "alt", "in_radians"), c["set"])
            dx = UP.GeodeticLocationData(*raw[i][:3], in_radians=raw[i][3])
            made = dx.make_location()
            if (made.lat, made.lon, made.alt, made.in_radians) != raw[i] or not made == a:
                raise Violation(f"location made from data {raw[i]} is {made!r}")
            if dx.latlon() != made.latlon():
                raise Violation(f"data {raw[i]} is at {dx.latlon()}, its location at {made.latlon()}")
            for x in (r, d):
                dy = UP.GeodeticLocationData(x.lat, x.lon, x.alt, in_radians=x.in_radians)
                same_all_ways(dx, dy, True, "stored data of the same point")
            for j in range(n):
                dy = UP.GeodeticLocationData(*raw[j][:3], in_radians=raw[j][3])
                if max(abs(deg[i][k] - deg[j][k]) for k in range(3)) > 1e-9:
                    same_all_ways(dx, dy, False, "stored data of another point")
            expect_raises("data == tuple", ValueError, lambda: dx == raw[i])
            expect_raises("data == other data", ValueError, lambda: dx == UP.CartesianLocationData(1, 2, 3))
        refusals(locs[0], [10, None, "x", tuple(raw[0]), UP.CartesianLocation(1.0, 2.0, 3.0)])


PROP = Prop(
    id="C31",
    rule=(
        "Part 1: three to five Cartesian points (mixed distance/altitude units, near-equal points, with and without "
        "stage units) against exact vector arithmetic. Part 2: two to four geodetic points, in degrees and radians, one "
        "of them at a known distance, on both earth models and in all unit settings, against independent geodesy "
        "(great circle, with altitude, straight line). Both: copies, equality, hashing, items, symmetry, triangle "
        "inequality over all triples, refused assignments and refused mixes, stored data objects. Non-trivial: two "
        "points further apart than the equality tolerance; a leg over one metre."
    ),
    parts=[
        Part("cartesian", cart_case, cart_check, quick=12000, thorough=150000),
        Part("geodetic", geo_case, geo_check, quick=9000, thorough=100000),
    ],
    assumptions=[
        "equality of a Cartesian point is judged away from the 1e-5 tolerance, of a geodetic one beyond 1e-9",
        "1e-6 relative in mi/nmi/ft (rounded constants); WGS84 may refuse pairs within 0.03 rad of antipodal",
        "hashes are compared within one angle representation (a location in degrees and its equal in radians hash apart)",
    ],
)
