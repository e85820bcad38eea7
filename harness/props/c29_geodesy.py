"""C29: geodesy calculations are mutually consistent and accurate."""

from __future__ import annotations

import math

from upstage_des.geography import WGS84, Spherical

from harness import geo_ref as G
from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, expect_raises, st

UNITS = ["m", "km", "mi", "nmi", "ft"]
MODELS = {"Spherical": Spherical, "WGS84": WGS84}


def lat() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 10.0, 30.0, 45.0, -45.0, 60.0, 89.0, -89.9999, 90.0, -90.0]),
        st.floats(-90, 90, allow_nan=False),
        st.integers(-90, 90).map(float),
    )


def lon() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 90.0, -90.0, 180.0, -180.0, 179.9999, -179.9999, 45.0]),
        st.floats(-180, 180, allow_nan=False),
        st.integers(-180, 180).map(float),
    )


def point() -> st.SearchStrategy:
    return st.tuples(lat(), lon()).map(list)


def reach() -> st.SearchStrategy:
    """Metres of a leg, from centimetres to almost half way round."""
    return st.one_of(
        st.sampled_from([0.01, 1.0, 1000.0, 1e5, 1e6, 1.0e7, 1.9e7]),
        st.floats(-2, 7.27).map(lambda e: 10.0**e),
        st.floats(1000.0, 1.9e7),
    )


def brg() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 90.0, 180.0, 270.0, 45.0, 359.999]),
        st.floats(0, 360, allow_nan=False),
        st.floats(-360, 720, allow_nan=False),
    )


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "model": st.sampled_from(sorted(MODELS)),
            "p": point(),
            "b": brg(),
            "s": reach(),
            "u": st.sampled_from(UNITS),
            "n": st.integers(2, 12),
            "f": st.floats(0, 1).map(lambda x: round(x, 6)),
            "obj": st.booleans(),
            "alts": st.tuples(st.sampled_from([0.0, 1000.0, -50.0, 12345.6]), st.floats(-100, 4e5)).map(list),
        }
    )


def check(c: dict, ctx: Ctx) -> None:
    if c["obj"]:
        with UP.EnvironmentContext():
            _check(c, ctx)
    else:
        _check(c, ctx)


def _check(c: dict, ctx: Ctx) -> None:
    """Everything about one leg whose true end, bearing and length are known."""
    name = c["model"]
    M = MODELS[name]
    p, s, u = tuple(c["p"]), float(c["s"]), c["u"]
    k = G.METRES[u]
    rel = 1e-6 if u in ("mi", "nmi", "ft") else 1e-12  # rounded unit constants
    # millimetre formulas; longitudes near a pole are ill-conditioned in degrees but not on the ground
    tol = 2e-3 + s * 1e-12
    ctx.label(name)

    def arg(x):
        return UP.GeodeticLocation(x[0], x[1]) if c["obj"] else tuple(x)

    if name == "Spherical":
        q = G.travel(p, c["b"], s / G.R)
    else:
        la, lo, _ = G.wgs_direct(p, c["b"], s)
        q = (la, (lo + 180) % 360 - 180)

    def dist(a, b, unit="m"):
        return M.distance(arg(a), arg(b), units=unit)

    d = dist(p, q, u)
    if abs(d * k - s) > tol + rel * s:
        raise Violation(f"{name} distance {p} {q} = {d} {u}, true length {s} m")
    if dist(q, p, u) != d and abs(dist(q, p, u) - d) * k > tol:
        raise Violation(f"{name} distance not symmetric: {d} and {dist(q, p, u)}")
    if dist(p, p) != 0.0 or dist(q, q) != 0.0:
        raise Violation(f"{name} distance of a point to itself is {dist(p, p)} / {dist(q, q)}")
    if p[0] != 90 and p[0] != -90 and abs(dist(p, (p[0], p[1] + 360.0))) > tol:
        raise Violation(f"{name} distance once round the globe is {dist(p, (p[0], p[1] + 360.0))}")

    d2, b2 = M.distance_and_bearing(arg(p), arg(q), units=u)
    if abs(d2 - d) * k > 1e-6 or b2 != M.bearing(arg(p), arg(q)):
        raise Violation(f"{name} distance_and_bearing {d2, b2} differs from distance/bearing {d}")
    if not 0 <= b2 <= 360:
        raise Violation(f"{name} bearing {b2} is not a compass bearing")
    # how far off the true direction leads, on the ground
    off = abs((b2 - c["b"] + 180) % 360 - 180)
    lever = abs(math.sin(s / G.R)) * G.R
    if math.radians(off) * lever > 2 * tol + 1e-14 * G.R * 10:
        raise Violation(f"{name} bearing {p} -> {q} is {b2}, true {c['b']} ({s} m)")

    # the direct problem, in the unit asked for
    x = M.point_from_bearing_dist(arg(p), c["b"], s / k, u)
    if G.ground(x, q) > tol + rel * s:
        raise Violation(f"{name} {s / k} {u} from {p} at {c['b']} is {x}, true end {q}")
    # and with what the model itself reports
    x = M.point_from_bearing_dist(arg(p), b2, d, u)
    if G.ground(x, q) > 3 * tol:
        raise Violation(f"{name} travelling the reported {d} {u} at {b2} from {p} ends at {x} not {q}")

    # evenly spaced points
    n = c["n"]
    if s > 1.0:
        pts = M.geo_linspace(arg(p), arg(q), n)
        if len(pts) != n + 1:
            raise Violation(f"{name} geo_linspace of {n} segments has {len(pts)} points")
        for i, x in enumerate(pts):
            w = (
                G.travel(p, c["b"], s * i / n / G.R)
                if name == "Spherical"
                else G.wgs_direct(p, c["b"], s * i / n)
            )
            if G.ground(x, w) > 3 * tol:
                raise Violation(f"{name} geo_linspace {p} -> {q} point {i}/{n} is {x}, true {w[:2]}")
        a1, a2 = map(float, c["alts"])
        ec, ll = M.ecef_and_geo_linspace(arg(p), arg(q), a1, a2, n)
        only = M.ecef_linspace(arg(p), arg(q), a1, a2, n)
        if not len(ec) == len(ll) == len(only) == n + 1:
            raise Violation(f"{name} ecef linspace lengths {len(ec)} {len(ll)} {len(only)} for {n}")
        for i in range(n + 1):
            if abs(ll[i][2] - (a1 + (a2 - a1) * i / n)) > 1e-6:
                raise Violation(f"{name} altitude {ll[i][2]} at {i}/{n} between {a1} and {a2}")
            if G.ground(ll[i], pts[i]) > 1e-3:
                raise Violation(f"{name} ecef_and_geo_linspace point {ll[i]}, geo_linspace {pts[i]}")
            if math.dist(ec[i], G.ecef(ll[i], name)) > 1e-3 or math.dist(only[i], ec[i]) > 1e-3:
                raise Violation(f"{name} earth-centred point {ec[i]} / {only[i]} for {ll[i]}")
        ctx.nontrivial()
    expect_raises("one segment", ValueError, M.geo_linspace, arg(p), arg(q), 1)

    # a circle
    ring = M.geo_circle(arg(p), s / k, u, n)
    if len(ring) != n + 1:
        raise Violation(f"{name} geo_circle({n}) has {len(ring)} points")
    for i, x in enumerate(ring):
        t = G.travel(p, 360 * i / n, s / G.R) if name == "Spherical" else G.wgs_direct(p, 360 * i / n, s)
        if G.ground(x, t) > 2 * tol + rel * s:
            raise Violation(f"{name} circle point {i}/{n} around {p} is {x}, true {t[:2]}")

    # earth-centred axes
    for la, lo, al in [(p[0], p[1], c["alts"][0]), (q[0], q[1], c["alts"][1])]:
        e = M.lla2ecef([(la, lo, al)])
        w = G.ecef((la, lo, al), name)
        if math.dist(e[0], w) > 1e-6:
            raise Violation(f"{name} lla2ecef {(la, lo, al)} is {e}, true {w}")
        e2 = M.lla2ecef([(math.radians(la), math.radians(lo), al)], input_in_radians=True)
        if math.dist(e2[0], w) > 1e-6:
            raise Violation(f"{name} lla2ecef in radians is {e2}, true {w}")
        back = M.ecef2lla(e)[0]
        if G.ground(back, (la, lo)) > 1e-5 or abs(back[2] - al) > 1e-4:
            raise Violation(f"{name} ecef2lla of lla2ecef {(la, lo, al)} is {back}")
        rad = M.ecef2lla(e, radians_out=True)[0]
        if abs(math.degrees(rad[0]) - back[0]) > 1e-9 or abs(math.degrees(rad[1]) - back[1]) > 1e-9:
            raise Violation(f"{name} ecef2lla radians {rad} differ from degrees {back}")

    if name == "Spherical":
        f = c["f"]
        if s > 1.0:
            x = M.point_along(arg(p), arg(q), f)
            w = G.travel(p, c["b"], s * f / G.R)
            if G.ground(x, w) > 3 * tol:
                raise Violation(f"point_along {p} -> {q} at {f} is {x}, true {w}")
    if abs(p[0]) > 85 or abs(q[0]) > 85:
        ctx.label("polar")
    if abs(p[1] - q[1]) > 180:
        ctx.label("antimeridian")
    if s > 1e7:
        ctx.label("long")
    if s < 100:
        ctx.label("short")


# ------------------------------------------------- arbitrary pairs and tracks


def track_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "a": point(),
            "b": point(),
            "t": point(),
            "u": st.sampled_from(UNITS),
            # sometimes the second point is a rounding error away from the first
            "near": st.one_of(st.none(), st.none(), st.integers(-3, 3)),
        }
    )


def track_check(c: dict, ctx: Ctx) -> None:
    """Cross-track geometry, and pairs of points anywhere (antipodal ones included)."""
    a, b, t, u = tuple(c["a"]), tuple(c["b"]), tuple(c["t"]), c["u"]
    k = G.METRES[u]
    if c["near"] is not None:
        b = (max(-90.0, min(90.0, a[0] + c["near"] * math.ulp(a[0]))), a[1])
        ctx.label("adjacent")
    ang = G.angle(a, b)
    d = Spherical.distance(a, b, u) * k
    if abs(d - G.R * ang) > 0.2 + 1e-6 * d:
        raise Violation(f"Spherical distance {a} {b} is {d} m, true {G.R * ang}")
    sep = Spherical.distance(a, t, "m"), Spherical.distance(t, b, "m")
    if sep[0] + sep[1] < G.R * ang - 0.2:
        raise Violation(f"triangle inequality fails for {a} {b} {t}")
    # ellipsoid: within the flattening of the sphere, or refused close to antipodal
    try:
        dw = WGS84.distance(a, b, u) * k
    except ValueError:
        ctx.ensure(math.pi - ang < 0.03, f"WGS84 distance {a} {b} refused at angle {ang}")
        ctx.label("antipodal-refused")
    else:
        if abs(dw - G.R * ang) > 0.007 * G.R * ang + 1e-3:
            raise Violation(f"WGS84 distance {a} {b} is {dw} m, spherical {G.R * ang}")
    if 1e-6 < ang < math.pi - 1e-6:
        va, vb, vt = G.vec(a), G.vec(b), G.vec(t)
        n = G.cross(va, vb)
        m = G.norm(n)
        n = [x / m for x in n]
        side = G.dot(n, vt)
        want = G.R * abs(math.asin(max(-1.0, min(1.0, side))))
        # conditioning of the plane through two close (or opposite) points; near the pole of the
        # track asin itself is ill-conditioned
        slack = 0.02 + 1e-8 / math.sin(ang) + min(0.2, 1e-8 / max(1e-16, 1 - abs(side)))
        got = Spherical.cross_track_distance(a, b, t, u) * k
        if abs(got - want) > slack + 1e-6 * want:
            raise Violation(f"cross-track distance of {t} from {a} -> {b} is {got} m, true {want}")
        x = Spherical.cross_track_point(a, b, t)
        vx = G.vec(x)
        if abs(G.R * G.dot(n, vx)) > slack:
            raise Violation(f"cross-track point {x} is not on the great circle {a} -> {b}")
        if abs(G.R * G.angle(x, t) - want) > slack:
            raise Violation(
                f"cross-track point {x} of {t} is {G.R * G.angle(x, t)} m away, closest is {want}"
            )
        ctx.nontrivial(want > 1000)
        along = G.dot(G.cross(va, vx), n)
        ctx.label("ahead" if along > 0 else "behind")


PROP = Prop(
    id="C29",
    rule=(
        "Random start points (poles, antimeridian and equator included), bearings and lengths from a centimetre to "
        "19 000 km, units, models and argument kinds: the true end comes from an independent solution (unit vectors; "
        "Gauss quadrature of the geodesic equations), and distance, bearing, direct solution, spacing, circles, "
        "earth-centred conversions must reproduce it. Second part: arbitrary triples for cross-track geometry. "
        "Non-trivial: a leg over one metre (first), a point over 1 km off the track (second)."
    ),
    parts=[
        Part("legs", case, check, quick=16000, thorough=300000),
        Part("tracks", track_case, track_check, quick=12000, thorough=200000),
    ],
    assumptions=[
        "sphere radius 6378137 m and WGS84 axes; 2 mm plus 1e-12 of the length; 1e-6 relative in mi/nmi/ft (rounded constants)",
        "WGS84 may refuse pairs within 0.03 rad of antipodal (Vincenty's method does not converge there)",
    ],
)
