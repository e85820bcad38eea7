"""Independent geodesy used as an oracle: unit vectors and quadrature of the geodesic equations."""

from __future__ import annotations

import math

import numpy as np

R = 6378137.0
A = 6378137.0
F = 1 / 298.257223563
B = A * (1 - F)
E2 = F * (2 - F)
EP2 = E2 / (1 - F) ** 2

METRES = {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nmi": 1852.0, "ft": 0.3048}

_X, _W = (list(map(float, a)) for a in np.polynomial.legendre.leggauss(16))


def vec(p) -> tuple[float, float, float]:
    la, lo = math.radians(p[0]), math.radians(p[1])
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b) -> float:
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def norm(a) -> float:
    return math.sqrt(dot(a, a))


def angle(p, q) -> float:
    """Central angle between two lat/lon points (radians)."""
    a, b = vec(p), vec(q)
    return math.atan2(norm(cross(a, b)), dot(a, b))


def to_ll(v) -> tuple[float, float]:
    return (math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))), math.degrees(math.atan2(v[1], v[0])))


def east_north(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    east = (-math.sin(lo), math.cos(lo), 0.0)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    return east, north


def course(p, q) -> float:
    """Initial bearing in degrees from the local frame at p."""
    e, n = east_north(p)
    b = vec(q)
    return math.degrees(math.atan2(dot(b, e), dot(b, n))) % 360


def travel(p, bearing: float, ang: float) -> tuple[float, float]:
    e, n = east_north(p)
    v = vec(p)
    t = math.radians(bearing)
    d = [math.sin(t) * a + math.cos(t) * b for a, b in zip(e, n)]
    return to_ll([math.cos(ang) * a + math.sin(ang) * b for a, b in zip(v, d)])


def ground(p, q) -> float:
    """Metres between two nearby lat/lon points."""
    return R * angle(p, q)


def _integral(fn, a: float, b: float) -> float:
    h, m = (b - a) / 2, (a + b) / 2
    # two panels keep the error far below a micrometre for any arc below half a turn
    tot = 0.0
    for lo, hi in ((a, m), (m, b)):
        h, c = (hi - lo) / 2, (hi + lo) / 2
        tot += h * sum(w * fn(c + h * x) for x, w in zip(_X, _W))
    return tot


def wgs_direct(p, bearing: float, s: float) -> tuple[float, float, float]:
    """Geodesic from p along bearing for s metres: lat, lon, final bearing."""
    phi, a1 = math.radians(p[0]), math.radians(bearing)
    b1 = math.atan2((1 - F) * math.sin(phi), math.cos(phi))
    sa0 = math.sin(a1) * math.cos(b1)
    ca0 = math.hypot(math.cos(a1), math.sin(a1) * math.sin(b1))
    s1 = math.atan2(math.sin(b1), math.cos(a1) * math.cos(b1))
    k2 = EP2 * ca0 * ca0

    def ds(x):
        return math.sqrt(1 + k2 * math.sin(x) ** 2)

    def dl(x):
        return (2 - F) / (1 + (1 - F) * math.sqrt(1 + k2 * math.sin(x) ** 2))

    s2 = s1 + s / B
    for _ in range(12):
        g = _integral(ds, s1, s2) - s / B
        step = g / ds(s2)
        s2 -= step
        if abs(step) < 1e-15:
            break
    arc = s2 - s1
    # difference of longitude on the auxiliary sphere, in the form that also works at the poles
    w12 = math.atan2(
        math.sin(arc) * math.sin(a1),
        math.cos(b1) * math.cos(arc) - math.sin(b1) * math.sin(arc) * math.cos(a1),
    )
    lam = w12 - F * sa0 * _integral(dl, s1, s2)
    b2 = math.atan2(ca0 * math.sin(s2), math.hypot(ca0 * math.cos(s2), sa0))
    lat = math.atan2(math.sin(b2), (1 - F) * math.cos(b2))
    a2 = math.atan2(sa0, ca0 * math.cos(s2))
    return math.degrees(lat), p[1] + math.degrees(lam), math.degrees(a2) % 360


def ecef(lla, model: str) -> tuple[float, float, float]:
    la, lo = math.radians(lla[0]), math.radians(lla[1])
    if model == "Spherical":
        n = z = R
    else:
        n = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
        z = n * (1 - E2)
    h = lla[2]
    return (
        (n + h) * math.cos(la) * math.cos(lo),
        (n + h) * math.cos(la) * math.sin(lo),
        (z + h) * math.sin(la),
    )
