"""C30: unit conversions are consistent and time displays follow the clock."""

from __future__ import annotations

import math
import re
from fractions import Fraction as F

from upstage_des.base import UpstageBase
from upstage_des.units import unit_convert

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, expect_raises, seqs, st

# exact sizes, in metres and in seconds
LENGTH = {"m": F(1), "km": F(1000), "mi": F(1609344, 1000), "nmi": F(1852), "ft": F(3048, 10000)}
SECOND = {
    **dict.fromkeys(["s", "second", "seconds"], F(1)),
    **dict.fromkeys(["min", "minute", "minutes"], F(60)),
    **dict.fromkeys(["hr", "hour", "hours"], F(3600)),
    **dict.fromkeys(["day", "days"], F(86400)),
    **dict.fromkeys(["week", "weeks"], F(7 * 86400)),
}
CLOCK = {k for k, v in SECOND.items() if v <= 3600}
OTHER = ["parsec", "ticks", "clock ticks", "fortnight", "yards", "ms"]


def casing(name: str, how: int) -> str:
    return [
        name,
        name.upper(),
        name.capitalize(),
        "".join(c.upper() if i % 2 else c for i, c in enumerate(name)),
    ][how]


def named(pool) -> st.SearchStrategy:
    return st.builds(casing, st.sampled_from(sorted(pool)), st.sampled_from([0, 0, 0, 1, 2, 3]))


def value() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0, 1, 60, 90, 3600, 24, 7, 0.5, -3, 1000]),
        st.integers(-(10**6), 10**6),
        st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False).map(
            lambda x: x if abs(x) > 1e-200 else 0.0
        ),
        st.floats(-9, 12).map(lambda e: 10.0**e),
    )


def conv_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "v": value(),
            "w": value(),
            "length": st.lists(named(LENGTH), min_size=3, max_size=3),
            "time": st.lists(named(SECOND), min_size=3, max_size=3),
            "other": named(OTHER),
        }
    )


def conv_check(c: dict, ctx: Ctx) -> None:
    v, w = c["v"], c["w"]
    ctx.nontrivial(v not in (0, 1))
    # the distances are held as rounded constants, the times are exact ratios
    for units, size, rel in ((c["length"], LENGTH, 1e-6), (c["time"], SECOND, 1e-12)):
        a, b, d = units
        ab = unit_convert(v, a, b)
        true = float(F(v) * size[a.lower()] / size[b.lower()])
        if not close(ab, true, rel, 0.0):
            raise Violation(f"{v} {a} is {ab} {b}, should be {true}")
        if not close(unit_convert(ab, b, a), v, 1e-9, 0.0):
            raise Violation(f"{v} {a} to {b} and back is {unit_convert(ab, b, a)}")
        if not close(unit_convert(ab, b, d), unit_convert(v, a, d), rel, 0.0):
            raise Violation(f"{v} {a} to {d} depends on going through {b}")
        if not close(unit_convert(v, a, a), v, 1e-12, 0.0):
            raise Violation(f"{v} {a} is {unit_convert(v, a, a)} {a}")
        if not close(
            unit_convert(v, a, b) + unit_convert(w, a, b),
            unit_convert(v + w, a, b),
            1e-9,
            1e-9 * (abs(v) + abs(w)) * float(size[a.lower()] / size[b.lower()]) + 1e-300,
        ):
            raise Violation(f"converting {v} and {w} {a} to {b} is not additive")
        ctx.label(f"{a.lower()}>{b.lower()}" if size is LENGTH else "time")
    la, ta, no = c["length"][0], c["time"][0], c["other"]
    for x, y in ((la, ta), (ta, la), (la, no), (no, ta), (no, la), (ta, no)):
        expect_raises(f"converting {x} to {y}", ValueError, unit_convert, v, x, y)


# --- clocks ---------------------------------------------------------------------


def clock_time() -> st.SearchStrategy:
    """A clock reading or a length of a wait."""
    return st.one_of(
        st.integers(0, 5000),
        st.sampled_from([0.0, 0.25, 23.75, 24.0, 59.0, 60.0, 115.0, 3599.0, 3600.0, 86399.0, 86400.0]),
        st.floats(0, 5000, allow_nan=False).map(lambda x: round(x, 3)),
        st.floats(0, 5000, allow_nan=False).map(lambda x: x if x > 1e-200 else 0.0),
        st.tuples(st.integers(0, 10**6), st.sampled_from([60.0, 3600.0])).map(lambda t: t[0] / t[1]),
    )


def clock_case() -> st.SearchStrategy:
    wait = st.fixed_dictionaries(
        {
            "t": clock_time(),
            "u": st.one_of(st.none(), named(SECOND), named(SECOND), named(SECOND), named([*LENGTH, *OTHER])),
            "how": st.sampled_from(["fixed", "fixed", "uniform", "rehearsal", "negative"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "unit": st.one_of(
                named(CLOCK), named(CLOCK), named(SECOND), named(OTHER), st.sampled_from(["unset", "None"])
            ),
            "count": st.one_of(st.none(), st.sampled_from([10, 100, 125, 24.0, 0.5]), st.integers(1, 2000)),
            "t0": st.one_of(st.just(0), st.just(0), clock_time(), clock_time().map(lambda x: 0 - x)),
            "waits": seqs(wait, 12),
            "seed": st.integers(0, 10**6),
        }
    )


SHOWN = re.compile(r"^\[Day +(-?\d+) - (\d\d):(\d\d):(\d\d)\]$")


def check_display(text: str, now: float, unit: str, count) -> None:
    where = f"at {now!r} {unit!r} (daily count {count}) the time is shown as {text!r}"
    low = unit.lower()
    if low in CLOCK:
        m = SHOWN.match(text)
        if not m:
            raise Violation(where)
        d, hh, mm, ss = map(int, m.groups())
        if not (hh < 24 and mm < 60 and ss < 60):
            raise Violation(where)
        secs = d * 86400 + hh * 3600 + mm * 60 + ss
        exact = F(now) * SECOND[low]
        # float noise of the reading itself (a third of an hour is not a float)
        noise = F(1, 10**9)
        if not math.floor(exact + noise) <= secs <= math.floor(exact + F(1, 10**5)):
            raise Violation(f"{where}, which is {float(exact)} s")
        return
    if count is None:
        m = re.match(r"^\[(-?\d+\.\d{3}) (.*)\]$", text)
        if not m or m[2] != unit or abs(float(m[1]) - now) > 5.1e-4:
            raise Violation(where)
        return
    m = re.match(r"^\[Day +(-?\d+) - (-?\d+\.\d{3}) (.*)\]$", text)
    if not m or m[3] != unit:
        raise Violation(where)
    if abs(int(m[1]) * count + float(m[2]) - now) > 5.1e-4 or float(m[2]) > count + 5.1e-4:
        raise Violation(where)


class Clock(UP.Actor):
    n = UP.State[int](default=0)


def clock_check(c: dict, ctx: Ctx) -> None:
    unit, count = c["unit"], c["count"]
    shown = "hr" if unit in ("unset", "None") else unit
    base = shown.lower()
    log: list = []
    with UP.EnvironmentContext(initial_time=c["t0"], random_seed=c["seed"]) as env:
        if unit != "unset":
            UP.add_stage_variable("time_unit", None if unit == "None" else unit)
        if count is not None:
            UP.add_stage_variable("daily_time_count", count)
        ctx.label(
            "clock" if base in CLOCK else "long" if base in SECOND else "other", f"count={count is not None}"
        )

        def factor(u):
            """How many clock ticks make one ``u``; None if there is no answer."""
            if u is None:
                return F(1)
            if u.lower() in SECOND and base in SECOND:
                return SECOND[u.lower()] / SECOND[base]
            return None

        class Program(UP.Task):
            def task(self, *, actor):
                for i, w in enumerate(c["waits"]):
                    t, u, how = w["t"], w["u"], w["how"]
                    k = factor(u)
                    what = f"Wait({t}, {u!r}) with time_unit {unit!r}"
                    if k is None:
                        expect_raises(what, ValueError, UP.Wait, t, u)
                        expect_raises(what, ValueError, UP.Wait.from_random_uniform, t, t + 1, u)
                        log.append("refused")
                        continue
                    if how == "negative" and t > 0:
                        expect_raises(f"negative {what}", UP.SimulationError, UP.Wait, -t, u)
                        log.append("negative")
                        continue
                    lo = hi = float(F(t) * k)
                    if how == "uniform":
                        hi = float(F(2 * t + 1) * k)
                        e = UP.Wait.from_random_uniform(t, 2 * t + 1, u)
                    elif how == "rehearsal":
                        e = UP.Wait(t, u, rehearsal_time_to_complete=t + 3)
                    else:
                        e = UP.Wait(timeout=t, timeout_unit=u)
                    start = env.now
                    yield e
                    took = env.now - start
                    tol = 1e-9 * hi + 1e-12 * abs(env.now) + 1e-12
                    if not lo - tol <= took <= hi + tol:
                        raise Violation(f"{what} ({how}) lasted {took} ticks, not {lo} to {hi}")
                    if u is not None and u.lower() != base and t:
                        ctx.nontrivial()
                    log.append(how)
                    check_display(actor.pretty_now, env.now, shown, count)
                    actor.log(f"m{i}")
                    check_display(actor.get_log()[-1][1].removesuffix(f" m{i}"), env.now, shown, count)
                    if actor.get_log()[-1][0] != env.now:
                        raise Violation(f"debug log entry {actor.get_log()[-1]} made at {env.now}")

        check_display(UpstageBase().pretty_now, env.now, shown, count)
        a = Clock(name="a", debug_log=True)
        p = Program()
        p.run(actor=a)
        drain(env)
        if len(log) != len(c["waits"]):
            raise Violation(f"only {len(log)} of {len(c['waits'])} waits took place")
        ctx.label(*{x for x in log})
        expect_raises("a pair as timeout", UP.SimulationError, UP.Wait, (1.0, 2.0))
        expect_raises("text as timeout", UP.SimulationError, UP.Wait, "1")


PROP = Prop(
    id="C30",
    rule=(
        "Part 1: random values and pairs/triples of documented unit names in any letter case against exact rational "
        "definitions, round trips, composition, additivity, refusals between kinds and of unknown units. Part 2: a "
        "task of random waits (fixed, uniform, negative, rehearsal-timed) in random units under a random stage time "
        "unit, start time and daily count; each must last its exact rational number of ticks or be refused, and the "
        "displayed time (direct and in the debug log) is parsed back and compared with the clock after each. "
        "Non-trivial: a value other than 0 and 1; a wait that needed a conversion."
    ),
    parts=[
        Part("conversions", conv_case, conv_check, quick=20000, thorough=200000),
        Part("clocks", clock_case, clock_check, quick=20000, thorough=200000),
    ],
    assumptions=[
        "mi and nmi are held as 6 to 11 digit constants: 1e-6 relative; round trips 1e-9",
        "the displayed second may run ahead of the exact time by at most 1e-5 s",
    ],
)
