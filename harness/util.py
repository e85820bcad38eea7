"""Helpers shared by the property modules."""

from __future__ import annotations

import math
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from hypothesis import strategies as st

from .core import Violation

MAX_STEPS = 50_000


def close(a: float, b: float, rel: float = 1e-9, abs_: float = 1e-9) -> bool:
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def drain(env: SIM.Environment, until: float | None = None, max_steps: int = MAX_STEPS) -> None:
    """Step the simulation until its queue is empty (or past ``until``, inclusive)."""
    n = 0
    while True:
        t = env.peek()
        if t == math.inf or (until is not None and t > until):
            break
        env.step()
        n += 1
        if n > max_steps:
            raise Violation(f"simulation still running after {max_steps} events at {env.now}")
    if until is not None and until > env.now:
        env.run(until=until)


def expect_raises(what: str, types: Any, fn: Any, *args: Any, **kw: Any) -> BaseException:
    try:
        r = fn(*args, **kw)
    except types as e:
        return e
    raise Violation(f"{what}: expected {types} to be raised, got {r!r}")


# --- small value strategies -------------------------------------------------


def nums(lo: float, hi: float, *extra: float) -> st.SearchStrategy:
    """A mix of 'nice' and arbitrary finite floats."""
    nice = [float(x) for x in extra] + [
        x for x in (-10.0, -2.5, -1.0, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0, 7.5, 10.0) if lo <= x <= hi
    ]
    return st.one_of(
        st.sampled_from(nice),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: round(x, 4)),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=32),
    )


def times(hi: float = 20.0) -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, 3.0]),
        st.floats(0.0, hi, allow_nan=False).map(lambda x: round(x, 3)),
    )


def seqs(elem: st.SearchStrategy, max_size: int = 24, min_size: int = 1) -> st.SearchStrategy:
    """Operation sequences, short ones and long ones."""
    return st.one_of(
        st.lists(elem, min_size=min_size, max_size=max(min_size, max_size // 4)),
        st.lists(elem, min_size=min_size, max_size=max_size),
        st.lists(elem, min_size=max(min_size, max_size // 2), max_size=max_size),
        st.lists(elem, min_size=max(min_size, max_size // 3), max_size=max_size),
    )


__all__ = ["SIM", "UP", "Violation", "close", "drain", "expect_raises", "nums", "seqs", "st", "times"]
