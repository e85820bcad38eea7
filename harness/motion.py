"""Movers and sensors: one driver for the real managers, and what should be reported.

A case is a list of sensors and a list of movers, each with a script. ``Track`` turns the scripts
into a timeline without using the code under test; ``expected`` turns timelines into notices.
"""

from __future__ import annotations

import math
from typing import Any, Callable, Generator

from upstage_des.utils import waypoint_time_and_dist

from harness.util import SIM, UP, Violation

INF = math.inf


class TooClose(Exception):
    """The case depends on which side of a boundary a rounding error falls."""


# ---------------------------------------------------------------------------
# timelines
# ---------------------------------------------------------------------------


class Flight:
    """One activation of a moving state."""

    def __init__(self, start: float, legs: list, stop: float, tracked: bool, seq: int) -> None:
        self.seq = seq
        self.start, self.legs, self.stop = start, legs, stop
        self.tracked_until = stop if tracked else start
        self.tracked = tracked


class Track:
    """Where one mover is, and when it can be seen."""

    def __init__(self, t0: float, geometry: Any, mover: dict) -> None:
        self.t, self.geo, self.pos = t0, geometry, geometry.point(mover["at"])
        self.detect = mover["detect"]
        self.flights: list[Flight] = []
        self.hides: list[tuple[float, int]] = []  # when, and which step of the script
        self.seq = 0
        self.plan: list[tuple] = []  # what the driver does
        for o in mover["script"]:
            getattr(self, "_" + o["op"])(o)

    def _wait(self, o: dict) -> None:
        self.plan.append(("wait", o["t"]))
        self.t += o["t"]

    def _hide(self, o: dict) -> None:
        self.plan.append(("detect", False))
        self.detect = False
        self.seq += 1
        self.hides.append((self.t, self.seq))

    def _show(self, o: dict) -> None:
        self.plan.append(("detect", True))
        self.detect = True

    def _put(self, o: dict) -> None:
        self.pos = self.geo.point(o["p"], self.pos)
        self.plan.append(("put", self.pos))

    def _go(self, o: dict) -> None:
        legs, here = [], self.pos
        for w in o["w"]:
            there = self.geo.point(w, here)
            legs.append(self.geo.leg(here, there))
            here = there
        total = sum(leg.length for leg in legs) / o["v"]
        t0, end = self.t, self.t + total * o["part"]
        self.seq += 1
        flight = Flight(t0, [], end, self.detect, self.seq)
        self.plan.append(("go", [leg.end for leg in legs], o["v"], o["task"]))
        t = t0
        for leg in legs:
            dt = leg.length / o["v"]
            flight.legs.append((t, t + dt, leg))
            t += dt
        for frac, what in sorted(o["acts"]):
            at = t0 + (end - t0) * frac
            if frac > 0 or o["task"]:
                self.plan.append(("wait", at - self.t))
            elif what == "hide":
                flight.tracked = False  # in the same moment, before anything is told
            self.t = at
            if what == "hide":
                if flight.tracked_until > at:
                    flight.tracked_until = at
                self._hide({})
            else:
                self._show({})
        self.plan.append(("wait", end - self.t))
        self.plan.append(("stop",))
        self.t = end
        self.flights.append(flight)
        self.pos = self.at(end)

    def at(self, t: float) -> Any:
        """The place on the last flight at a time."""
        for a, b, leg in self.flights[-1].legs:
            if t <= b and b > a:
                return leg.at(max(0.0, t - a) / (b - a))
        legs = self.flights[-1].legs
        return legs[-1][2].end


def membership(
    track: Track, sees: Callable[[Any, Any], float], since: float, margin: float, edge: Callable
) -> list:
    """The notices about one mover to one sensor, which exists from a time on.

    ``sees`` is the distance to the sensor minus its radius, for a place on a leg. ``edge`` gives, for a leg, the parts
    of it (as fractions, in order) at which that changes sign, or raises TooClose.
    """
    marks: list[tuple[float, int, str]] = [(*h, "hide") for h in track.hides]
    for f in track.flights:
        if not f.tracked or f.tracked_until < since:
            continue
        begin = max(f.start, since)
        state = before = None
        for a, b, leg in f.legs:
            if a > f.tracked_until + margin:
                break
            turns = [a + (b - a) * frac for frac in edge(leg)]
            if before is not None and (before <= 0) != (sees(leg.start, leg) <= 0):
                turns.insert(0, a)  # another leg is measured otherwise
            before = sees(leg.end, leg)
            for t in turns:
                if min(abs(t - f.tracked_until), abs(t - begin)) < margin:
                    raise TooClose
                if begin < t < f.tracked_until:
                    marks.append((t, f.seq, "cross"))
        # the side it is on when tracking begins
        for a, b, leg in f.legs:
            if begin <= b:
                place = leg.at((begin - a) / (b - a)) if b > a else leg.start
                state = sees(place, leg)
                break
        if state is None:
            continue
        marks.append((begin, f.seq, "inside" if state <= 0 else "outside"))
    out, member = [], False
    for t, _, what in sorted(marks):
        if what == "hide":
            if member:
                out.append((t, "out", "hide"))
            member = False
        elif what == "inside":
            if not member:
                out.append((t, "in", "start"))
            member = True
        elif what == "outside":
            if member:
                out.append((t, "out", "moved away while standing"))
            member = False
        elif not member and out and out[-1][2] == "cross" and t - out[-1][0] < 1e-9:
            member = True  # it never left
            out.pop()
        else:
            member = not member
            out.append((t, "in" if member else "out", "cross"))
    return out


def probes(track: Track, sees: Callable[[Any], float], since: float, eps: float, fracs: Callable) -> list:
    """Times at which it is certain whether the mover is in the sensor's view: [(time, is it)].

    For cases in which crossings are at ends or edges, where the notices may differ.
    """
    out: list[tuple[float, bool]] = []
    events: list[tuple] = [(*h, None) for h in track.hides]
    events += [(f.start, f.seq, f) for f in track.flights if f.tracked]
    known: bool | None = False
    last = -INF

    def span(a: float, b: float, value: bool | None) -> None:
        if value is not None and b - a > 1e-6:
            out.append(((a + b) / 2 if a > -INF else b - 1.0, value))

    for t, _, f in sorted(events, key=lambda e: e[:2]):
        if f is None:
            span(last, t, known)
            known, last = False, t
            continue
        begin, end = max(f.start, since), f.tracked_until
        if abs(end - since) < 1e-6 and end > f.start:
            raise TooClose
        if begin > end:
            continue
        span(last, begin, known)
        for a, b, leg in f.legs:
            marks = [max(a, begin)] + [a + (b - a) * x for x in fracs(leg)] + [min(b, end)]
            marks = sorted(m for m in marks if max(a, begin) <= m <= min(b, end))
            for m, n in zip(marks, marks[1:]):
                if n - m > 1e-6:
                    side = sees(leg.at(((m + n) / 2 - a) / (b - a)))
                    if abs(side) > eps:
                        out.append(((m + n) / 2, side < 0))
        side = sees(where(f, end))
        known, last = (side < 0 if abs(side) > eps else None), end
    span(last, last + 1.0 if last > -INF else 0.0, known)
    return out


def where(f: Flight, t: float) -> Any:
    for a, b, leg in f.legs:
        if t <= b:
            return leg.at((t - a) / (b - a)) if b > a else leg.start
    return f.legs[-1][2].end


def check_probes(got: list, want: list, pair: tuple) -> None:
    """Notices alternate, and say what is so at every probe."""
    if [g[1] for g in got] != ["in", "out"] * (len(got) // 2) + ["in"] * (len(got) % 2):
        raise Violation(f"sensor {pair[0]} was told of mover {pair[1]}: {[g[:2] for g in got]}")
    for t, inside in want:
        told = [g[1] for g in got if g[0] <= t]
        if (told[-1:] == ["in"]) != inside:
            raise Violation(
                f"mover {pair[1]} is {'in' if inside else 'out of'} range of sensor {pair[0]} "
                f"at {t}, told: {[g[:2] for g in got]}"
            )


# ---------------------------------------------------------------------------
# the real thing
# ---------------------------------------------------------------------------


class Watcher:
    """A sensor that is not an actor."""

    def __init__(
        self, env: SIM.Environment, n: int, place: Any, radius: float, log: list, react: dict
    ) -> None:
        self.env, self.n, self.where, self.reach = env, n, place, radius
        self.notices, self.react = log, react

    def entity_entered_range(self, entity: Any) -> None:
        self.notices.append((self.env.now, self.n, entity.n, "in", entity.loc))
        respond(entity, self.react.get("in", []))

    def entity_exited_range(self, entity: Any) -> None:
        self.notices.append((self.env.now, self.n, entity.n, "out", entity.loc))
        respond(entity, self.react.get("out", []))


def respond(entity: Any, what: list) -> None:
    for w in what:
        if w == "hide":
            entity.detect = False
        elif w == "stop":
            entity.end_flight()


class Scope(UP.Actor):
    """A sensor that is an actor."""

    where = UP.State()
    reach = UP.State(default=1.0)
    n = UP.State(default=0)
    notices = UP.State()
    react = UP.State()

    entity_entered_range = Watcher.entity_entered_range
    entity_exited_range = Watcher.entity_exited_range


class Fly(UP.Task):
    def task(self, *, actor: UP.Actor) -> Generator:
        actor.activate_location_state(state="loc", speed=self.v, waypoints=self.way, task=self)
        yield UP.Event()

    def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
        return self.INTERRUPT.END


class Pilot(UP.Actor):
    """What movers have in common."""

    detect = UP.DetectabilityState(default=True)
    n = UP.State(default=0)
    flight = UP.State(default=False)

    def end_flight(self) -> None:
        kind, self.flight = self.flight, False
        if isinstance(kind, SIM.Process):
            kind.interrupt("stop")
        elif kind:
            self.deactivate_all_states(task=kind)


def drive(env: SIM.Environment, actor: Any, plan: list, make: Callable) -> Generator:
    arrive = INF
    for what, *rest in plan:
        if what == "wait":
            if not actor.flight:
                arrive = INF
            yield env.timeout(max(0.0, min(rest[0], arrive - env.now)))
        elif what == "detect":
            actor.detect = rest[0]
        elif what == "put":
            actor.loc = make(rest[0])
        elif what == "reach":
            actor.reach = rest[0]
        elif what == "go":
            points, v, use_task = rest
            way = [make(p) for p in points]
            arrive = env.now + waypoint_time_and_dist(actor.loc, way, v)[0]
            if use_task:
                fly = Fly()
                fly.v, fly.way = v, way
                actor.flight = fly.run(actor=actor)
                yield env.timeout(0)
            else:
                actor.flight = UP.Task()
                actor.activate_location_state(state="loc", speed=v, waypoints=way, task=actor.flight)
        else:
            arrive = INF
            if isinstance(actor.flight, SIM.Process):
                actor.end_flight()
                yield env.timeout(0)
            else:
                actor.end_flight()


def add_sensor(env: SIM.Environment, manager: Any, s: dict, n: int, place: Any, log: list) -> Any:
    if s["actor"]:
        sensor: Any = Scope(
            name=f"s{n}", where=place, reach=s["r"], n=n, notices=log, react=s.get("react", {})
        )
    else:
        sensor = Watcher(env, n, place, s["r"], log, s.get("react", {}))
    manager.add_sensor(sensor, location_attr_name="where", radius_attr_name="reach")
    return sensor


def compare(got: list, want: list, pair: tuple, eps: float) -> None:
    """Two lists of (time, in/out), in order."""
    if [g[1] for g in got] != [w[1] for w in want] or any(abs(g[0] - w[0]) > eps for g, w in zip(got, want)):
        raise Violation(
            f"sensor {pair[0]} was told of mover {pair[1]}: {[g[:2] for g in got]}, should be {want}"
        )
