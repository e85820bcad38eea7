"""C03: Cartesian motion follows the waypoint path at constant speed."""

from __future__ import annotations

import math

from upstage_des.utils import waypoint_time_and_dist

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, close, drain, expect_raises, nums, seqs, st

# metres per unit, by definition
METRES = {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nmi": 1852.0, "ft": 0.3048}


def point() -> st.SearchStrategy:
    xy = nums(-100, 100)
    return st.tuples(xy, xy, st.one_of(st.just(0.0), xy), st.booleans()).map(list)


def speed() -> st.SearchStrategy:
    return st.one_of(st.sampled_from([1.0, 0.5, 3.0, 10.0]), st.floats(0.01, 500).map(lambda x: round(x, 3)))


def path() -> st.SearchStrategy:
    return st.lists(point(), min_size=1, max_size=5)


def op() -> st.SearchStrategy:
    start = st.fixed_dictionaries({"op": st.just("start"), "w": path(), "v": speed(), "t": st.integers(0, 1)})
    return st.one_of(
        start,
        start,
        st.fixed_dictionaries({"op": st.sampled_from(["stop", "stop_all"])}),
        st.fixed_dictionaries({"op": st.sampled_from(["read", "remaining", "read"])}),
        st.just({"op": "foreign_stop"}),
        st.just({"op": "record"}),
        st.just({"op": "values"}),
        st.fixed_dictionaries({"op": st.just("place"), "p": point()}),
    )


def delay() -> st.SearchStrategy:
    """How long to wait, relative to the motion under way."""
    frac = st.floats(0.0, 1.0).map(lambda x: round(x, 4))
    return st.one_of(
        st.tuples(st.just("frac"), frac),
        st.tuples(st.just("frac"), frac),
        st.tuples(st.just("leg"), st.integers(0, 4)),
        st.tuples(st.just("none"), st.just(0)),
        st.tuples(st.just("end"), st.just(0)),
    )


UNITS = [None, ["km", "km"], ["km", "ft"], ["nmi", "ft"], ["mi", "m"], ["m", "ft"], ["ft", "km"]]


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 7.25, 1234.5678, 1.0e6, 1.7e9]),
            "units": st.sampled_from(UNITS),
            "rec": st.booleans(),
            "init": point(),
            "poll": st.booleans(),
            "past": st.booleans(),
            "ops": seqs(st.tuples(delay(), op()), 16),
        }
    )


class Leg:
    """Position along a polyline as a function of time."""

    def __init__(self, pts: list, v: float, t0: float) -> None:
        self.pts, self.v, self.t0 = pts, v, t0
        self.lens = [math.dist(a, b) for a, b in zip(pts, pts[1:])]
        self.length = math.fsum(self.lens)
        self.total = self.length / v
        self.t1: float | None = None

    def at(self, now: float) -> list:
        s = (now - self.t0) * self.v
        for a, b, d in zip(self.pts, self.pts[1:], self.lens):
            if s <= d and d > 0:
                return [x + (y - x) * s / d for x, y in zip(a, b)]
            s -= d
        return self.pts[-1]

    def arrive(self, k: int) -> float:
        return self.t0 + math.fsum(self.lens[: k + 1]) / self.v

    @property
    def end(self) -> float:
        return self.t0 + self.total


def check(c: dict, ctx: Ctx) -> None:
    units = c["units"]
    ratio = METRES[units[1]] / METRES[units[0]] if units else 1.0
    alt_rel = 0.0 if units is None or units[0] == units[1] else 3e-6

    def loc(p):
        alt = bool(p[3]) and units is not None
        return UP.CartesianLocation(float(p[0]), float(p[1]), float(p[2]), use_altitude_units=alt)

    def xyz(p):
        alt = bool(p[3]) and units is not None
        return [float(p[0]), float(p[1]), float(p[2]) * (ratio if alt else 1.0)]

    class Mover(UP.Actor):
        location = UP.CartesianLocationChangingState(recording=c["rec"])

    t0 = float(c["t0"])
    with UP.EnvironmentContext(initial_time=t0) as env:
        if units:
            UP.add_stage_variable("distance_units", units[0])
            UP.add_stage_variable("altitude_units", units[1])
        actor = Mover(name="m", location=loc(c["init"]))
        tasks = [UP.Task(), UP.Task()]
        still = xyz(c["init"])
        leg: Leg | None = None
        owner = -1
        way: list = []
        trace: list = []  # (t_from, t_to, function of time)
        since = t0
        marks: list = []
        mid = 0
        stopped_early = False
        drift = 0.0
        scale = 1.0 + max(abs(v) for v in still)

        def tol(now):
            t = drift + 1e-9 * scale + alt_rel * scale
            if leg is not None:
                t += leg.v * 64 * math.ulp(now) + alt_rel * 2 * leg.length
            return t

        def where(now):
            return still if leg is None else leg.at(now)

        def as_xyz(got):
            if not isinstance(got, UP.CartesianLocation):
                raise Violation(f"position is {got!r}")
            z = got.z * (ratio if got.use_altitude_units else 1.0)
            return [got.x, got.y, z]

        def same(got, what):
            g, w = as_xyz(got), where(env.now)
            if math.dist(g, w) > tol(env.now):
                raise Violation(
                    f"{what} at {env.now}: position {g}, on the path it is {w}"
                    + (f" (leg {leg.pts} speed {leg.v} from {leg.t0})" if leg else "")
                )

        def read(what):
            nonlocal mid
            same(actor.location, what)
            if leg is not None and leg.t0 < env.now < leg.end:
                mid += 1

        def stop(every):
            nonlocal leg, still, owner, since, stopped_early, drift
            now = env.now
            if every:
                actor.deactivate_all_states(task=tasks[owner])
            else:
                actor.deactivate_state(state="location", task=tasks[owner])
            same(actor.location, "after stopping")
            if now < leg.end - 1e-6:
                stopped_early = True
                ctx.label("stopped-early")
            trace.append((since, now, leg.at, tol(now)))
            drift += leg.v * 64 * math.ulp(now) + alt_rel * 2 * leg.length
            still, since, leg, owner = leg.at(now), now, None, -1
            marks.append((now, "deactivating"))

        def do(o):
            nonlocal leg, owner, still, since, way, scale
            k, now = o["op"], env.now
            if k == "start":
                pts = [loc(p) for p in o["w"]]
                keep = list(pts)
                kw = dict(state="location", speed=float(o["v"]), waypoints=pts, task=tasks[o["t"]])
                if leg is not None:
                    if o["t"] != owner:
                        expect_raises(
                            "second task starting a motion",
                            UP.UpstageError,
                            actor.activate_location_state,
                            **kw,
                        )
                        ctx.label("refused")
                        return
                    stop(False)
                    ctx.label("rerouted")
                start = actor.location
                t_need, d_need = waypoint_time_and_dist(start, pts, float(o["v"]))
                actor.activate_location_state(**kw)
                if len(pts) != len(keep) or any(a is not b for a, b in zip(pts, keep)):
                    raise Violation("starting the motion changed the caller's waypoint list")
                here = [still, *[xyz(p) for p in o["w"]]]
                # what the actor has is the model position up to tolerance
                scale = max(scale, 1.0 + max(abs(v) for p in here for v in p))
                trace.append((since, now, (lambda p: lambda _t: p)(still), tol(now)))
                leg, owner, since, way = Leg(here, float(o["v"]), now), o["t"], now, keep
                marks.append((now, "activating"))
                if not close(d_need, leg.length, 1e-9 + alt_rel * 4, 1e-9 + tol(now) * 8):
                    raise Violation(f"path length {d_need}, legs add up to {leg.length}")
                if not close(t_need * leg.v, d_need, 1e-9, 1e-9):
                    raise Violation(f"travel time {t_need} for {d_need} at speed {leg.v}")
                # rounded unit constants and a start that is off by an ulp matter at low
                # speeds: go by the (just checked) time the package quotes
                leg.total = t_need
                if t_need > 0 and leg.length > 1e-6 * scale:
                    leg.v = leg.length / t_need
                if len(pts) > 1:
                    ctx.label("multi-leg")
            elif k in ("stop", "stop_all"):
                if leg is not None:
                    stop(k == "stop_all")
            elif k == "foreign_stop":
                if leg is not None:
                    expect_raises(
                        "stopping a motion of another task",
                        UP.UpstageError,
                        actor.deactivate_state,
                        state="location",
                        task=tasks[1 - owner],
                    )
            elif k == "read":
                read("read")
            elif k == "values":
                same(actor.state_values["location"], "state_values")
            elif k == "record":
                actor.record_state("location")
            elif k == "remaining":
                if leg is None:
                    return
                left = actor.get_remaining_waypoints("location")
                slack = tol(now) / leg.v + 64 * math.ulp(now) + 1e-9
                must = [i for i in range(len(way)) if leg.arrive(i) > now + slack]
                may = [i for i in range(len(way)) if leg.arrive(i) >= now - slack]
                ids = [next((i for i, w in enumerate(way) if w is x), None) for x in left]
                ok = all(i is not None for i in ids)
                # the same location object may be listed once only, so ids are a suffix
                want_from = range(len(way) - len(may), len(way) - len(must) + 1)
                if not ok or len(left) not in [len(way) - i for i in want_from]:
                    raise Violation(
                        f"remaining waypoints at {now}: {left}, expected the last {len(must)} of {way}"
                    )
                if left and [id(x) for x in left] != [id(x) for x in way[len(way) - len(left) :]]:
                    raise Violation(f"remaining waypoints {left} are not the tail of {way}")
                ctx.label("remaining")
            elif k == "place":
                if leg is None:
                    trace.append((since, now, (lambda p: lambda _t: p)(still), tol(now)))
                    still, since = xyz(o["p"]), now
                    scale = max(scale, 1.0 + max(abs(v) for v in still))
                    actor.location = loc(o["p"])

        def dt_of(d):
            kind, v = d
            now = env.now
            if leg is None:
                return 0.0 if kind == "none" else 1.25
            left = max(0.0, leg.end - now)
            if kind == "frac":
                return left * float(v)
            if kind == "leg":
                return max(0.0, leg.arrive(min(v, len(way) - 1)) - now)
            return left if kind == "end" else 0.0

        finished = False

        def driver():
            nonlocal finished
            for d, o in c["ops"]:
                dt = dt_of(d)
                if dt > 0:
                    yield env.timeout(dt)
                do(o)
            if leg is not None:
                left = leg.end - env.now
                if left > 0:
                    yield env.timeout(left)
                read("arrival")
                want = leg.pts[-1]
                if math.dist(as_xyz(actor.location), want) > tol(env.now):
                    raise Violation(f"arrived at {actor.location}, last waypoint {want}")
                if c["past"]:
                    finished = True
                    yield env.timeout(1e-3 * (1 + leg.total) + 1000 * math.ulp(env.now))
                    expect_raises(
                        "position read after the path was over",
                        UP.SimulationError,
                        lambda: actor.location,
                    )
                    ctx.label("past-the-end")
                else:
                    stop(False)
            if not finished:
                for _ in range(2):
                    yield env.timeout(1.5)
                    read("after the last stop")
            finished = True

        if c["poll"]:

            def poller():
                for _ in range(60):
                    step = 0.7 if leg is None else max(leg.total * 0.13, 1e-6)
                    # stay inside the path so that polling itself is never an error
                    if leg is not None and env.now + step > leg.end:
                        step = leg.end - env.now
                    if step > 0:
                        yield env.timeout(step)
                    else:
                        yield env.timeout(0.01)
                    if finished:
                        return
                    if leg is None or env.now <= leg.end:
                        read("polled")

            env.process(poller())
        env.process(driver())
        drain(env)
        if not finished:
            raise Violation("the driving process did not finish")
        if leg is None:
            trace.append((since, env.now, (lambda p: lambda _t: p)(still), tol(env.now)))
        else:
            trace.append((since, env.now, leg.at, tol(env.now)))
        hist = actor._state_histories.get("location", [])
        if not c["rec"]:
            if hist:
                raise Violation(f"non-recording location has a history {hist}")
        else:
            ts = [t for t, _ in hist]
            if ts != sorted(ts):
                raise Violation(f"history out of time order: {hist}")
            got = [(t, v.name) for t, v in hist if not isinstance(v, UP.CartesianLocation)]
            if got != marks:
                raise Violation(f"history shows activity {got}, real activity {marks}")
            for t, v in hist:
                if not isinstance(v, UP.CartesianLocation):
                    continue
                if not any(a <= t <= b and math.dist(as_xyz(v), f(t)) <= e + 1e-9 for a, b, f, e in trace):
                    raise Violation(f"history holds {v} at {t}, never there")
            ctx.label("recorded")
        ctx.nontrivial(mid >= 1 and bool(marks))
        if mid:
            ctx.label("read-mid-leg")
        if units:
            ctx.label("units")
        if t0 > 1e5:
            ctx.label("late-clock")


# ------------------------------------------------------------ documented usage


def task_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 12.5, 5.0e5]),
            "init": point(),
            "w": path(),
            "v": speed(),
            "hits": st.lists(st.floats(0.0, 1.1).map(lambda x: round(x, 4)), max_size=4, unique=True).map(
                sorted
            ),
            "ends": st.one_of(st.none(), st.none(), st.floats(0.05, 0.95).map(lambda x: round(x, 3))),
            "back": st.booleans(),
        }
    )


def task_check(c: dict, ctx: Ctx) -> None:
    """The documented travel task, interrupted and restarted on the way."""
    pts = [[float(p[0]), float(p[1]), float(p[2])] for p in [c["init"], *c["w"]]]
    t0, v = float(c["t0"]), float(c["v"])
    model = Leg(pts, v, t0)
    if model.length <= 1e-6:
        return
    log: list = []

    class Mover(UP.Actor):
        location = UP.CartesianLocationChangingState(recording=True)

    class Travel(UP.Task):
        def task(self, *, actor):
            w = list(self.get_actor_knowledge(actor, "path", must_exist=True))
            time, _ = waypoint_time_and_dist(actor.location, w, v)
            actor.activate_location_state(state="location", speed=v, waypoints=w, task=self)
            yield UP.Wait(time)
            actor.deactivate_all_states(task=self)
            log.append(env.now)

        def on_interrupt(self, *, actor, cause):
            rest = actor.get_remaining_waypoints("location")
            self.set_actor_knowledge(actor, "path", rest, overwrite=True)
            return self.INTERRUPT.RESTART if cause == "restart" else self.INTERRUPT.END

    with UP.EnvironmentContext(initial_time=t0) as env:
        actor = Mover(name="m", location=UP.CartesianLocation(*pts[0]))
        actor.set_knowledge("path", [UP.CartesianLocation(*p) for p in pts[1:]])
        proc = Travel().run(actor=actor)
        hits = [(t0 + f * model.total, "restart") for f in c["hits"]]
        ended = None
        if c["ends"] is not None:
            ended = t0 + c["ends"] * model.total
            hits.append((ended, "end"))
            hits.sort()

        def hitter():
            nonlocal ended
            for t, cause in hits:
                if t > env.now:
                    yield env.timeout(t - env.now)
                if proc.is_alive:
                    proc.interrupt(cause=cause)
                    if env.now < model.end - 1e-6 * (1 + model.total):
                        ctx.label("interrupted-" + cause)
                        if env.now > t0:
                            ctx.nontrivial()
            yield env.timeout(0)

        if hits:
            env.process(hitter())
        drain(env, until=model.end + 1.0)
        slack = 1e-9 * (1 + model.total) + 400 * math.ulp(env.now)
        want = model.at(ended if ended is not None else model.end)
        got = actor.location
        if (
            math.dist([got.x, got.y, got.z], want)
            > 1e-8 * (1 + model.length + max(abs(x) for p in pts for x in p)) + v * slack
        ):
            raise Violation(f"travel ended at {got}, expected {want}")
        if ended is None:
            if len(log) != 1 or abs(log[0] - model.end) > slack:
                raise Violation(
                    f"arrival at {log}, but {model.length} at speed {v} from {t0} takes until {model.end}"
                )
        elif log:
            raise Violation(f"travel ended by interrupt at {ended} still arrived at {log}")
        if proc.is_alive:
            raise Violation("travel task still running")
        if actor.location is not got or actor._active_states:
            raise Violation("location still changing after the task ended")


PROP = Prop(
    id="C03",
    rule=(
        "Random histories (up to 16 operations) of starting, stopping, re-routing, reading, recording and placing "
        "an actor on 3-D waypoint paths in every unit setting, waiting by fractions of the path, to waypoints and "
        "to the end, at small and large clock times, optionally polled; and the documented travel task interrupted "
        "and restarted with its remaining waypoints. Non-trivial: a position was read strictly inside a leg "
        "(first part), an interrupt hit the travel under way (second part)."
    ),
    parts=[
        Part("ops", case, check, quick=9000, thorough=150000),
        Part("tasks", task_case, task_check, quick=6000, thorough=100000),
    ],
    assumptions=[
        "positions agree to 1e-9 relative plus the distance covered in 64 clock ulps; 3e-6 relative more when "
        "altitude and distance units differ (the package's unit constants are rounded)"
    ],
)
