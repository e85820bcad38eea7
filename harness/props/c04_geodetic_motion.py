"""C04: geodetic motion follows the great-circle legs at constant speed."""

from __future__ import annotations

import math

from upstage_des.geography import WGS84, Spherical
from upstage_des.utils import waypoint_time_and_dist

from harness import geo_ref as G
from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, close, drain, expect_raises, seqs, st

MODELS = {"Spherical": Spherical, "WGS84": WGS84}
#: the documented slack of a geodetic reading around the end of a leg (time units)
EDGE = 1.01e-4


def start_point() -> st.SearchStrategy:
    lat = st.one_of(
        st.sampled_from([0.0, 33.7, 45.0, -60.0, 89.5, -89.9, 90.0, -90.0]),
        st.floats(-89, 89).map(lambda x: round(x, 4)),
    )
    lon = st.one_of(
        st.sampled_from([0.0, -84.4, 90.0, 179.9, -179.9, 180.0, -180.0]),
        st.floats(-180, 180).map(lambda x: round(x, 4)),
    )
    return st.tuples(lat, lon, alt()).map(list)


def alt() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([0.0, 0.0, 1000.0, 35000.0]), st.floats(-100, 60000).map(lambda x: round(x, 1))
    )


def step() -> st.SearchStrategy:
    """Next waypoint: bearing, metres, altitude, whether it is given in radians."""
    km = st.one_of(
        st.sampled_from([0.0, 1e-4, 0.5, 10.0, 100.0, 1000.0, 5000.0, 15000.0]),
        st.floats(0.01, 4000).map(lambda x: round(x, 3)),
    )
    brg = st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), st.floats(0, 360).map(lambda x: round(x, 3)))
    return st.tuples(brg, km, alt(), st.sampled_from([False, False, True])).map(list)


def path() -> st.SearchStrategy:
    return st.lists(step(), min_size=1, max_size=4)


def duration() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([1.0, 0.5, 10.0, 3600.0]), st.floats(0.02, 500).map(lambda x: round(x, 3))
    )


def op() -> st.SearchStrategy:
    start = st.fixed_dictionaries(
        {"op": st.just("start"), "w": path(), "T": duration(), "t": st.integers(0, 1)}
    )
    return st.one_of(
        start,
        start,
        st.fixed_dictionaries({"op": st.sampled_from(["stop", "stop_all"])}),
        st.fixed_dictionaries({"op": st.sampled_from(["read", "remaining", "read"])}),
        st.just({"op": "foreign_stop"}),
        st.just({"op": "record"}),
        st.just({"op": "values"}),
        st.fixed_dictionaries({"op": st.just("place"), "p": start_point()}),
    )


def delay() -> st.SearchStrategy:
    frac = st.floats(0.0, 1.0).map(lambda x: round(x, 4))
    return st.one_of(
        st.tuples(st.just("frac"), frac),
        st.tuples(st.just("frac"), frac),
        st.tuples(st.just("leg"), st.integers(0, 3)),
        st.tuples(st.just("tiny"), st.sampled_from([1e-6, 5e-5])),
        st.tuples(st.just("none"), st.just(0)),
        st.tuples(st.just("end"), st.just(0)),
    )


UNITS = [["km", "m"], ["nmi", "ft"], ["mi", "ft"], ["m", "m"]]


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "model": st.sampled_from(sorted(MODELS)),
            "t0": st.sampled_from([0.0, 0.0, 7.25, 1.0e6]),
            "units": st.sampled_from(UNITS),
            "rec": st.booleans(),
            "init": start_point(),
            "poll": st.booleans(),
            "past": st.booleans(),
            "ops": seqs(st.tuples(delay(), op()), 14),
        }
    )


class Track:
    """Where a mover is on great-circle legs, from an independent direct solution."""

    def __init__(self, model: str, start: tuple, steps: list, t0: float) -> None:
        self.model, self.t0 = model, t0
        self.legs = []  # (start, bearing, metres, end)
        here = tuple(start)
        for b, km, a, _ in steps:
            end = (*self.go(here, b, km * 1000.0), float(a))
            self.legs.append((here, float(b), km * 1000.0, end))
            here = end
        self.length = math.fsum(x[2] for x in self.legs)
        self.v = 1.0  # metres per time unit
        self.total = 0.0

    def go(self, p, b, s) -> tuple:
        if s == 0:
            return (p[0], p[1])
        if self.model == "Spherical":
            return G.travel(p, b, s / G.R)
        la, lo, _ = G.wgs_direct(p, b, s)
        return (la, (lo + 180.0) % 360.0 - 180.0)

    def arrive(self, k: int) -> float:
        return self.t0 + math.fsum(x[2] for x in self.legs[: k + 1]) / self.v

    @property
    def end(self) -> float:
        return self.t0 + self.total

    def at(self, now: float) -> tuple:
        s = (now - self.t0) * self.v
        for p, b, d, q in self.legs:
            if d > 0 and s <= d:
                s = max(0.0, s)
                return (*self.go(p, b, s), p[2] + (q[2] - p[2]) * s / d)
            s -= d
        return self.legs[-1][3]

    def candidates(self, now: float, slack: float) -> list:
        """Positions a reading may show: the true one, or the waypoint just reached."""
        out = [self.at(now)]
        if now <= self.t0 + slack:
            out.append(self.legs[0][0])
        for k, leg in enumerate(self.legs):
            t = self.arrive(k)
            if t - slack <= now <= t + EDGE + slack:
                out.append(leg[3])
        return out


def check(c: dict, ctx: Ctx) -> None:
    name = c["model"]
    k_m = G.METRES[c["units"][0]]

    def loc(p, rad=False):
        if rad:
            return UP.GeodeticLocation(math.radians(p[0]), math.radians(p[1]), float(p[2]), in_radians=True)
        return UP.GeodeticLocation(float(p[0]), float(p[1]), float(p[2]))

    class Mover(UP.Actor):
        location = UP.GeodeticLocationChangingState(recording=c["rec"])

    t0 = float(c["t0"])
    with UP.EnvironmentContext(initial_time=t0) as env:
        UP.add_stage_variable("stage_model", MODELS[name])
        UP.add_stage_variable("distance_units", c["units"][0])
        UP.add_stage_variable("altitude_units", c["units"][1])
        actor = Mover(name="m", location=loc(c["init"]))
        tasks = [UP.Task(), UP.Task()]
        still: tuple = tuple(float(x) for x in c["init"])
        way: list = []
        tr: Track | None = None
        owner = -1
        drift = 0.0
        since = t0
        trace: list = []
        marks: list = []
        mid = 0

        def time_slack(now):
            return 64 * math.ulp(now) + (1e-9 * tr.total if tr else 0.0)

        def tol(now):
            t = drift + 0.02
            if tr is not None:
                t += tr.v * time_slack(now) + 1e-10 * tr.length
            return t

        def fits(got, cands, metres):
            if not isinstance(got, UP.GeodeticLocation):
                return False
            g = (*got.latlon(), got.alt)
            for w in cands:
                span = 1.0 + abs(w[2]) + abs(g[2])
                alt_tol = 1e-7 * span
                if tr is not None:
                    sl, t_in = time_slack(env.now), tr.t0
                    for k, (p, _, d, q) in enumerate(tr.legs):
                        t_out = tr.arrive(k)
                        if t_in - sl <= env.now <= t_out + EDGE + sl:
                            # this leg can be the one shown
                            frac = metres / d if d > metres else 1.0
                            alt_tol = max(alt_tol, frac * abs(q[2] - p[2]))
                        t_in = t_out
                if G.ground(g, w) <= metres and abs(g[2] - w[2]) <= alt_tol:
                    return True
            return False

        def cands_now(now):
            return [still] if tr is None else tr.candidates(now, time_slack(now))

        def same(got, what):
            cs = cands_now(env.now)
            if not fits(got, cs, tol(env.now)):
                raise Violation(
                    f"{what} at {env.now}: position {got}, on the track it is {cs} ({name}"
                    + (f", legs {tr.legs} from {tr.t0} at {tr.v} m)" if tr else ")")
                )

        def read(what):
            nonlocal mid
            same(actor.location, what)
            if tr is not None and tr.t0 < env.now < tr.end:
                mid += 1

        def stop(every):
            nonlocal tr, still, owner, since, drift
            now = env.now
            if every:
                actor.deactivate_all_states(task=tasks[owner])
            else:
                actor.deactivate_state(state="location", task=tasks[owner])
            got = actor.location
            same(got, "after stopping")
            if now < tr.end - 1e-3:
                ctx.label("stopped-early")
            old, sl, tl = tr, time_slack(now), tol(now)
            trace.append((since, now, lambda t: old.candidates(t, sl), tl))
            # the frozen point is one of the allowed ones; carry on from there
            still, since, tr, owner = (*got.latlon(), got.alt), now, None, -1
            marks.append((now, "deactivating"))

        def do(o):
            nonlocal tr, owner, still, since, way
            k, now = o["op"], env.now
            if k == "start":
                if tr is not None and o["t"] == owner:
                    stop(False)
                    ctx.label("rerouted")
                new = Track(name, still, o["w"], now)
                pts = [loc(leg[3], w[3]) for leg, w in zip(new.legs, o["w"])]
                keep = list(pts)
                speed = new.length / k_m / float(o["T"]) if new.length > 0 else 1.0
                kw = dict(state="location", speed=speed, waypoints=pts, task=tasks[o["t"]])
                if tr is not None:
                    expect_raises(
                        "second task starting a motion",
                        UP.UpstageError,
                        actor.activate_location_state,
                        **kw,
                    )
                    ctx.label("refused")
                    return
                t_need, d_need = waypoint_time_and_dist(actor.location, pts, speed)
                actor.activate_location_state(**kw)
                if len(pts) != len(keep) or any(a is not b for a, b in zip(pts, keep)):
                    raise Violation("starting the motion changed the caller's waypoint list")
                if not close(d_need * k_m, new.length, 1e-6, 0.02 * len(pts)):
                    raise Violation(f"path length {d_need}, legs are {new.length} m")
                if not close(t_need * speed, d_need, 1e-9, 1e-9):
                    raise Violation(f"travel time {t_need} for {d_need} at speed {speed}")
                frozen = still
                trace.append((since, now, lambda _t: [frozen], 0.02))
                tr, owner, since, way = new, o["t"], now, keep
                tr.total = t_need
                tr.v = new.length / t_need if t_need > 0 and new.length > 0 else speed * k_m
                marks.append((now, "activating"))
                if len(pts) > 1:
                    ctx.label("multi-leg")
                if any(w[3] for w in o["w"]):
                    ctx.label("radians")
                if any(abs(a[0][1] - a[3][1]) > 180 for a in tr.legs):
                    ctx.label("antimeridian")
            elif k in ("stop", "stop_all"):
                if tr is not None:
                    stop(k == "stop_all")
            elif k == "foreign_stop":
                if tr is not None:
                    expect_raises(
                        "stopping a motion of another task",
                        UP.UpstageError,
                        actor.deactivate_state,
                        state="location",
                        task=tasks[1 - owner],
                    )
            elif k == "read":
                read("read")
            elif k == "values":
                same(actor.state_values["location"], "state_values")
            elif k == "record":
                actor.record_state("location")
            elif k == "remaining":
                if tr is None:
                    return
                left = actor.get_remaining_waypoints("location")
                slack = time_slack(now) + 1e-9 + 0.02 / tr.v
                must = sum(1 for i in range(len(way)) if tr.arrive(i) > now + slack)
                may = sum(1 for i in range(len(way)) if tr.arrive(i) >= now - slack - EDGE)
                if not must <= len(left) <= may or any(
                    a is not b for a, b in zip(left, way[len(way) - len(left) :])
                ):
                    raise Violation(
                        f"remaining waypoints at {now}: {left}, expected the last {must}..{may} of {way}"
                    )
                ctx.label("remaining")
            elif k == "place":
                if tr is None:
                    frozen = still
                    trace.append((since, now, lambda _t: [frozen], 0.02))
                    still, since = tuple(float(x) for x in o["p"]), now
                    actor.location = loc(o["p"])

        def dt_of(d):
            kind, v = d
            now = env.now
            if tr is None:
                return 0.0 if kind == "none" else 1.25
            left = max(0.0, tr.end - now)
            if kind == "frac":
                return left * float(v)
            if kind == "leg":
                return min(left, max(0.0, tr.arrive(min(v, len(way) - 1)) - now))
            if kind == "tiny":
                return min(left, float(v))
            return left if kind == "end" else 0.0

        finished = False

        def driver():
            nonlocal finished
            for d, o in c["ops"]:
                dt = dt_of(d)
                if dt > 0:
                    yield env.timeout(dt)
                do(o)
            if tr is not None:
                left = tr.end - env.now
                if left > 0:
                    yield env.timeout(left)
                read("arrival")
                last = tr.legs[-1][3]
                # a last leg shorter than the slack may still show its start
                lasting = tr.legs[-1][2] / tr.v > 2 * EDGE
                if lasting and not fits(actor.location, [last], tol(env.now)):
                    raise Violation(f"arrived at {actor.location}, last waypoint {last}")
                if c["past"]:
                    finished = True
                    yield env.timeout(1e-3 + 1e-6 * tr.total)
                    expect_raises(
                        "position read after the path was over",
                        UP.SimulationError,
                        lambda: actor.location,
                    )
                    ctx.label("past-the-end")
                else:
                    stop(False)
            if not finished:
                for _ in range(2):
                    yield env.timeout(1.5)
                    read("after the last stop")
            finished = True

        if c["poll"]:

            def poller():
                for _ in range(60):
                    dt = 0.7 if tr is None else max(tr.total * 0.13, 1e-6)
                    if tr is not None and env.now + dt > tr.end:
                        dt = tr.end - env.now
                    yield env.timeout(dt if dt > 0 else 0.01)
                    if finished:
                        return
                    if tr is None or env.now <= tr.end:
                        read("polled")

            env.process(poller())
        env.process(driver())
        drain(env)
        if not finished:
            raise Violation("the driving process did not finish")
        if tr is None:
            last = still
            trace.append((since, env.now, lambda _t: [last], 0.02))
        else:
            sl = time_slack(env.now)
            now_tr = tr
            trace.append((since, env.now, lambda t: now_tr.candidates(t, sl), tol(env.now)))
        hist = actor._state_histories.get("location", [])
        if not c["rec"]:
            if hist:
                raise Violation(f"non-recording location has a history {hist}")
        else:
            ts = [t for t, _ in hist]
            if ts != sorted(ts):
                raise Violation(f"history out of time order: {hist}")
            got = [(t, v.name) for t, v in hist if not isinstance(v, UP.GeodeticLocation)]
            if got != marks:
                raise Violation(f"history shows activity {got}, real activity {marks}")
            for t, v in hist:
                if not isinstance(v, UP.GeodeticLocation):
                    continue
                g = v.latlon()
                if not any(
                    a <= t <= b and any(G.ground(g, w) <= e + 1e-3 for w in f(t)) for a, b, f, e in trace
                ):
                    raise Violation(f"history holds {v} at {t}, never there")
            ctx.label("recorded")
        ctx.nontrivial(mid >= 1 and bool(marks))
        if mid:
            ctx.label("read-mid-leg")
        ctx.label(name)


# ------------------------------------------------------------ documented usage


def task_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "model": st.sampled_from(sorted(MODELS)),
            "units": st.sampled_from(UNITS),
            "t0": st.sampled_from([0.0, 12.5, 5.0e5]),
            "init": start_point(),
            "w": path(),
            "T": duration(),
            "hits": st.lists(st.floats(0.0, 1.1).map(lambda x: round(x, 4)), max_size=4, unique=True).map(
                sorted
            ),
            "ends": st.one_of(st.none(), st.none(), st.floats(0.05, 0.95).map(lambda x: round(x, 3))),
        }
    )


def task_check(c: dict, ctx: Ctx) -> None:
    """The documented fly task, interrupted and restarted with its remaining waypoints."""
    t0 = float(c["t0"])
    k_m = G.METRES[c["units"][0]]
    tr = Track(c["model"], tuple(map(float, c["init"])), c["w"], t0)
    if tr.length < 1000.0:
        return
    speed = tr.length / k_m / float(c["T"])
    log: list = []

    class Flyer(UP.Actor):
        location = UP.GeodeticLocationChangingState(recording=True)

    class Fly(UP.Task):
        def task(self, *, actor):
            w = list(self.get_actor_knowledge(actor, "path", must_exist=True))
            time, _ = waypoint_time_and_dist(actor.location, w, speed)
            actor.activate_location_state(state="location", speed=speed, waypoints=w, task=self)
            yield UP.Wait(time)
            actor.deactivate_all_states(task=self)
            log.append(env.now)

        def on_interrupt(self, *, actor, cause):
            rest = actor.get_remaining_waypoints("location")
            self.set_actor_knowledge(actor, "path", rest, overwrite=True)
            return self.INTERRUPT.RESTART if cause == "restart" else self.INTERRUPT.END

    with UP.EnvironmentContext(initial_time=t0) as env:
        UP.add_stage_variable("stage_model", MODELS[c["model"]])
        UP.add_stage_variable("distance_units", c["units"][0])
        UP.add_stage_variable("altitude_units", c["units"][1])
        actor = Flyer(name="m", location=UP.GeodeticLocation(*map(float, c["init"])))
        pts = [UP.GeodeticLocation(*leg[3]) for leg in tr.legs]
        actor.set_knowledge("path", pts)
        tr.total, _ = waypoint_time_and_dist(actor.location, pts, speed)
        tr.v = tr.length / tr.total
        proc = Fly().run(actor=actor)
        hits = [(t0 + f * tr.total, "restart") for f in c["hits"]]
        ended = None
        if c["ends"] is not None:
            ended = t0 + c["ends"] * tr.total
            hits.append((ended, "end"))
            hits.sort()
        n_hit = 0

        def hitter():
            nonlocal n_hit
            for t, cause in hits:
                if t > env.now:
                    yield env.timeout(t - env.now)
                if proc.is_alive:
                    proc.interrupt(cause=cause)
                    n_hit += 1
                    if t0 < env.now < tr.end - 1e-3:
                        ctx.label("interrupted-" + cause)
                        ctx.nontrivial()
            yield env.timeout(0)

        if hits:
            env.process(hitter())
        drain(env, until=tr.end + 1.0)
        # a restart within the edge of a waypoint starts from the waypoint
        slack = EDGE * (n_hit + 1) + 1e-8 * (1 + tr.total) + 400 * math.ulp(env.now)
        metres = 0.05 + tr.v * slack
        got = actor.location
        want = tr.at(ended if ended is not None else tr.end)
        if G.ground(got.latlon(), want) > metres:
            raise Violation(f"flight ended at {got}, expected {want}")
        if ended is None:
            last = tr.legs[-1]
            if (
                last[2] > 10 * metres
                and abs(got.alt - last[3][2])
                > 1e-6 * (1 + abs(got.alt)) + abs(last[3][2] - last[0][2]) * metres / last[2]
            ):
                raise Violation(f"flight ended at altitude {got.alt}, last waypoint {last[3]}")
            if len(log) != 1 or abs(log[0] - tr.end) > slack:
                raise Violation(f"arrival at {log}, {tr.length} m at {speed} takes until {tr.end}")
        elif log:
            raise Violation(f"flight ended by interrupt at {ended} still arrived at {log}")
        if proc.is_alive or actor.location is not got or actor._active_states:
            raise Violation("location still changing after the task ended")


PROP = Prop(
    id="C04",
    rule=(
        "Random histories (up to 14 operations) of starting, stopping, re-routing, reading, recording and placing an "
        "actor on great-circle paths over the whole globe with both earth models, every unit setting and waypoints in "
        "degrees or radians, waiting by fractions of the path, to waypoints and to the end, optionally polled; and the "
        "documented fly task interrupted and restarted. The true track comes from an independent direct solution. "
        "Non-trivial: a position was read strictly inside the path (first), an interrupt hit the flight under way (second)."
    ),
    parts=[
        Part("ops", case, check, quick=12000, thorough=200000),
        Part("tasks", task_case, task_check, quick=6000, thorough=100000),
    ],
    assumptions=[
        "a reading within 1e-4 time units after a waypoint may still show the waypoint (the package's stated slack)",
        "2 cm plus the distance covered in 64 clock ulps and 1e-9 of the trip time",
    ],
)
