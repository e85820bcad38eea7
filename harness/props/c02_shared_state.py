"""C02: a shared linear state integrates the sum of its users' rates."""

from __future__ import annotations

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, close, drain, expect_raises, nums, seqs, st, times

STATES = ["a", "b"]
TASKS = 4


def op() -> st.SearchStrategy:
    state = st.sampled_from(STATES)
    task = st.integers(0, TASKS - 1)
    act = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["act", "act_linear"]),
            "s": state,
            "t": task,
            "rate": nums(-20, 20),
        }
    )
    return st.one_of(
        act,
        act,
        st.fixed_dictionaries({"op": st.just("deact"), "s": state, "t": task}),
        st.fixed_dictionaries({"op": st.just("deact_one"), "s": state, "n": st.integers(0, 3)}),
        st.fixed_dictionaries({"op": st.just("deact_all"), "t": task}),
        st.fixed_dictionaries({"op": st.just("read"), "s": state}),
        st.fixed_dictionaries({"op": st.just("set"), "s": state, "v": nums(-100, 100)}),
        st.fixed_dictionaries({"op": st.just("add"), "s": state, "v": nums(-100, 100)}),
        st.just({"op": "values"}),
    )


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "init": st.fixed_dictionaries({s: nums(-100, 100) for s in STATES}),
            "rec": st.booleans(),
            "poll": st.one_of(st.none(), st.sampled_from([0.3, 1.0, 2.5])),
            "ops": seqs(st.tuples(times(), op()), 28),
        }
    )


class Shared:
    def __init__(self, v: float) -> None:
        self.v, self.t, self.scale = v, 0.0, abs(v)
        self.users: dict[int, float] = {}

    def at(self, now: float) -> float:
        return self.v + (now - self.t) * sum(self.users.values())

    def settle(self, now: float) -> None:
        self.v, self.t = self.at(now), now
        self.scale = max(self.scale, abs(self.v))


def check(c: dict, ctx: Ctx) -> None:
    cls = type(
        "SharedActor",
        (UP.Actor,),
        {s: UP.SharedLinearChangingState(recording=c["rec"]) for s in STATES},
    )
    with UP.EnvironmentContext() as env:
        actor = cls(name="x", **{k: float(v) for k, v in c["init"].items()})
        other = cls(name="other", **{s: 7.0 for s in STATES})
        tasks = [UP.Task() for _ in range(TASKS)]
        model = {s: Shared(float(v)) for s, v in c["init"].items()}
        marks: dict[str, list] = {s: [] for s in STATES}
        overlap_read = 0

        def same(got, s, what):
            m = model[s]
            want = m.at(env.now)
            if not isinstance(got, int | float) or not close(got, want, 1e-9, 1e-9 * (1 + m.scale)):
                raise Violation(
                    f"{what}: state {s} at {env.now} is {got!r}, integral of summed rates {want!r}"
                )

        def read(s, what):
            nonlocal overlap_read
            same(getattr(actor, s), s, what)
            if len(model[s].users) > 1:
                overlap_read += 1

        def stop(s, t):
            m = model[s]
            m.settle(env.now)
            del m.users[t]
            if not m.users:
                marks[s].append((env.now, "deactivating"))

        def do(o):
            kind, s = o["op"], o.get("s")
            m = model[s] if s else None
            now = env.now
            if kind in ("act", "act_linear"):
                kw = {"state": s, "task": tasks[o["t"]], "rate": float(o["rate"])}
                f = actor.activate_state if kind == "act" else actor.activate_linear_state
                if o["t"] in m.users:
                    expect_raises("activating twice by one task", UP.UpstageError, f, **kw)
                    ctx.label("refused-double")
                else:
                    f(**kw)
                    m.settle(now)
                    m.users[o["t"]] = float(o["rate"])
                    marks[s].append((now, "activating"))
            elif kind in ("deact", "deact_one"):
                if kind == "deact":
                    t = o["t"]
                else:
                    if not m.users:
                        return
                    t = sorted(m.users)[o["n"] % len(m.users)]
                if t not in m.users:
                    expect_raises(
                        "stopping a change of another task",
                        UP.UpstageError,
                        actor.deactivate_state,
                        state=s,
                        task=tasks[t],
                    )
                    ctx.label("refused-foreign")
                else:
                    actor.deactivate_state(state=s, task=tasks[t])
                    stop(s, t)
                    ctx.label("left-others" if m.users else "last-left")
            elif kind == "deact_all":
                actor.deactivate_all_states(task=tasks[o["t"]])
                for name, mm in model.items():
                    if o["t"] in mm.users:
                        stop(name, o["t"])
            elif kind == "read":
                read(s, "read")
            elif kind == "values":
                vals = actor.state_values
                for name in STATES:
                    same(vals[name], name, "state_values")
            elif kind in ("set", "add"):
                if m.users and now > m.t:
                    ctx.label("set-while-active")
                new = float(o["v"])
                if kind == "add":
                    new = getattr(actor, s) + new
                setattr(actor, s, new)
                m.settle(now)
                m.v = new
                m.scale = max(m.scale, abs(new))

        def driver():
            for dt, o in c["ops"]:
                if dt > 0:
                    yield env.timeout(dt)
                do(o)
            yield env.timeout(1.5)
            for s in STATES:
                read(s, "final read")

        total = sum(dt for dt, _ in c["ops"]) + 1.5
        if c["poll"]:

            def poller():
                n = 0
                while env.now < total and n < 400:
                    n += 1
                    yield env.timeout(c["poll"])
                    for s in STATES:
                        read(s, "polled read")

            env.process(poller())
        env.process(driver())
        drain(env)
        for s in STATES:
            if getattr(other, s) != 7.0:
                raise Violation(f"state {s} of an unrelated actor changed to {getattr(other, s)}")
            hist = actor._state_histories.get(s, [])
            if not c["rec"]:
                if hist:
                    raise Violation(f"non-recording state has a history {hist}")
                continue
            ts = [t for t, _ in hist]
            if ts != sorted(ts):
                raise Violation(f"history of {s} out of time order: {hist}")
            got = [(t, v.name) for t, v in hist if not isinstance(v, int | float)]
            # repeated activations while already active may or may not be marked again
            if _collapse(got) != _collapse(marks[s]):
                raise Violation(f"history of {s} shows {got}, real activity {marks[s]}")
        ctx.nontrivial(overlap_read >= 1)
        if overlap_read:
            ctx.label("overlap-read")


def _collapse(ms: list) -> list:
    out: list = []
    for t, k in ms:
        if not out or out[-1][1] != k:
            out.append((t, k))
    return out


# --------------------------------------------------- several networks of tasks


def task_case() -> st.SearchStrategy:
    seg = st.fixed_dictionaries(
        {"gap": times(4), "rate": nums(-5, 5), "wait": times(6).map(lambda x: x + 0.25)}
    )
    user = st.fixed_dictionaries(
        {
            "segs": st.lists(seg, min_size=1, max_size=3),
            "kill": st.one_of(st.none(), times(12).map(lambda x: x + 0.125)),
            "action": st.sampled_from(["END", "RESTART", "IGNORE"]),
        }
    )
    return st.fixed_dictionaries({"init": nums(-10, 10), "users": st.lists(user, min_size=2, max_size=4)})


def task_check(c: dict, ctx: Ctx) -> None:
    """Tasks of several users, some interrupted; the level is the sum of the integrals."""

    class A(UP.Actor):
        level = UP.SharedLinearChangingState(default=None)

    rates: list[list] = []  # [start, stop or None, rate]

    with UP.EnvironmentContext() as env:
        actor = A(name="a", level=float(c["init"]))

        def expected() -> float:
            return float(c["init"]) + sum(((env.now if e is None else e) - b) * r for b, e, r in rates)

        def compare(what: str) -> None:
            got, want = actor.level, expected()
            if not close(got, want, 1e-8, 1e-8):
                raise Violation(f"{what} at {env.now}: level {got}, sum of integrals {want}")

        def make(u: dict):
            class Use(UP.Task):
                rec = None

                def task(self, *, actor):
                    for seg in u["segs"]:
                        if seg["gap"] > 0:
                            yield UP.Wait(float(seg["gap"]))
                        actor.activate_linear_state(state="level", rate=float(seg["rate"]), task=self)
                        self.rec = [self.env.now, None, float(seg["rate"])]
                        rates.append(self.rec)
                        yield UP.Wait(float(seg["wait"]))
                        actor.deactivate_all_states(task=self)
                        self.rec[1] = self.env.now
                        self.rec = None

                def on_interrupt(self, *, actor, cause):
                    compare("in on_interrupt")
                    if u["action"] != "IGNORE" and self.rec is not None:
                        self.rec[1] = self.env.now
                        self.rec = None
                        ctx.label("interrupted-while-flowing")
                    return getattr(self.INTERRUPT, u["action"])

            proc = Use().run(actor=actor)
            if u["kill"] is not None:

                def killer():
                    yield env.timeout(u["kill"])
                    if proc.is_alive:
                        proc.interrupt(cause="stop")

                env.process(killer())

        for u in c["users"]:
            make(u)

        def poller():
            for _ in range(25):
                yield env.timeout(0.7)
                compare("polled")

        env.process(poller())
        drain(env)
        compare("at the end")
    spans = [(b, e) for b, e, _ in rates]
    if any(b1 < e2 and b2 < e1 for i, (b1, e1) in enumerate(spans) for b2, e2 in spans[:i]):
        ctx.label("overlap")
        ctx.nontrivial()


PROP = Prop(
    id="C02",
    rule=(
        "Random histories (up to 28 operations with random delays) of activate/deactivate/read/set/add "
        "on two shared states by four tasks with an optional polling observer; and 2-4 concurrent tasks "
        "with random flows and interrupts on one shared state. Non-trivial: a read while two or more "
        "tasks were changing the state (first part), overlapping flows (second part)."
    ),
    parts=[
        Part("ops", case, check, quick=20000, thorough=300000),
        Part("tasks", task_case, task_check, quick=6000, thorough=100000),
    ],
    assumptions=["float round-off of repeated integration is allowed (1e-9 relative, 1e-8 for tasks)"],
)
