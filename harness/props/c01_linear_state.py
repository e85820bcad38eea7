"""C01: a linearly changing state is the exact integral of its rate."""

from __future__ import annotations

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, expect_raises, nums, seqs, st, times

# ---------------------------------------------------------------- generator
STATES = ["a", "b", "c"]
TASKS = 3


def op() -> st.SearchStrategy:
    state = st.sampled_from(STATES)
    task = st.integers(0, TASKS - 1)
    return st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(["act", "act", "act_linear"]),
                "s": state,
                "t": task,
                "rate": nums(-20, 20),
            }
        ),
        st.fixed_dictionaries({"op": st.just("deact"), "s": state, "t": task}),
        st.fixed_dictionaries({"op": st.sampled_from(["deact_own", "read"]), "s": state}),
        st.fixed_dictionaries({"op": st.sampled_from(["deact_own", "read"]), "s": state}),
        st.fixed_dictionaries({"op": st.just("deact_all"), "t": task}),
        st.fixed_dictionaries({"op": st.just("read"), "s": state}),
        st.fixed_dictionaries({"op": st.just("set"), "s": state, "v": nums(-100, 100)}),
        st.fixed_dictionaries({"op": st.just("add"), "s": state, "v": nums(-100, 100)}),
        st.fixed_dictionaries({"op": st.just("record"), "s": state}),
        st.just({"op": "values"}),
    )


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "t0": st.sampled_from([0.0, 0.0, 3.5]),
            "init": st.fixed_dictionaries({s: nums(-100, 100) for s in STATES}),
            "rec": st.fixed_dictionaries({s: st.booleans() for s in STATES}),
            "poll": st.one_of(st.none(), st.sampled_from([0.3, 1.0, 2.5])),
            "ops": seqs(st.tuples(times(), op()), 26),
        }
    )


class Lin:
    """Reference: value as a function of time, never dependent on who looks."""

    def __init__(self, v: float, t: float) -> None:
        self.v, self.t, self.rate, self.owner = v, t, None, None
        self.scale = abs(v)

    def at(self, now: float) -> float:
        if self.rate is None:
            return self.v
        return self.v + (now - self.t) * self.rate

    def settle(self, now: float) -> None:
        self.v, self.t = self.at(now), now
        self.scale = max(self.scale, abs(self.v))


def make_actor_class(rec: dict, shared: bool = False) -> type:
    kind = UP.SharedLinearChangingState if shared else UP.LinearChangingState
    ns = {s: kind(recording=rec[s]) for s in STATES}
    return type("LinActor", (UP.Actor,), ns)


def check(c: dict, ctx: Ctx) -> None:
    cls = make_actor_class(c["rec"])
    with UP.EnvironmentContext(initial_time=c["t0"]) as env:
        actor = cls(name="x", **{k: float(v) for k, v in c["init"].items()})
        tasks = [UP.Task() for _ in range(TASKS)]
        model = {s: Lin(float(v), env.now) for s, v in c["init"].items()}
        status: dict[str, list] = {s: [] for s in STATES}
        observed: dict[str, list] = {s: [] for s in STATES}
        n_active_reads = 0

        def same(got: float, s: str, what: str) -> None:
            want = model[s].at(env.now)
            if not isinstance(got, int | float) or not close(got, want, 1e-9, 1e-9 * (1 + model[s].scale)):
                raise Violation(f"{what}: state {s} at {env.now} is {got!r}, integral is {want!r}")

        def read(s: str, what: str) -> None:
            nonlocal n_active_reads
            v = getattr(actor, s)
            same(v, s, what)
            if model[s].rate is not None:
                n_active_reads += 1
                observed[s].append((env.now, v))

        def do(o: dict) -> None:
            kind, s = o["op"], o.get("s")
            m = model[s] if s else None
            now = env.now
            if kind in ("act", "act_linear"):
                kw = {"state": s, "task": tasks[o["t"]], "rate": float(o["rate"])}
                f = actor.activate_state if kind == "act" else actor.activate_linear_state
                if m.owner is not None:
                    expect_raises("activating a state in use", UP.UpstageError, f, **kw)
                    ctx.label("locked")
                else:
                    f(**kw)
                    m.settle(now)
                    m.rate, m.owner = float(o["rate"]), o["t"]
                    status[s].append((now, "activating"))
            elif kind in ("deact", "deact_own"):
                t = o["t"] if kind == "deact" else m.owner
                if t is None:
                    return
                if m.owner != t:
                    expect_raises(
                        "deactivating a state of another task",
                        UP.UpstageError,
                        actor.deactivate_state,
                        state=s,
                        task=tasks[t],
                    )
                    ctx.label("foreign-deactivate")
                else:
                    actor.deactivate_state(state=s, task=tasks[t])
                    m.settle(now)
                    m.rate = m.owner = None
                    status[s].append((now, "deactivating"))
                    ctx.label("deactivated")
            elif kind == "deact_all":
                actor.deactivate_all_states(task=tasks[o["t"]])
                for name, mm in model.items():
                    if mm.owner == o["t"]:
                        mm.settle(now)
                        mm.rate = mm.owner = None
                        status[name].append((now, "deactivating"))
                        ctx.label("deactivated")
            elif kind == "read":
                read(s, "read")
            elif kind == "values":
                vals = actor.state_values
                for name in STATES:
                    same(vals[name], name, "state_values")
            elif kind == "set":
                if m.rate is not None and now > m.t:
                    ctx.label("set-while-active")
                setattr(actor, s, float(o["v"]))
                m.settle(now)
                m.v = float(o["v"])
                m.scale = max(m.scale, abs(m.v))
            elif kind == "add":
                setattr(actor, s, getattr(actor, s) + float(o["v"]))
                m.settle(now)
                m.v += float(o["v"])
                m.scale = max(m.scale, abs(m.v))
            elif kind == "record":
                actor.record_state(s)

        def driver():
            for dt, o in c["ops"]:
                if dt > 0:
                    yield env.timeout(dt)
                do(o)
            yield env.timeout(1.0)
            for s in STATES:
                read(s, "final read")

        total = sum(dt for dt, _ in c["ops"]) + 1.0
        if c["poll"]:
            ctx.label("polled")

            def poller():
                n = 0
                while env.now - c["t0"] < total and n < 400:
                    n += 1
                    yield env.timeout(c["poll"])
                    for s in STATES:
                        read(s, "polled read")

            env.process(poller())
        env.process(driver())
        drain(env)

        # The recorded history is a faithful trace of the same trajectory.
        for s in STATES:
            hist = actor._state_histories.get(s)
            if not c["rec"][s]:
                if hist:
                    raise Violation(f"non-recording state {s} has history {hist}")
                continue
            times_ = [t for t, _ in hist]
            if times_ != sorted(times_):
                raise Violation(f"history of {s} is not in time order: {hist}")
            got_status = [(t, v.name) for t, v in hist if not isinstance(v, int | float)]
            if got_status != status[s]:
                raise Violation(f"history of {s} shows {got_status}, real changes {status[s]}")
            nums_ = [(t, v) for t, v in hist if isinstance(v, int | float)]
            if nums_[0][0] != c["t0"] or nums_[0][1] != float(c["init"][s]):
                raise Violation(f"history of {s} does not start at its initial value: {nums_[:1]}")
            have = set(nums_)
            for t, v in observed[s]:
                if (t, v) not in have:
                    raise Violation(f"value {v} of {s} observed at {t} is not in its history")
            for i, (t, v) in enumerate(hist):
                if not isinstance(v, int | float) and (i == 0 or hist[i - 1][0] != t):
                    raise Violation(f"no value recorded with the status change of {s} at {t}")
        ctx.nontrivial(
            n_active_reads >= 1 and ("deactivated" in ctx.labels or "set-while-active" in ctx.labels)
        )
        if len({o["t"] for _, o in c["ops"] if "t" in o}) > 1:
            ctx.label("multi-task")


# ------------------------------------------------- tasks, interrupts and waits


def task_case() -> st.SearchStrategy:
    seg = st.fixed_dictionaries(
        {
            "rate": nums(-5, 5),
            "wait": times(6).map(lambda x: x + 0.25),
            "mode": st.sampled_from(["deact", "deact_all", "hold"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "init": nums(-10, 10),
            "segs": st.lists(seg, min_size=1, max_size=5),
            "action": st.sampled_from(["END", "IGNORE", "RESTART"]),
            "interrupts": st.lists(times(15).map(lambda x: x + 0.125), max_size=3),
            "poll": st.one_of(st.none(), st.sampled_from([0.4, 1.1])),
        }
    )


def task_check(c: dict, ctx: Ctx) -> None:
    """The same trajectory when a task drives it and interrupts hit it at any time."""

    class A(UP.Actor):
        level = UP.LinearChangingState(default=None, recording=True)

    trace: list[tuple[float, float | None]] = []  # (time, new rate or None)

    class Run(UP.Task):
        def task(self, *, actor):
            for seg in c["segs"]:
                actor.activate_linear_state(state="level", rate=float(seg["rate"]), task=self)
                trace.append((self.env.now, float(seg["rate"])))
                yield UP.Wait(float(seg["wait"]))
                if seg["mode"] == "hold":
                    yield UP.Wait(float(seg["wait"]) / 2)
                if seg["mode"] == "deact_all":
                    actor.deactivate_all_states(task=self)
                else:
                    actor.deactivate_state(state="level", task=self)
                trace.append((self.env.now, None))

        def on_interrupt(self, *, actor, cause):
            got = actor.level
            compare(got, "inside on_interrupt")
            if c["action"] != "IGNORE":
                trace.append((self.env.now, None))
            return getattr(self.INTERRUPT, c["action"])

    with UP.EnvironmentContext() as env:
        actor = A(name="a", level=float(c["init"]))

        def expected(now: float) -> float:
            v, t, r = float(c["init"]), 0.0, None
            for tt, rr in trace:
                if r is not None:
                    v += (tt - t) * r
                t, r = tt, rr
            if r is not None:
                v += (now - t) * r
            return v

        def compare(got: float, what: str) -> None:
            want = expected(env.now)
            if not close(got, want, 1e-8, 1e-8):
                raise Violation(f"{what} at {env.now}: level {got}, integral of rates {want}")

        proc = Run().run(actor=actor)
        done = []

        def killer():
            last = 0.0
            for t in sorted(c["interrupts"]):
                if t > last:
                    yield env.timeout(t - last)
                    last = t
                if proc.is_alive and env.now > 0:
                    done.append(env.now)
                    proc.interrupt(cause="x")

        env.process(killer())
        if c["poll"]:

            def poller():
                for _ in range(60):
                    yield env.timeout(c["poll"])
                    compare(actor.level, "polled")

            env.process(poller())
        drain(env)
        compare(actor.level, "at the end")
        before = actor.level
        env.run(until=env.now + 5)
        if actor.level != before:
            raise Violation("the state kept changing after its task was over")
        if done:
            ctx.label("interrupted", "interrupted-" + c["action"])
        ctx.nontrivial(bool(done) or len(c["segs"]) > 1)


PROP = Prop(
    id="C01",
    rule=(
        "Random histories (up to 25 operations with random delays) of activate, deactivate, read, "
        "set, add and record on three linear states by three tasks, with or without a polling "
        "observer; and random task programs interrupted at random times with END/IGNORE/RESTART. "
        "Non-trivial: an active state was read and was later deactivated or set (first part); "
        "at least one interrupt or two rate segments (second part)."
    ),
    parts=[
        Part("ops", case, check, quick=20000, thorough=300000),
        Part("tasks", task_case, task_check, quick=8000, thorough=120000),
    ],
    assumptions=[
        "float round-off of repeated integration is allowed up to 1e-9 relative (1e-8 for tasks)",
        "histories are read from the documented actor history attribute",
    ],
)
