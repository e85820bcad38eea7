"""C05: a mimicking state always shows the other actor's current value."""

from __future__ import annotations

from harness.core import Ctx, Part, Prop
from harness.util import UP, Violation, close, drain, expect_raises, nums, seqs, st, times

ACTORS = 3
STATES = ["p", "r", "dup", "lin", "rlin"]
PLAIN = ["p", "r", "dup"]
LINEAR = ["lin", "rlin"]
RECORDED = ["r", "dup", "rlin"]
TASKS = 3


def op() -> st.SearchStrategy:
    a = st.integers(0, ACTORS - 1)
    s = st.sampled_from(STATES)
    t = st.integers(0, TASKS - 1)
    mimic = st.fixed_dictionaries({"op": st.just("mimic"), "a": a, "s": s, "b": a, "m": s, "t": t})
    setter = st.fixed_dictionaries(
        {"op": st.sampled_from(["set", "add"]), "a": a, "s": s, "v": nums(-20, 20)}
    )
    return st.one_of(
        mimic,
        mimic,
        setter,
        setter,
        st.fixed_dictionaries({"op": st.just("read"), "a": a, "s": s}),
        st.fixed_dictionaries({"op": st.just("values"), "a": a}),
        st.fixed_dictionaries({"op": st.just("unmimic"), "a": a, "s": s, "t": t}),
        st.fixed_dictionaries({"op": st.just("unmimic_own"), "n": st.integers(0, 5)}),
        st.fixed_dictionaries({"op": st.just("unmimic_all"), "a": a, "t": t}),
        st.fixed_dictionaries(
            {"op": st.just("act"), "a": a, "s": st.sampled_from(LINEAR), "rate": nums(-5, 5)}
        ),
        st.fixed_dictionaries({"op": st.just("deact"), "a": a, "s": st.sampled_from(LINEAR)}),
        st.fixed_dictionaries({"op": st.just("bad"), "a": a, "b": a, "t": t}),
    )


def case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "init": st.lists(nums(-20, 20), min_size=ACTORS, max_size=ACTORS),
            "sub": st.booleans(),
            "ops": seqs(st.tuples(times(6), op()), 30),
        }
    )


class Cell:
    def __init__(self, v: float) -> None:
        self.v, self.t, self.rate = v, 0.0, None
        self.of = None  # (actor, state, task) mimicked

    def own(self, now: float) -> float:
        return self.v if self.rate is None else self.v + (now - self.t) * self.rate


def check(c: dict, ctx: Ctx) -> None:
    class Base(UP.Actor):
        p = UP.State()
        r = UP.State(recording=True)
        dup = UP.State(recording=True, record_duplicates=True)
        lin = UP.LinearChangingState()
        rlin = UP.LinearChangingState(recording=True)
        txt = UP.State(valid_types=str, default="x")
        num = UP.State(valid_types=(int, float), default=1.0)
        box = UP.DictionaryState(valid_types=(int,))

    class Sub(Base):
        extra = UP.State(default=3)

    def linked(ref) -> bool:
        return cells[ref].of is not None

    with UP.EnvironmentContext() as env:
        actors = []
        cells: dict = {}
        for i in range(ACTORS):
            cls = Sub if c["sub"] and i == 1 else Base
            v = float(c["init"][i])
            actors.append(cls(name=f"a{i}", box={}, **{s: v + k for k, s in enumerate(STATES)}))
            for k, s in enumerate(STATES):
                cells[(i, s)] = Cell(v + k)
        tasks = [UP.Task() for _ in range(TASKS)]
        movers = [UP.Task() for _ in range(ACTORS)]
        # every value a state took at each moment something happened
        seen: dict = {ref: [] for ref in cells}
        need: dict = {ref: [] for ref in cells}
        checked = 0

        def value(ref, now):
            while cells[ref].of is not None:
                ref = cells[ref].of[:2]
            return cells[ref].own(now)

        def snapshot():
            for ref in cells:
                seen[ref].append((env.now, value(ref, env.now)))

        def depth(ref):
            n = 0
            while cells[ref].of is not None:
                ref, n = cells[ref].of[:2], n + 1
            return n

        def same(got, ref, what):
            nonlocal checked
            want = value(ref, env.now)
            if not isinstance(got, int | float) or not close(got, want, 1e-9, 1e-7):
                of = cells[ref].of
                raise Violation(
                    f"{what} at {env.now}: {ref} is {got!r}, should be {want!r}"
                    + (f" as the mimicked {of[:2]}" if of else "")
                )
            if linked(ref):
                checked += 1
                ctx.label("read-mimic")
                if depth(ref) > 1:
                    ctx.label("chain")

        def stop(ref):
            cell = cells[ref]
            cell.v = value(ref, env.now)
            cell.t = env.now
            cell.of = None

        def do(o):
            k, now = o["op"], env.now
            ref = (o.get("a"), o.get("s"))
            if k == "mimic":
                target = (o["b"], o["m"])
                kw = dict(
                    self_state=o["s"],
                    mimic_state=o["m"],
                    mimic_actor=actors[o["b"]],
                    task=tasks[o["t"]],
                )
                if linked(ref):
                    expect_raises(
                        "mimicking with a state that already mimics",
                        UP.UpstageError,
                        actors[o["a"]].activate_mimic_state,
                        **kw,
                    )
                    ctx.label("refused-second")
                    return
                walk, loop = target, False
                while True:
                    if walk == ref:
                        loop = True
                        break
                    if cells[walk].of is None:
                        break
                    walk = cells[walk].of[:2]
                if loop or cells[ref].rate is not None:
                    return
                actors[o["a"]].activate_mimic_state(**kw)
                cells[ref].of = (*target, o["t"])
                if cells[target].rate is not None:
                    ctx.label("mimic-active")
            elif k in ("set", "add"):
                if linked(ref):
                    return
                v = float(o["v"])
                if k == "add":
                    v = getattr(actors[o["a"]], o["s"]) + v
                setattr(actors[o["a"]], o["s"], v)
                cells[ref].v, cells[ref].t = v, now
                for other, cell in cells.items():
                    if cell.of is not None and cell.of[:2] == ref and other[1] in RECORDED:
                        need[other].append((now, v))
                        ctx.label("set-while-mimicked")
            elif k == "read":
                same(getattr(actors[o["a"]], o["s"]), ref, "read")
            elif k == "values":
                vals = actors[o["a"]].state_values
                for s in STATES:
                    same(vals[s], (o["a"], s), "state_values")
            elif k == "unmimic":
                f = actors[o["a"]].deactivate_mimic_state
                kw = dict(self_state=o["s"], task=tasks[o["t"]])
                if not linked(ref) or cells[ref].of[2] != o["t"]:
                    expect_raises("ending a mimicry of another task", UP.UpstageError, f, **kw)
                    ctx.label("refused-foreign")
                    return
                f(**kw)
                stop(ref)
                ctx.label("ended")
            elif k == "unmimic_own":
                live = [r for r in cells if linked(r)]
                if not live:
                    return
                ref = live[o["n"] % len(live)]
                actors[ref[0]].deactivate_mimic_state(self_state=ref[1], task=tasks[cells[ref].of[2]])
                stop(ref)
                ctx.label("ended")
            elif k == "unmimic_all":
                actors[o["a"]].deactivate_all_mimic_states(task=tasks[o["t"]])
                mine = [r for r in cells if r[0] == o["a"] and linked(r) and cells[r].of[2] == o["t"]]
                # all end at the same instant, with the values of that instant
                vals = [value(r, now) for r in mine]
                for r, v in zip(mine, vals):
                    stop(r)
                    cells[r].v = v
                if mine:
                    ctx.label("ended-all")
                    if any(r[0] == o["a"] and linked(r) for r in cells):
                        ctx.label("ended-some")
            elif k == "act":
                if linked(ref) or cells[ref].rate is not None:
                    return
                actors[o["a"]].activate_linear_state(state=o["s"], rate=float(o["rate"]), task=movers[o["a"]])
                cells[ref].t, cells[ref].rate = now, float(o["rate"])
            elif k == "deact":
                if cells[ref].rate is None:
                    return
                actors[o["a"]].deactivate_state(state=o["s"], task=movers[o["a"]])
                cells[ref].v, cells[ref].t, cells[ref].rate = cells[ref].own(now), now, None
            elif k == "bad":
                f = actors[o["a"]].activate_mimic_state
                b = actors[o["b"]]
                for mine, theirs in (("num", "txt"), ("txt", "p"), ("p", "box"), ("box", "p")):
                    if mine == "p" and linked((o["a"], "p")):
                        continue
                    expect_raises(
                        f"mimicking {theirs} with {mine}",
                        UP.SimulationError,
                        f,
                        self_state=mine,
                        mimic_state=theirs,
                        mimic_actor=b,
                        task=tasks[o["t"]],
                    )
                if any(x.txt != "x" or x.num != 1.0 or dict(x.box) for x in actors):
                    raise Violation("a refused mimicry changed a state")

        def driver():
            for dt, o in c["ops"]:
                if dt > 0:
                    yield env.timeout(dt)
                snapshot()
                do(o)
                snapshot()
            yield env.timeout(1.5)
            snapshot()
            for ref in cells:
                same(getattr(actors[ref[0]], ref[1]), ref, "final read")
            for ref in cells:
                if linked(ref):
                    actors[ref[0]].deactivate_mimic_state(self_state=ref[1], task=tasks[cells[ref].of[2]])
                    stop(ref)
            snapshot()
            yield env.timeout(1.5)
            snapshot()
            for ref in cells:
                same(getattr(actors[ref[0]], ref[1]), ref, "read after everything ended")
                if cells[ref].rate is None and ref[1] in PLAIN:
                    setattr(actors[ref[0]], ref[1], cells[ref].v + 1)
                    cells[ref].v += 1
            snapshot()
            for ref in cells:
                same(getattr(actors[ref[0]], ref[1]), ref, "read after independent changes")

        env.process(driver())
        drain(env)
        for ref in cells:
            a, s = ref
            hist = actors[a]._state_histories.get(s, [])
            if s not in RECORDED:
                if hist:
                    raise Violation(f"non-recording {ref} has a history {hist}")
                continue
            ts = [t for t, _ in hist]
            if ts != sorted(ts):
                raise Violation(f"history of {ref} out of time order: {hist}")
            nums_ = [(t, v) for t, v in hist if isinstance(v, int | float)]
            for t, v in nums_:
                if t == 0.0 and v == float(c["init"][a]) + STATES.index(s):
                    continue
                if not any(t == t2 and close(v, v2, 1e-9, 1e-7) for t2, v2 in seen[ref]):
                    raise Violation(
                        f"history of {ref} holds {v} at {t}, the state never was that: {seen[ref]}"
                    )
            for t, v in need[ref]:
                if not any(t == t2 and close(v, v2, 1e-9, 1e-7) for t2, v2 in nums_):
                    raise Violation(f"history of mimicking {ref} misses the change to {v} at {t}")
        ctx.nontrivial(checked > 0)


# ------------------------------------------------------------------------ tasks


def task_case() -> st.SearchStrategy:
    seg = st.fixed_dictionaries(
        {
            "states": st.lists(st.sampled_from(["u", "w"]), min_size=1, max_size=2, unique=True),
            "wait": times(5).map(lambda x: x + 0.5),
            "how": st.sampled_from(["all", "each"]),
        }
    )
    user = st.fixed_dictionaries(
        {
            "gap": times(3),
            "segs": st.lists(seg, min_size=1, max_size=3),
            "kill": st.one_of(st.none(), times(10).map(lambda x: x + 0.125)),
            "action": st.sampled_from(["END", "RESTART", "IGNORE"]),
        }
    )
    return st.fixed_dictionaries({"users": st.lists(user, min_size=1, max_size=3), "rate": nums(-5, 5)})


def task_check(c: dict, ctx: Ctx) -> None:
    """Riders mimic the car from tasks on the same actor; ends and interrupts are per task."""

    class Car(UP.Actor):
        pos = UP.LinearChangingState(default=None, recording=True)

    # one pair of states per task, so that several tasks of one actor mimic side by side
    names = [f"{s}{i}" for i in range(len(c["users"])) for s in "uw"]
    Rider = type("Rider", (UP.Actor,), {n: UP.State(default=-1.0) for n in names})

    with UP.EnvironmentContext() as env:
        car = Car(name="car", pos=0.0)
        rider = Rider(name="rider")
        live: dict = {}  # state -> user
        last = {n: -1.0 for n in names}
        car.activate_linear_state(state="pos", rate=float(c["rate"]), task=UP.Task())

        def compare(what):
            now_pos = env.now * float(c["rate"])
            for n in names:
                want = now_pos if n in live else last[n]
                got = getattr(rider, n)
                if not close(got, want, 1e-9, 1e-7):
                    raise Violation(
                        f"{what} at {env.now}: rider's {n} is {got}, "
                        f"{'mimicked' if n in live else 'kept'} value {want}"
                    )

        def ended(n):
            live.pop(n, None)
            last[n] = env.now * float(c["rate"])

        def make(i, u):
            class Ride(UP.Task):
                first = True

                def task(self, *, actor):
                    if self.first and u["gap"] > 0:
                        self.first = False
                        yield UP.Wait(float(u["gap"]))
                    for seg in u["segs"]:
                        for s in seg["states"]:
                            actor.activate_mimic_state(
                                self_state=f"{s}{i}",
                                mimic_state="pos",
                                mimic_actor=car,
                                task=self,
                            )
                            live[f"{s}{i}"] = i
                        yield UP.Wait(float(seg["wait"]))
                        compare("before ending")
                        if seg["how"] == "all":
                            actor.deactivate_all_mimic_states(task=self)
                        for s in seg["states"]:
                            if seg["how"] == "each":
                                actor.deactivate_mimic_state(self_state=f"{s}{i}", task=self)
                            ended(f"{s}{i}")
                        compare("after ending")

                def on_interrupt(self, *, actor, cause):
                    compare("in on_interrupt")
                    if u["action"] != "IGNORE":
                        mine = [n for n, who in live.items() if who == i]
                        for n in mine:
                            ended(n)
                        if mine:
                            ctx.label("interrupted-" + u["action"])
                            if live:
                                ctx.label("others-kept")
                    return getattr(self.INTERRUPT, u["action"])

            proc = Ride().run(actor=rider)
            if u["kill"] is not None:

                def killer():
                    yield env.timeout(u["kill"])
                    if proc.is_alive:
                        proc.interrupt(cause="stop")

                env.process(killer())

        for i, u in enumerate(c["users"]):
            make(i, u)

        def poller():
            for _ in range(25):
                yield env.timeout(0.71)
                compare("polled")
                if live:
                    ctx.nontrivial()

        env.process(poller())
        drain(env, until=40.0)
        compare("at the end")
        if live or rider._mimic_states:
            raise Violation(f"mimicry {rider._mimic_states} still going after its tasks ended")


PROP = Prop(
    id="C05",
    rule=(
        "Random histories (up to 30 operations) of set/read/activate/mimic/end by several tasks over three actors of "
        "two classes and five states (plain, recording, with duplicates, linear), chains and refused calls included; and "
        "one to three tasks of one actor that mimic side by side and are interrupted. Non-trivial: a mimicking state "
        "was read (both parts)."
    ),
    parts=[
        Part("ops", case, check, quick=12000, thorough=200000),
        Part("tasks", task_case, task_check, quick=4000, thorough=60000),
    ],
    assumptions=[
        "a state that mimics is not assigned, and cycles of mimicry are not built (documented misuse)"
    ],
)
