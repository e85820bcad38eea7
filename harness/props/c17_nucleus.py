"""C17: setting a watched state interrupts exactly the networks that watch it."""

from __future__ import annotations

from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st

STATES = ["s0", "s1", "lin", "det", "s2"]
END = 40.0
LIMIT = 60
ACTIONS = {
    "end": UP.InterruptStates.END,
    "ignore": UP.InterruptStates.IGNORE,
    "restart": UP.InterruptStates.RESTART,
}
# Networks wake at different moments, so nothing depends on the order in which
# several watchers of one state are told.  The first one shares its moments with
# the outside process, which gives interrupts at the very end of a task.
OFFSETS = [0.0, 0.0101, 0.01303, 0.01709]


def value(s: str, n: int) -> Any:
    if s == "det":
        return n % 2 == 0
    if s == "s2":
        return [None, "same", 0][n % 3]
    return float(n // 2)


def case() -> st.SearchStrategy:
    who = {"a": st.integers(0, 1), "n": st.integers(0, 3)}
    state = st.sampled_from(STATES)
    op = st.one_of(
        *[st.fixed_dictionaries({"op": st.just("set"), "a": st.integers(0, 1), "s": state})] * 4,
        st.fixed_dictionaries(
            {"op": st.just("add"), **who, "ss": st.lists(state, max_size=3), "by": st.booleans()}
        ),
        st.fixed_dictionaries({"op": st.just("remove"), **who, "by": st.booleans()}),
    )
    t = st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.5, 2.0])
    net = st.fixed_dictionaries(
        {
            "start": st.sampled_from([True, True, True, False]),
            "watch": st.sampled_from(
                [None, [], *[["s0"]] * 3, ["s1", "s0"], ["lin"], ["lin", "det", "s2"], *[list(STATES)] * 4]
            ),
            "tasks": st.lists(
                st.fixed_dictionaries(
                    {
                        "steps": st.lists(
                            st.fixed_dictionaries({"t": t, "do": st.one_of(st.none(), op)}),
                            min_size=1,
                            max_size=3,
                        ),
                        "policy": st.lists(
                            st.sampled_from(["end", "ignore", "restart"]), min_size=1, max_size=3
                        ),
                    }
                ),
                min_size=1,
                max_size=2,
            ),
        }
    )
    actor = st.fixed_dictionaries(
        {"nucleus": st.sampled_from([True, True, True, False]), "nets": st.lists(net, min_size=1, max_size=4)}
    )
    outside = st.one_of(
        op,
        st.fixed_dictionaries({"op": st.just("set"), "a": st.integers(0, 1), "s": state}),
        st.fixed_dictionaries({"op": st.just("wait"), "t": t}),
        st.fixed_dictionaries({"op": st.just("wait"), "t": t}),
        st.fixed_dictionaries({"op": st.just("start"), **who}),
        st.just({"op": "read"}),
        st.fixed_dictionaries({"op": st.just("bad"), **who}),
    )
    return st.fixed_dictionaries(
        {"actors": st.lists(actor, min_size=1, max_size=2), "outside": seqs(outside, 24, 2)}
    )


class Spec:
    def __init__(self, c: dict, env: SIM.Environment):
        self.c, self.env = c, env
        self.logs: dict[str, list] = {}
        self.counts = iter(range(100_000))
        self.watch: dict[tuple, set] = {}
        self.started: set[tuple] = set()
        self.setcount: dict[str, int] = {}
        self.begun = 0

    def note(self, who: str, *what: Any) -> None:
        self.logs.setdefault(who, []).append([self.env.now, *what])

    def act(self, api: Any, me: tuple | None, o: dict) -> None:
        who = "outside" if me is None else f"{me[0]}.{me[1]}"
        actors = self.c["actors"]
        a = o["a"] % len(actors)
        if o["op"] == "set":
            if me is not None and me[0] == a and me in self.watch.get((a, o["s"]), ()):
                return  # a task cannot interrupt itself
            n = self.setcount[who] = self.setcount.get(who, -1) + 1
            v = value(o["s"], n)
            self.note(who, "set", a, o["s"], v)
            api.set(a, o["s"], v)
            return
        if not actors[a]["nucleus"]:
            return
        n = o["n"] % len(actors[a]["nets"])
        if o["op"] == "add":
            for s in o["ss"]:
                self.watch.setdefault((a, s), set()).add((a, n))
            api.add(a, n, o["ss"], o["by"])
        else:
            for s in STATES:
                self.watch.get((a, s), set()).discard((a, n))
            api.remove(a, n, o["by"])
        self.note(who, o["op"], a, n)

    def body(self, api: Any, me: tuple, k: int) -> Generator:
        who = f"{me[0]}.{me[1]}"
        task = self.c["actors"][me[0]]["nets"][me[1]]["tasks"][k]
        self.begun += 1
        self.note(who, "start", k)
        if len(self.logs[who]) > LIMIT or self.begun > 400:
            yield 1e6
        for i, s in enumerate(task["steps"]):
            yield s["t"] + OFFSETS[me[1]] + (0.25 if i == 0 else 0.0)
            if s["do"] is not None:
                self.act(api, me, s["do"])
        self.note(who, "end", k)

    def policy(self, me: tuple, k: int, cause: Any) -> str:
        who = f"{me[0]}.{me[1]}"
        p = self.c["actors"][me[0]]["nets"][me[1]]["tasks"][k]["policy"]
        self.note(who, "interrupted", k, cause)
        if len(self.logs[who]) > 2 * LIMIT:
            return "ignore"
        return p[len(self.logs[who]) % len(p)]


class Model:
    def __init__(self, c: dict, env: SIM.Environment, spec: Spec):
        self.c, self.env, self.spec = c, env, spec
        self.procs: dict[tuple, SIM.Process] = {}

    def set(self, a: int, s: str, v: Any) -> None:
        for me in sorted(self.spec.watch.get((a, s), ())):
            p = self.procs.get(me)
            if p is not None and p.is_alive:
                p.interrupt(cause=[s, v])

    def add(self, *args: Any) -> None:
        pass

    remove = add

    def start(self, a: int, n: int) -> None:
        self.env.process(self._loop((a, n)))

    def _loop(self, me: tuple) -> Generator:
        k = 0
        while True:
            self.procs[me] = self.env.process(self._task(me, k))
            yield self.procs[me]
            k = (k + 1) % len(self.c["actors"][me[0]]["nets"][me[1]]["tasks"])

    def _task(self, me: tuple, k: int) -> Generator:
        gen = self.spec.body(self, me, k)
        while True:
            try:
                t = next(gen)
            except StopIteration:
                return
            ev = self.env.timeout(t)
            while True:
                try:
                    yield ev
                    break
                except SIM.Interrupt as i:
                    p = self.spec.policy(me, k, i.cause)
                    if p == "ignore":
                        continue
                    if p == "end":
                        return
                    gen = self.spec.body(self, me, k)
                    break


class Watched(UP.Actor):
    s0 = UP.State(default=0.0, recording=True)
    s1 = UP.State(default=0.0)
    lin = UP.LinearChangingState(default=0.0, recording=True)
    det = UP.DetectabilityState(default=True, recording=True)
    s2 = UP.State(default="x", allow_none_default=True, recording=True, record_duplicates=True)


class Real:
    def __init__(self, c: dict, env: SIM.Environment, spec: Spec):
        self.c, self.env, self.spec = c, env, spec
        self.actors = [Watched(name=f"w{a}") for a in range(len(c["actors"]))]
        self.sets: list[tuple] = []
        self.nuclei: list[Any] = []
        me_api = self
        for a, d in enumerate(c["actors"]):
            self.nuclei.append(UP.TaskNetworkNucleus(actor=self.actors[a]) if d["nucleus"] else None)
            for n, net in enumerate(d["nets"]):
                names = [f"T{k}" for k in range(len(net["tasks"]))]
                classes, links = {}, {}
                for k, name in enumerate(names):

                    def task(self, *, actor, me=(a, n), k=k):
                        for t in spec.body(me_api, me, k):
                            yield UP.Wait(t)

                    def on_interrupt(self, *, actor, cause, me=(a, n), k=k):
                        if not isinstance(cause, UP.NucleusInterrupt):
                            raise Violation(f"interrupted by {cause!r}")
                        return ACTIONS[spec.policy(me, k, [cause.state_name, cause.value])]

                    classes[name] = type(name, (UP.Task,), {"task": task, "on_interrupt": on_interrupt})
                    links[name] = UP.TaskLinks(default=names[(k + 1) % len(names)], allowed=names)
                # the networks of the actors have the same names
                net_obj = UP.TaskNetworkFactory(f"net{n}", classes, links).make_network()
                self.actors[a].add_task_network(net_obj)

    def name(self, a: int, n: int, by: bool) -> Any:
        return self.actors[a]._task_networks[f"net{n}"] if by else f"net{n}"

    def set(self, a: int, s: str, v: Any) -> None:
        self.sets.append((a, s, self.env.now, v))
        setattr(self.actors[a], s, v)

    def add(self, a: int, n: int, ss: list, by: bool) -> None:
        self.actors[a].get_nucleus().add_network(self.name(a, n, by), list(ss))

    def remove(self, a: int, n: int, by: bool) -> None:
        self.actors[a].get_nucleus().remove_network(self.name(a, n, by))

    def start(self, a: int, n: int) -> None:
        self.actors[a].start_network_loop(f"net{n}", init_task_name="T0")


def run(c: dict, plain: bool) -> dict[str, list]:
    def go(env: SIM.Environment) -> dict[str, list]:
        spec = Spec(c, env)
        api = (Model if plain else Real)(c, env, spec)
        for a, d in enumerate(c["actors"]):
            for n, net in enumerate(d["nets"]):
                if d["nucleus"] and net["watch"] is not None:
                    spec.act(api, None, {"op": "add", "a": a, "n": n, "ss": net["watch"], "by": True})
                if net["start"]:
                    spec.started.add((a, n))
                    api.start(a, n)

        def outside() -> Generator:
            # tasks wait 0.25 before their first step
            for o in c["outside"]:
                if o["op"] == "wait":
                    yield env.timeout(o["t"] + (0.25 if o["t"] in (0.0, 1.0) else 0.0))
                elif o["op"] == "start":
                    a = o["a"] % len(c["actors"])
                    n = o["n"] % len(c["actors"][a]["nets"])
                    if (a, n) not in spec.started:
                        spec.started.add((a, n))
                        api.start(a, n)
                elif o["op"] == "read":
                    if not plain:
                        for x in api.actors:
                            x.state_values
                elif o["op"] == "bad":
                    if not plain:
                        bad(api, o)
                else:
                    spec.act(api, None, o)

        env.process(outside())
        drain(env, END)
        if not plain:
            history(api, c)
        return spec.logs

    if plain:
        return go(SIM.Environment())
    with UP.EnvironmentContext() as env:
        return go(env)


def refused(what: str, fn: Any) -> None:
    try:
        fn()
    except (UP.UpstageError, UP.SimulationError):
        return
    raise Violation(f"{what} was accepted")


def bad(api: Real, o: dict) -> None:
    """Calls that are refused, without effect."""
    a = o["a"] % len(api.actors)
    if api.nuclei[a] is None:
        refused("get_nucleus without one", api.actors[a].get_nucleus)
        return
    if api.actors[a].get_nucleus() is not api.nuclei[a]:
        raise Violation("get_nucleus gives another object")
    refused("a second nucleus", lambda: UP.TaskNetworkNucleus(actor=api.actors[a]))
    refused("watching with a network that is not there", lambda: api.nuclei[a].add_network("none", ["s0"]))
    refused("removing a network that is not there", lambda: api.nuclei[a].remove_network("none"))


def history(api: Real, c: dict) -> None:
    """Values and histories are those of actors that nothing watches."""
    init = {"s0": 0.0, "s1": 0.0, "lin": 0.0, "det": True, "s2": "x"}
    for a, x in enumerate(api.actors):
        for s in STATES:
            want = [(0.0, init[s])]
            for b, s2, t, v in api.sets:
                if (b, s2) == (a, s):
                    want.append((t, v))
            if getattr(x, s) != want[-1][1]:
                raise Violation(f"{s} of actor {a} is {getattr(x, s)!r}, was set to {want[-1][1]!r}")
            if s == "s1":
                continue
            if s != "s2":
                thin = want[:1]
                for w in want[1:]:
                    if w != thin[-1]:
                        thin.append(w)
                want = thin
            got = list(x._state_histories[s])
            if s == "lin":
                got = [g for i, g in enumerate(got) if i == 0 or g != got[i - 1]]
            if got != want:
                raise Violation(f"history of {s} of actor {a} is {got}, should be {want}")


def check(c: dict, ctx: Ctx) -> None:
    want = run(c, True)
    got = run(c, False)
    for who in sorted(set(want) | set(got)):
        w, g = want.get(who, []), got.get(who, [])
        for i, (x, y) in enumerate(zip(w, g)):
            if x != y:
                raise Violation(f"{who}, entry {i}: {y!r}, should be {x!r}")
        if len(w) != len(g):
            raise Violation(
                f"{who} has {len(g)} entries, should have {len(w)}: next is {(w + g)[min(len(w), len(g))]!r}"
            )
    hits = [x for who, w in want.items() for x in w if x[1] == "interrupted"]
    if hits:
        ctx.nontrivial()
        ctx.label("interrupted")
    seen: dict = {}
    for who, w in want.items():
        for x in w:
            if x[1] == "interrupted":
                seen.setdefault((who[0], x[0], str(x[3])), set()).add(who)
            if x[1] in ("add", "remove"):
                ctx.label(x[1])
    if any(len(v) > 1 for v in seen.values()):
        ctx.label("several watchers")


PROP = Prop(
    "C17",
    rule="at least one network was interrupted by a state change",
    parts=[Part("watching", case, check, quick=9000, thorough=150000)],
)
