"""C13: a task network runs exactly the queued tasks, then the defaults."""

from __future__ import annotations

from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st

LIMIT = 40
PLAIN = ["T0", "T1", "T2"]
DECIDE = ["D0", "D1"]
END = 200.0
ACTIONS = {
    "end": UP.InterruptStates.END,
    "ignore": UP.InterruptStates.IGNORE,
    "restart": UP.InterruptStates.RESTART,
}


def case() -> st.SearchStrategy:
    idx = st.integers(0, 5)
    qop = st.fixed_dictionaries(
        {
            "act": st.sampled_from(
                ["none", "none", "set", "set", "clear", "clear_set", "clear_set", "other"]
            ),
            "q": st.lists(idx, max_size=4),
            "n": st.integers(0, 2),
        }
    )
    plain = st.fixed_dictionaries(
        {
            "waits": st.lists(st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, 3.5]), max_size=3),
            "first": st.lists(qop, min_size=1, max_size=3),
            "last": st.lists(qop, min_size=1, max_size=3),
            "policy": st.sampled_from([["end"], ["end"], ["ignore"], ["restart", "end"], ["ignore", "end"]]),
        }
    )
    decide = st.fixed_dictionaries(
        {
            "skip": st.booleans(),
            "ops": st.lists(qop, min_size=1, max_size=4),
            "policy": st.sampled_from([["end"], ["end"], ["ignore"], ["restart", "end"]]),
        }
    )
    net = st.fixed_dictionaries(
        {
            "how": st.sampled_from(
                ["links"] * 6 + ["single_loop", "single_end", "ordered_end", "ordered_loop"]
            ),
            "order": st.lists(idx, min_size=1, max_size=4),
            "defaults": st.lists(st.one_of(st.none(), idx, idx, idx, idx), min_size=6, max_size=6),
            "start": st.one_of(st.none(), idx, idx, idx),
            "queue": st.lists(idx, max_size=4),
            "named": st.booleans(),
        }
    )
    outside = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["wait", "wait", "wait", "set", "clear", "int", "int", "look"]),
            "a": st.integers(0, 1),
            "n": st.integers(0, 2),
            "t": st.sampled_from([0.0, 0.5, 1.0, 2.0, 2.5]),
            "q": st.lists(idx, max_size=3),
        }
    )
    return st.fixed_dictionaries(
        {
            "plain": st.lists(plain, min_size=3, max_size=3),
            "decide": st.lists(decide, min_size=2, max_size=2),
            "actors": st.lists(st.lists(net, min_size=1, max_size=3), min_size=1, max_size=2),
            "outside": seqs(outside, 16),
        }
    )


class Stuck(Exception):
    pass


class Layout:
    """Which tasks a network has and what follows what, from the description alone."""

    def __init__(self, d: dict, name: str):
        self.name, self.d = name, d
        everything = PLAIN + DECIDE + ["END"]
        how = d["how"]
        self.default: dict[str, str | None] = {}
        self.classes: dict[str, str] = {}
        if how == "links":
            self.classes = {k: k for k in everything}
            for k, x in zip(everything, d["defaults"]):
                self.default[k] = None if x is None else everything[x]
            self.names = everything
            return
        order = [(PLAIN + DECIDE)[x % 5] for x in d["order"]]
        if all(x in DECIDE for x in order):
            order.append("T0")
        if how.startswith("single"):
            order = [x for x in order if x in PLAIN][:1]
        self.order = order
        # which task comes after which, by position
        keys = []
        for i, k in enumerate(order):
            n = order[:i].count(k)
            keys.append((k, n))
        self.keys = keys
        self.ends = how.endswith("end")
        self.names = sorted(set(order)) if len(set(order)) == len(order) else []


class Net:
    """The model of one running network."""

    def __init__(self, lay: Layout):
        self.lay = lay
        self.queue: list[str] = []
        self.current: str | None = None
        self.proc: Any = None


class Spec:
    """What the tasks do, shared by the model and the real thing."""

    def __init__(self, c: dict, env: SIM.Environment, log: list):
        self.c, self.env, self.log = c, env, log
        self.visits: dict[tuple, int] = {}
        self.starts: dict[tuple, int] = {}

    def note(self, a: int, n: int, what: str, *more: Any) -> None:
        self.log.append([self.env.now, a, n, what, *more])

    def visit(self, a: int, n: int, kind: str) -> int:
        k = (a, n, kind)
        self.visits[k] = self.visits.get(k, 0) + 1
        self.starts[a, n] = self.starts.get((a, n), 0) + 1
        return self.visits[k] - 1

    def over(self, a: int, n: int) -> bool:
        return self.starts.get((a, n), 0) > LIMIT

    def queue_op(self, api: Any, a: int, n: int, o: dict, names: Any) -> None:
        target = n
        if o["act"] == "other":
            target = o["n"] % len(self.c["actors"][a])
        q = [names(a, target)[x % len(names(a, target))] for x in o["q"]] if names(a, target) else []
        act = {"other": "set"}.get(o["act"], o["act"])
        if act in ("clear", "clear_set"):
            api.clear(a, target, target == n)
        if act in ("set", "clear_set") and q:
            ok = api.set(a, target, q, target == n)
            self.note(a, target, "queued" if ok else "queue refused", list(q))

    def body(self, api: Any, a: int, n: int, kind: str, names: Any) -> Generator:
        k = self.visit(a, n, kind)
        self.note(a, n, "start", kind, api.queues(a))
        if self.over(a, n):
            yield 1e6
        spec = self.c["plain"][int(kind[1])]
        self.queue_op(api, a, n, spec["first"][k % len(spec["first"])], names)
        for w in spec["waits"]:
            yield w
        self.queue_op(api, a, n, spec["last"][k % len(spec["last"])], names)
        self.note(a, n, "end", kind, api.queues(a))

    def decide(self, api: Any, a: int, n: int, kind: str, names: Any) -> None:
        k = self.visit(a, n, kind)
        self.note(a, n, "decide", kind, api.queues(a))
        spec = self.c["decide"][int(kind[1])]
        if self.over(a, n):
            api.clear(a, n, True)
            if names(a, n) and "T0" in names(a, n):
                api.set(a, n, ["T0"], True)
            return
        self.queue_op(api, a, n, spec["ops"][k % len(spec["ops"])], names)

    def policy(self, kind: str) -> list[str]:
        return self.c["plain" if kind[0] == "T" else "decide"][int(kind[1])]["policy"]


class Model:
    def __init__(self, c: dict, env: SIM.Environment, lays: list[list[Layout]], spec: Spec):
        self.c, self.env, self.lays, self.spec = c, env, lays, spec
        self.nets = [[Net(x) for x in row] for row in lays]

    # the interface the tasks use
    def set(self, a: int, n: int, q: list[str], own: bool) -> bool:
        net = self.nets[a][n]
        if net.queue:
            return False
        net.queue = list(q)
        return True

    def clear(self, a: int, n: int, own: bool) -> None:
        self.nets[a][n].queue = []

    def queues(self, a: int) -> list:
        return [list(x.queue) for x in self.nets[a]]

    def names(self, a: int, n: int) -> list[str]:
        return self.lays[a][n].names

    def start(self, a: int, n: int, init: str | None) -> None:
        self.env.process(self.loop(a, n, init))

    def running(self, a: int, n: int) -> Any:
        net = self.nets[a][n]
        return None if net.proc is None else (net.current, net.proc)

    def loop(self, a: int, n: int, init: str | None) -> Generator:
        net = self.nets[a][n]
        lay = net.lay
        at = None  # position, for the networks made from an ordered list
        if lay.d["how"] == "links":
            name = net.queue[0] if net.queue else init
            if name is None:
                raise Stuck
        else:
            at = 0
            name = lay.order[0]
            if net.queue:
                name = net.queue[0]
                at = lay.order.index(name)
        while True:
            if net.queue:
                assert net.queue[0] == name
                net.queue.pop(0)
            net.current = name
            skip = name[0] == "D" and self.c["decide"][int(name[1])]["skip"]
            if skip:
                self.spec.decide(self, a, n, name, self.names)
            else:
                net.proc = self.env.process(self.task(a, n, name))
                yield net.proc
            if net.queue:
                name = net.queue[0]
                if at is not None:
                    at = lay.order.index(name)
            elif at is None:
                name = lay.default[name]
                if name is None:
                    raise Stuck
            else:
                at += 1
                if at == len(lay.order):
                    if lay.ends:
                        name = "END"
                    else:
                        at = 0
                        name = lay.order[0]
                else:
                    name = lay.order[at]

    def task(self, a: int, n: int, kind: str) -> Generator:
        env = self.env
        if kind == "END":
            try:
                yield env.event()
            except SIM.Interrupt:
                raise Stuck from None
        if kind[0] == "D":
            while True:
                self.spec.decide(self, a, n, kind, self.names)
                hold = env.timeout(0.0)
                again = yield from self.hold(a, n, kind, hold)
                if not again:
                    return
        while True:
            gen = self.spec.body(self, a, n, kind, self.names)
            again = False
            for w in gen:
                again = yield from self.hold(a, n, kind, env.timeout(w))
                if again is not None:
                    break
            if not again:
                return

    def hold(self, a: int, n: int, kind: str, ev: Any) -> Generator:
        """None: it went through, True: restart, False: end."""
        while True:
            try:
                yield ev
                return None
            except SIM.Interrupt as i:
                p = self.spec.policy(kind)
                action = p[i.cause % len(p)]
                self.spec.note(a, n, "interrupted", kind, action)
                if action != "ignore":
                    return action == "restart"


class Real:
    def __init__(self, c: dict, env: SIM.Environment, lays: list[list[Layout]], spec: Spec):
        self.c, self.env, self.lays, self.spec = c, env, lays, spec
        self.where: dict[tuple, tuple[int, int]] = {}
        self.plans: dict[tuple, list[str]] = {}
        me = self

        class Doer(UP.Actor):
            pass

        def interrupted(task: Any, actor: Any, kind: str, cause: Any) -> Any:
            p = spec.policy(kind)
            action = p[cause % len(p)]
            spec.note(*me.at(actor, task), "interrupted", kind, action)
            return ACTIONS[action]

        classes: dict[str, type] = {}
        for kind in PLAIN:

            def task(self, *, actor, kind=kind):
                me.now_in = self
                a, n = me.at(actor, self)
                for w in spec.body(Handle(me, self, actor), a, n, kind, me.names):
                    yield UP.Wait(w)

            def on_interrupt(self, *, actor, cause, kind=kind):
                return interrupted(self, actor, kind, cause)

            classes[kind] = type(kind, (UP.Task,), {"task": task, "on_interrupt": on_interrupt})
        for kind in DECIDE:

            def make_decision(self, *, actor, kind=kind):
                a, n = me.at(actor, self)
                spec.decide(Handle(me, self, actor), a, n, kind, me.names)

            def on_interrupt(self, *, actor, cause, kind=kind):
                return interrupted(self, actor, kind, cause)

            classes[kind] = type(
                kind,
                (UP.DecisionTask,),
                {
                    "make_decision": make_decision,
                    "DO_NOT_HOLD": c["decide"][int(kind[1])]["skip"],
                    "on_interrupt": on_interrupt,
                },
            )
        classes["END"] = type("END", (UP.TerminalTask,), {})
        self.actors = []
        self.netnames: list[list[str]] = []
        for a, row in enumerate(lays):
            actor = Doer(name=f"doer{a}")
            self.actors.append(actor)
            self.netnames.append([])
            for n, lay in enumerate(row):
                f = self.factory(lay, classes)
                name = actor.suggest_network_name(f) if lay.d["named"] else f"{lay.name}.{n}"
                if actor.has_task_network(name):
                    raise Violation(f"suggested network name {name} is taken")
                actor.add_task_network(f.make_network(other_name=name))
                self.netnames[a].append(name)
                self.where[actor.name, name] = (a, n)

    def factory(self, lay: Layout, classes: dict[str, type]) -> UP.TaskNetworkFactory:
        F = UP.TaskNetworkFactory
        how = lay.d["how"]
        if how == "links":
            links = {
                k: UP.TaskLinks(default=lay.default[k], allowed=[x for x in lay.default.values() if x])
                for k in lay.names
            }
            return F(lay.name, dict(classes), links)
        if how == "single_loop":
            return F.from_single_looping(lay.name, classes[lay.order[0]])
        if how == "single_end":
            return F.from_single_terminating(lay.name, classes[lay.order[0]])
        order = [classes[k] for k in lay.order]
        return (
            F.from_ordered_terminating(lay.name, order) if lay.ends else F.from_ordered_loop(lay.name, order)
        )

    def at(self, actor: Any, task: Any) -> tuple[int, int]:
        return self.where[actor.name, task._network_name]

    def names(self, a: int, n: int) -> list[str]:
        return self.lays[a][n].names

    def shared(self, q: list[str]) -> list[str]:
        """One list for every use of the same plan: a caller may hand it to several networks."""
        return self.plans.setdefault(tuple(q), list(q))

    def set(self, a: int, n: int, q: list[str], own: bool) -> bool:
        try:
            self.actors[a].set_task_queue(self.netnames[a][n], self.shared(q))
            return True
        except UP.SimulationError:
            return False

    def clear(self, a: int, n: int, own: bool) -> None:
        self.actors[a].clear_task_queue(self.netnames[a][n])

    def queues(self, a: int) -> list:
        actor = self.actors[a]
        every = actor.get_all_task_queues()
        out = [list(every[x]) for x in self.netnames[a]]
        for x, q in zip(self.netnames[a], out):
            if actor.get_next_task(x) != (q[0] if q else None) or actor.get_task_queue(x) != q:
                raise Violation(f"the next task of {x} is {actor.get_next_task(x)}, its queue is {q}")
        return out

    def start(self, a: int, n: int, init: str | None) -> None:
        self.actors[a].start_network_loop(self.netnames[a][n], init_task_name=init)

    def running(self, a: int, n: int) -> Any:
        d = self.actors[a].get_running_task(self.netnames[a][n])
        every = self.actors[a].get_running_tasks()
        if (every.get(self.netnames[a][n]) is None) != (d is None):
            raise Violation("get_running_task and get_running_tasks disagree")
        return None if d is None else (d.name, d.process)


class Handle:
    """The queue methods as a task has them."""

    def __init__(self, real: Real, task: Any, actor: Any):
        self.real, self.task, self.actor = real, task, actor

    def set(self, a: int, n: int, q: list[str], own: bool) -> bool:
        if not own:
            return self.real.set(a, n, q, own)
        try:
            self.task.set_actor_task_queue(self.actor, self.real.shared(q))
            return True
        except UP.SimulationError:
            return False

    def clear(self, a: int, n: int, own: bool) -> None:
        if own:
            self.task.clear_actor_task_queue(self.actor)
        else:
            self.real.clear(a, n, own)

    def queues(self, a: int) -> list:
        out = self.real.queues(a)
        n = self.real.at(self.actor, self.task)[1]
        if list(self.task.get_actor_task_queue(self.actor)) != out[n]:
            raise Violation("a task sees another queue than its network's")
        if self.task.get_actor_next_task(self.actor) != (out[n][0] if out[n] else None):
            raise Violation("a task sees another next task than its network's")
        return out


def run(c: dict, plain: bool) -> list:
    log: list = []

    def go(env: SIM.Environment) -> None:
        lays = [[Layout(d, f"net{a}") for n, d in enumerate(row)] for a, row in enumerate(c["actors"])]
        spec = Spec(c, env, log)
        api = (Model if plain else Real)(c, env, lays, spec)
        for a, row in enumerate(lays):
            for n, lay in enumerate(row):
                q = [lay.names[x % len(lay.names)] for x in lay.d["queue"]] if lay.names else []
                if q:
                    api.set(a, n, q, False)
                init = lay.d["start"]
                if lay.d["how"] == "links":
                    first = None if init is None else lay.names[init % len(lay.names)]
                else:
                    first = lay.order[0]
                api.start(a, n, first)

        def outside() -> Generator:
            for j, o in enumerate(c["outside"]):
                a = o["a"] % len(lays)
                n = o["n"] % len(lays[a])
                names = lays[a][n].names
                q = [names[x % len(names)] for x in o["q"]] if names else []
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                elif o["op"] == "set" and q:
                    log.append([env.now, "set", a, n, q, api.set(a, n, q, False)])
                elif o["op"] == "clear":
                    api.clear(a, n, False)
                    log.append([env.now, "cleared", a, n])
                elif o["op"] == "int":
                    r = api.running(a, n)
                    if r is not None and r[1].is_alive:
                        log.append(
                            [
                                env.now,
                                "int",
                                a,
                                n,
                                "END" if r[0].upper().endswith(("END", "FINAL", "TERMINATING")) else r[0][:2],
                            ]
                        )
                        if plain:
                            r[1].interrupt(cause=j)
                        else:
                            api.actors[a].interrupt_network(api.netnames[a][n], cause=j)
                else:
                    r = api.running(a, n)
                    log.append([env.now, "look", api.queues(a), None if r is None else r[1].is_alive])

        env.process(outside())
        try:
            drain(env, END)
        finally:
            for want, q in getattr(api, "plans", {}).items():
                if list(want) != q:
                    raise Violation(f"the list given to set_task_queue was changed from {list(want)} to {q}")

    if plain:
        try:
            go(SIM.Environment())
        except Stuck:
            log.append(["stuck"])
    else:
        with UP.EnvironmentContext() as env:
            try:
                go(env)
            except UP.SimulationError:
                log.append(["stuck"])
    return log


def check(c: dict, ctx: Ctx) -> None:
    want = run(c, True)
    got = run(c, False)
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation(f"entry {i} of the run is {b!r}, should be {a!r}")
    if len(want) != len(got):
        raise Violation(
            f"{len(got)} entries in the run, should be {len(want)}; next is {(want + got)[min(len(want), len(got))]!r}"
        )
    for x in want:
        if len(x) > 3 and x[3] in ("decide", "interrupted", "queued", "queue refused"):
            ctx.label(str(x[3]))
        if x == ["stuck"]:
            ctx.label("nothing to do next" if len(want) > 1 else "stuck at once")
    for row in c["actors"]:
        if len(row) > 1:
            ctx.label("parallel")
        for d in row:
            ctx.label(d["how"])
    if sum(1 for x in want if len(x) > 3 and x[3] in ("start", "decide")) >= 3:
        ctx.nontrivial()


# ---------------------------------------------------------------------------
# which networks an actor has, and what it refuses to do with others
# ---------------------------------------------------------------------------

NAMES = ["a", "b", "a_1", "c"]


def catalogue() -> st.SearchStrategy:
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                [
                    "add",
                    "add",
                    "add",
                    "suggested",
                    "suggested",
                    "delete",
                    "set",
                    "set",
                    "clear",
                    "start",
                    "start",
                    "interrupt",
                    "interrupt",
                    "look",
                    "outcome",
                    "named",
                ]
            ),  # fmt: skip
            "a": st.integers(0, 1),
            "f": st.integers(0, 2),
            "name": st.integers(0, 3),
            "q": st.lists(st.integers(0, 1), min_size=1, max_size=3),
        }
    )
    return st.fixed_dictionaries({"ops": seqs(op, 24), "decide": st.booleans()})


def check_catalogue(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext() as env:
        started: list = []
        answer: list = [UP.InterruptStates.END]

        class Doer(UP.Actor):
            pass

        class T0(UP.Task):
            def task(self, *, actor):
                started.append([actor.name, self._network_name, type(self).__name__])
                yield UP.Event()

            def on_interrupt(self, *, actor, cause):
                started.append(cause)
                return answer[0]

        class T1(T0):
            pass

        kinds = {"T0": T0, "T1": T1}
        links = {k: UP.TaskLinks(default="T0", allowed=["T0", "T1"]) for k in kinds}
        factories = [UP.TaskNetworkFactory(n, kinds, links) for n in ("a", "b", "a_1")]
        actors = [Doer(name=f"doer{i}") for i in range(2)]
        # name -> [queue, what runs]
        model: list[dict[str, list]] = [{}, {}]
        done = 0

        def refused(what: str, kind: type, f: Any) -> None:
            nonlocal done
            done += 1
            try:
                f()
            except kind:
                ctx.label(f"refused: {what}")
                return
            raise Violation(f"{what} was not refused")

        for j, o in enumerate(c["ops"]):
            a, nets = actors[o["a"]], model[o["a"]]
            name = NAMES[o["name"]]
            fac = factories[o["f"]]
            q = [f"T{x}" for x in o["q"]]
            started.clear()
            if o["op"] == "add":
                net = fac.make_network(other_name=name)
                if name in nets:
                    refused(
                        "adding a second network of one name",
                        UP.SimulationError,
                        lambda: a.add_task_network(net),
                    )
                else:
                    a.add_task_network(net)
                    nets[name] = [[], None]
            elif o["op"] == "suggested":
                name = a.suggest_network_name(fac)
                if name in nets:
                    raise Violation(f"suggested network name {name} is taken")
                if fac.name not in nets and name != fac.name:
                    raise Violation(f"{name} is suggested for {fac.name}, which is free")
                a.add_task_network(fac.make_network(other_name=name))
                nets[name] = [[], None]
            elif o["op"] == "named":
                net = fac.make_network()
                if net.name != fac.name:
                    raise Violation(f"a network of {fac.name} is named {net.name}")
                if fac.name not in nets:
                    a.add_task_network(net)
                    nets[fac.name] = [[], None]
            elif o["op"] == "delete":
                if name in nets:
                    a.delete_task_network(name)
                    del nets[name]
                    done += 1
                else:
                    refused(
                        "deleting a network that is not there",
                        UP.SimulationError,
                        lambda: a.delete_task_network(name),
                    )
            elif name not in nets:
                if o["op"] == "interrupt":
                    refused(
                        "interrupting a network that is not there",
                        UP.SimulationError,
                        lambda: a.interrupt_network(name, cause=j),
                    )
                elif o["op"] == "look":
                    refused(
                        "asking for the task of a network that is not there",
                        UP.SimulationError,
                        lambda: a.get_running_task(name),
                    )
            elif o["op"] == "set":
                if nets[name][0]:
                    refused(
                        "setting a queue that is not empty",
                        UP.SimulationError,
                        lambda: a.set_task_queue(name, q),
                    )
                else:
                    a.set_task_queue(name, q)
                    nets[name][0] = list(q)
            elif o["op"] == "clear":
                a.clear_task_queue(name)
                nets[name][0] = []
            elif o["op"] == "start" and nets[name][1] is None:
                a.start_network_loop(name, init_task_name="T1")
                nets[name][1] = nets[name][0].pop(0) if nets[name][0] else "T1"
                env.run(until=env.now + 0.5)
                if started != [[a.name, name, nets[name][1]]]:
                    raise Violation(f"starting {name} of {a.name} with {nets[name][1]} started {started}")
                done += 1
            elif o["op"] == "interrupt" and nets[name][1] is None:
                refused(
                    "interrupting a network that does not run",
                    UP.UpstageError,
                    lambda: a.interrupt_network(name, cause=j),
                )
            elif o["op"] == "interrupt":
                a.interrupt_network(name, cause=j)
                env.run(until=env.now + 0.5)
                nets[name][1] = nets[name][0].pop(0) if nets[name][0] else "T0"
                if started != [j, [a.name, name, nets[name][1]]]:
                    raise Violation(
                        f"interrupting {name} of {a.name} led to {started}, {nets[name][1]} is next"
                    )
                done += 1

            # what each actor has
            for actor, mine in zip(actors, model):
                for x in [*NAMES, "a_2"]:
                    if actor.has_task_network(x) != (x in mine):
                        raise Violation(
                            f"has_task_network({x!r}) is {actor.has_task_network(x)}, it has {list(mine)}"
                        )
                if actor.get_all_task_queues() != {k: v[0] for k, v in mine.items()}:
                    raise Violation(f"the queues are {actor.get_all_task_queues()}, should be {mine}")
                runs = {k: v.name for k, v in actor.get_running_tasks().items()}
                if runs != {k: v[1] for k, v in mine.items() if v[1]}:
                    raise Violation(f"the running tasks are {runs}, should be {mine}")
                for k, v in mine.items():
                    d = actor.get_running_task(k)
                    if (d.name if d else None) != v[1]:
                        raise Violation(f"the running task of {k} is {d}, should be {v[1]}")
                    if d and not d.process.is_alive:
                        raise Violation(f"the process of {k}'s running task is over")
        ctx.nontrivial(done >= 3)


# ---------------------------------------------------------------------------
# an answer to an interrupt that is not one of the three
# ---------------------------------------------------------------------------


def answers() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["plain", "decide", "terminal"]),
            "how": st.sampled_from(["alone", "network"]),
            "answer": st.sampled_from(["end", "ignore", "restart", "none", "text", "number", "both"]),
            "good": st.lists(st.sampled_from(["ignore", "restart"]), max_size=3),
            "waits": st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=1, max_size=3),
        }
    )


WRONG: dict[str, Any] = {"none": None, "text": "END", "number": 7.5, "both": 3}


def check_answers(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext() as env:
        log: list = []
        plan = [*c["good"], c["answer"]]

        class Doer(UP.Actor):
            pass

        def on_interrupt(self: Any, *, actor: Any, cause: Any) -> Any:
            log.append(cause)
            return ACTIONS.get(plan[cause], WRONG.get(plan[cause]))

        def task(self: Any, *, actor: Any) -> Generator:
            log.append("start")
            for w in c["waits"]:
                yield UP.Wait(w)
            log.append("done")

        def make_decision(self: Any, *, actor: Any) -> None:
            log.append("start")

        def after(self: Any, *, actor: Any) -> Generator:
            log.append("next")
            yield UP.Event()

        base: Any = {"plain": UP.Task, "decide": UP.DecisionTask, "terminal": UP.TerminalTask}[c["kind"]]
        body: dict = {} if c["kind"] == "terminal" else {"on_interrupt": on_interrupt}
        if c["kind"] == "plain":
            body["task"] = task
        elif c["kind"] == "decide":
            body["make_decision"] = make_decision
        kind = type("X", (base,), body)
        actor = Doer(name="doer")
        if c["how"] == "network":
            links = {
                "X": UP.TaskLinks(default="Y", allowed=["Y"]),
                "Y": UP.TaskLinks(default=None, allowed=[]),
            }
            net = UP.TaskNetwork("net", {"X": kind, "Y": type("Y", (UP.Task,), {"task": after})}, links)
            actor.add_task_network(net)
            actor.start_network_loop("net", "X")
        else:
            x = kind()
            x._set_network_name("net")
            proc = x.run(actor=actor)

        def poke() -> Generator:
            for j in range(len(plan)):
                if c["how"] == "network":
                    actor.interrupt_network("net", cause=j)
                else:
                    proc.interrupt(cause=j)
                if c["kind"] == "plain":
                    yield env.timeout(0.0625)
            yield env.timeout(0.0)

        def begin() -> Generator:
            if c["kind"] != "decide":
                yield env.timeout(0.0625)
            yield from poke()

        # a decision only takes a moment: its interrupts come right away
        refused = False
        try:
            if c["kind"] == "decide":
                while not log:
                    env.step()
            env.process(begin())
            env.run(until=30)
        except UP.SimulationError:
            refused = True
    want: list = ["start"] if c["kind"] != "terminal" else []
    bad = c["answer"] in WRONG or c["kind"] == "terminal"
    if c["kind"] != "terminal":
        for j, x in enumerate(plan):
            want.append(j)
            if x == "restart":
                want.append("start")
        if not bad:
            if c["kind"] == "plain" and plan[-1] != "end":
                want.append("done")
            if c["how"] == "network":
                want.append("next")
    ctx.label(f"{c['kind']} {c['answer']}")
    if bad and not refused:
        raise Violation(f"the answer {c['answer']} of a {c['kind']} task to an interrupt was taken: {log}")
    if refused and not bad:
        raise Violation(f"the answers {plan} were refused")
    if log != want:
        raise Violation(f"with the answers {plan}, the {c['kind']} task went {log}, should be {want}")
    ctx.nontrivial()


PROP = Prop(
    "C13",
    rule="at least three tasks were started, three networks added, removed, refused or run, or a task interrupted",
    parts=[
        Part("networks", case, check, quick=6000, thorough=150000),
        Part("catalogue", catalogue, check_catalogue, quick=2500, thorough=60000),
        Part("answers", answers, check_answers, quick=1200, thorough=20000),
    ],
)
