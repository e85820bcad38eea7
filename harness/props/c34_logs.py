"""C34: the logs hold exactly what was logged, when it was logged, and change nothing."""

from __future__ import annotations

import copy
import re
from math import ceil
from typing import Any, Generator

from upstage_des.type_help import TASK_GEN

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, seqs, st

KEYS = ["K0q", "K1q", "K2q"]
TASKS = ["TaskAa", "TaskBb", "TaskCc"]


# ---------------------------------------------------------------------------
# actors
# ---------------------------------------------------------------------------


def step() -> st.SearchStrategy:
    key = st.sampled_from(KEYS)
    return st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("log"), "thing": st.sampled_from(["text", "text", "dict", "int", "empty"])}
        ),
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(["set", "set", "clear", "take", "bulk", "unbulk"]),
                "k": key,
                "over": st.booleans(),
                "caller": st.sampled_from([None, None, "someone", "task"]),
            }
        ),
    )


def case() -> st.SearchStrategy:
    wait = st.fixed_dictionaries({"op": st.just("wait"), "t": st.sampled_from([0.25, 0.5, 1.0, 3.0])})
    actor = st.fixed_dictionaries(
        {
            "log": st.sampled_from([True, True, None, False]),
            "time": st.sampled_from([None, None, True, False]),
            "sort": st.booleans(),
        }
    )
    outside = st.one_of(
        st.tuples(st.integers(0, 2), step()).map(lambda p: {"a": p[0], **p[1]}),
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(["interrupt", "interrupt", "rehearse", "clone", "queue"]),
                "a": st.integers(0, 2),
                "n": st.lists(st.integers(0, 2), min_size=1, max_size=3),
            }
        ),
        wait,
        wait,
    )
    return st.fixed_dictionaries(
        {
            "stage": st.sampled_from([None, None, True, False]),
            "unit": st.sampled_from([None, "min", "hr", "s"]),
            "t0": st.sampled_from([0, 0, 100.5]),
            "actors": st.lists(actor, min_size=1, max_size=3),
            "programs": st.lists(
                st.lists(st.one_of(step(), step(), wait), max_size=4), min_size=3, max_size=3
            ),
            "queues": st.lists(st.lists(st.integers(0, 2), max_size=4), min_size=3, max_size=3),
            "last": st.booleans(),
            "direct": st.booleans(),
            "ops": seqs(outside, 20, 2),
        }
    )


class Sort(UP.Actor):
    """A kind of its own."""

    size = UP.State(default=1)


class Book:
    """What the logs have to hold."""

    def __init__(self) -> None:
        self.lines: dict[int, list[dict]] = {}
        self.shadow: list[dict] | None = None
        self.trace: list = []
        self.count = 0

    def of(self, actor: Any) -> list[dict]:
        if id(actor) in self.lines:
            return self.lines[id(actor)]
        if self.shadow is None:
            raise Violation(f"a task ran with an unknown actor {actor}")
        return self.shadow


def perform(book: Book, actor: Any, o: dict, task: Any = None) -> None:
    """One step, by a task or from the outside."""
    lines = book.of(actor)
    real = id(actor) in book.lines
    book.count += 1
    mark = f"<{book.count}>"

    def note(**kw: Any) -> dict:
        e = {"t": actor.env.now, "pretty": actor.pretty_now, **kw}
        lines.append(e)
        return e

    if o["op"] == "log":
        if o["thing"] == "text":
            thing: Any = f"says {mark}"
        elif o["thing"] == "dict":
            thing = {"says": mark}
        elif o["thing"] == "int":
            thing = 990000000 + book.count
        else:
            thing = ""
        note(exact=thing)
        r = actor.log(thing)
        if r is not None:
            raise Violation(f"log({thing!r}) gave {r!r}")
        return
    k, caller = o["k"], o["caller"]
    by_task = caller == "task" and task is not None
    if caller == "task":
        caller = None
    who = [type(task).__name__] if by_task else [caller] if caller else []
    kw = {} if by_task or caller is None else {"caller": caller}
    api: Any
    know = {n: v for n, v in actor._knowledge.items() if n in KEYS}
    try:
        if o["op"] == "set":
            e = note(words=[k, mark, *who], other=[x for x in KEYS if x != k])
            if not who:
                e["words"].append("perform")
            if k in know and not o["over"]:
                e["maybe"] = True
            if by_task:
                task.set_actor_knowledge(actor, k, mark, overwrite=o["over"])
            else:
                actor.set_knowledge(k, mark, overwrite=o["over"], **kw)
        elif o["op"] in ("clear", "take"):
            e = note(words=[k, *who], bare=True, other=[x for x in KEYS if x != k])
            if k not in know:
                e["maybe"] = True
            if o["op"] == "clear":
                task.clear_actor_knowledge(actor, k) if by_task else actor.clear_knowledge(k, **kw)
            elif by_task:
                task.get_and_clear_actor_knowledge(actor, k)
            else:
                actor.get_and_clear_knowledge(k, **kw)
        elif o["op"] == "bulk":
            values = {n: f"{mark}{n[1]}" for n in KEYS if n == k or n in know and o["over"]}
            for n, v in values.items():
                note(words=[n, v, *who], other=[x for x in KEYS if x != n], maybe=n in know and not o["over"])
            if by_task:
                task.set_actor_bulk_knowledge(actor, values, overwrite=o["over"])
            else:
                actor.set_bulk_knowledge(values, overwrite=o["over"], **kw)
        else:
            names = list(know) if o["over"] else [k]
            for n in names:
                note(words=[n, *who], bare=True, other=[x for x in KEYS if x != n], maybe=n not in know)
            api = actor.get_and_clear_bulk_knowledge if k == KEYS[0] else actor.clear_bulk_knowledge
            if by_task:
                task.clear_actor_bulk_knowledge(actor, names)
            else:
                api(names, **kw)
        res = "done"
    except UP.SimulationError:
        res = "refused"
    if real:
        book.trace.append([actor.env.now, actor.name, o["op"], k, res, dict(actor._knowledge)])


def run(c: dict, on: bool, ctx: Ctx | None) -> list:
    """Run the program; judge the logs (if on), and return everything else that happened."""
    book = Book()
    with UP.EnvironmentContext(initial_time=c["t0"]) as env:
        if c["stage"] is not None:
            UP.add_stage_variable("debug_log_time", c["stage"])
        if c["unit"]:
            UP.add_stage_variable("time_unit", c["unit"])

        def body(i: int, self: Any, actor: Any) -> TASK_GEN:
            if id(actor) in book.lines:
                book.trace.append([env.now, actor.name, "starts", TASKS[i]])
                book.lines[id(actor)].append({"t": env.now, "pretty": actor.pretty_now, "start": TASKS[i]})
            for o in c["programs"][i]:
                if o["op"] == "wait":
                    yield UP.Wait(o["t"])
                    if id(actor) in book.lines:
                        book.trace.append([env.now, actor.name, "waited"])
                else:
                    perform(book, actor, o, self)
            yield UP.Wait(2.0)

        def direct(actor: Any, who: str) -> bool:
            """A task is about to set its knowledge itself."""
            if not c["direct"]:
                return False
            book.of(actor).append(
                {
                    "t": actor.env.now,
                    "pretty": actor.pretty_now,
                    "words": [KEYS[0], "<0>", who],
                    "other": [KEYS[1], KEYS[2]],
                }
            )
            return True

        class TaskAa(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                if direct(actor, "TaskAa"):
                    actor.set_knowledge(KEYS[0], "<0>", overwrite=True)
                yield from body(0, self, actor)

        class TaskBb(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                if direct(actor, "TaskBb"):
                    actor.set_knowledge(KEYS[0], "<0>", overwrite=True)
                yield from body(1, self, actor)

        class TaskCc(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                yield from body(2, self, actor)

        class TheEnd(UP.TerminalTask):
            def log_message(self, *, actor: Any) -> str:
                book.of(actor).append({"t": actor.env.now, "pretty": actor.pretty_now, "exact": "it ends"})
                return "it ends"

        classes: dict[str, Any] = {"TaskAa": TaskAa, "TaskBb": TaskBb, "TaskCc": TaskCc}
        allowed = list(TASKS)
        if c["last"]:
            classes["TheEnd"] = TheEnd
            allowed.append("TheEnd")
        links = {t: UP.TaskLinks(default="TheEnd" if c["last"] else TASKS[0], allowed=allowed) for t in TASKS}
        if c["last"]:
            links["TheEnd"] = UP.TaskLinks(default=None, allowed=[])
        factory = UP.TaskNetworkFactory("net", classes, links)

        actors = []
        for i, a in enumerate(c["actors"]):
            kw: dict[str, Any] = {}
            if not on:
                kw["debug_log"] = False
            elif a["log"] is not None:
                kw["debug_log"] = a["log"]
            if a["time"] is not None:
                kw["debug_log_time"] = a["time"]
            act = (Sort if a.get("sort") else UP.Actor)(name=f"actor {i}", **kw)
            book.lines[id(act)] = []
            act.add_task_network(factory.make_network())
            if c["queues"][i]:
                act.set_task_queue("net", [TASKS[x] for x in c["queues"][i]])
            actors.append(act)
        for i, act in enumerate(actors):
            if c["queues"][i]:
                act.start_network_loop("net")
            else:
                act.start_network_loop("net", TASKS[i])

        def judge(act: Any, log: Any, lines: list[dict], a: dict, what: str) -> None:
            if on and a["log"] is not False:
                compare(log, lines, a["time"] if a["time"] is not None else c["stage"], what)
            elif log != []:
                raise Violation(f"{what}: debug log is off, but holds {log}")

        def inside() -> None:
            for a, act in zip(c["actors"], actors):
                if act.log() is not act.get_log() and act.log() != act.get_log():
                    raise Violation("log() and get_log() differ")
                judge(act, act.get_log(), book.lines[id(act)], a, f"{act.name} at {env.now}")

        def outside() -> Generator:
            for n, o in enumerate(c["ops"]):
                if o["op"] == "wait":
                    yield env.timeout(o["t"])
                    continue
                i = o["a"] % len(actors)
                act, a = actors[i], c["actors"][i]
                running, process = (getattr(act.get_running_tasks()["net"], x) for x in ("name", "process"))
                before = copy.deepcopy(act.get_log())
                lines = book.lines[id(act)]
                if o["op"] == "interrupt":
                    if running == "TheEnd" or not process.is_alive:
                        yield env.timeout(0.25)
                        continue
                    lines.append(
                        {"t": env.now, "pretty": act.pretty_now, "cause": f"cause{n}", "task": running}
                    )
                    book.trace.append([env.now, act.name, "interrupted", running])
                    act.interrupt_network("net", cause=f"cause{n}")
                    yield env.timeout(0.25)
                elif o["op"] in ("rehearse", "clone"):
                    book.shadow = [dict(x) for x in lines]
                    # what a rehearsal starts, it does not announce
                    try:
                        if o["op"] == "clone":
                            under = act.clone()
                        else:
                            under = act.rehearse_network("net", [TASKS[x] for x in o["n"]])
                    except UP.UpstageError as e:
                        raise Violation(f"{o['op']}: {e}") from e
                    judge(under, under.get_log(), book.shadow, a, f"{o['op']} of {act.name} at {env.now}")
                    if act.get_log() != before:
                        raise Violation(f"{o['op']} changed the log to {act.get_log()}")
                    under.log("only here")
                    if act.get_log() != before:
                        raise Violation("a clone's log is the actor's")
                    book.shadow = None
                    if ctx:
                        ctx.label(o["op"])
                elif o["op"] == "queue":
                    if running != "TheEnd" and not act.get_task_queue("net"):
                        act.set_task_queue("net", [TASKS[x] for x in o["n"]])
                else:
                    perform(book, act, o)
                inside()

        env.process(outside())
        drain(env, until=c["t0"] + 40)
        inside()
        for act in actors:
            book.trace.append([act.name, dict(act._knowledge), act.get_task_queue("net")])
        if ctx and on:
            n = sum(len(x.get_log()) for x in actors)
            ctx.nontrivial(
                sum("words" in e or "exact" in e for x in book.lines.values() for e in x) > 2 and n > 0
            )
            ctx.label(*(o["op"] for o in c["ops"]))
    return book.trace


def compare(log: Any, lines: list[dict], timed: bool | None, what: str) -> None:
    timed = True if timed is None else timed
    last = None
    rest = list(log)
    for t, text in rest:
        if last is not None and t < last:
            raise Violation(f"{what}: the log goes back in time: {log}")
        last = t

    def stamped(e: dict, text: Any) -> bool:
        return not timed or str(text).startswith(e["pretty"])

    # what was said and known, in order
    said = []
    for t, text in rest:
        bare = text
        if isinstance(text, str):
            if timed != text.startswith("[Day"):
                raise Violation(f"{what}: {'no' if timed else 'a'} time in {text!r}")
        s = str(bare)
        if (
            "says" in s
            or "99000" in s
            or "it ends" in s
            or any(k in s for k in KEYS)
            or s.endswith("] ")
            or s == ""
        ):
            said.append((t, text))
    want = [e for e in lines if "words" in e or "exact" in e]
    k = 0
    for t, text in said:
        while True:
            if k >= len(want):
                raise Violation(f"{what}: nobody logged {text!r} at {t}")
            e = want[k]
            k += 1
            if "exact" in e:
                full = f"{e['pretty']} {e['exact']}" if timed else e["exact"]
                ok = text == full and t == e["t"]
            else:
                ok = (
                    t == e["t"]
                    and stamped(e, text)
                    and all(w in str(text) for w in e["words"])
                    and not any(w in str(text) for w in e["other"])
                    and not (e.get("bare") and re.search(r"<\d", str(text)))
                )
            if ok:
                break
            if not e.get("maybe"):
                raise Violation(f"{what}: log has {(t, text)} where {e} was logged")
    for e in want[k:]:
        if not e.get("maybe"):
            raise Violation(f"{what}: {e} is not in the log {log[:12]}")
    # tasks that started, and what ended them
    for e in lines:
        word = e.get("start") or e.get("cause")
        if word and not any(t == e["t"] and word in str(x) and stamped(e, x) for t, x in rest):
            raise Violation(f"{what}: the log has no {word} at {e['t']}: {log[:12]}")


def check(c: dict, ctx: Ctx) -> None:
    one = run(c, True, ctx)
    two = run(c, False, None)
    if one != two:
        raise Violation(f"logging changes what happens: {one} without it {two}")


# ---------------------------------------------------------------------------
# communication managers
# ---------------------------------------------------------------------------


class Node(UP.Actor):
    mail = UP.CommunicationStore(modes="wire")


def comms_case() -> st.SearchStrategy:
    who = st.integers(0, 3)
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["send", "send", "degrade", "restore", "block", "unblock", "wait"]),
            "a": who,
            "b": who,
        }
    )
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["point", "routing"]),
            "log": st.sampled_from([True, True, True, False, None]),
            "send": st.sampled_from([0, 0.25, 1.0]),
            "rule": st.sampled_from([[1.0, 0.25], [0.5, 0.5], [2, 0.5], [0.25, 1.0]]),
            "global": st.booleans(),
            "extra": st.lists(st.tuples(who, who).map(list), max_size=3),
            "ops": seqs(op, 16, 2),
        }
    )


def check_comms(c: dict, ctx: Ctx) -> None:
    most, rate = c["rule"]
    with UP.EnvironmentContext() as env:
        nodes = [Node(name=f"n{i}") for i in range(4)]
        kw: dict[str, Any] = {} if c["log"] is None else {"debug_logging": c["log"]}
        kw |= {
            "name": "m",
            "mode": "wire",
            "send_time": c["send"],
            "retry_max_time": most,
            "retry_rate": rate,
        }
        joined: set[tuple[int, int]] = set()
        if c["kind"] == "point":
            mgr: Any = UP.PointToPointCommsManager(**kw)
        else:
            mgr = UP.RoutingTableCommsManager(global_ignore=c["global"], **kw)
            for u, v in [[0, 1], [1, 2], [2, 3], [3, 0], *c["extra"]]:
                if u != v:
                    mgr.connect_nodes(nodes[u], nodes[v])
                    joined.add((u, v))
        mgr.run()
        got: list = []
        sent: list = []
        conditions: list = [(-1.0, False, [])]

        def reader(i: int) -> Generator:
            while True:
                m = yield nodes[i].mail.get()
                got.append((env.now, i, m))

        for i in range(4):
            env.process(reader(i))

        def outside() -> Generator:
            for n, o in enumerate(c["ops"]):
                _, bad, cut = conditions[-1]
                if o["op"] == "wait":
                    yield env.timeout(1.0)
                elif o["op"] == "send":
                    if o["a"] != o["b"]:
                        m = UP.Message(nodes[o["a"]], UP.MessageContent(data={"n": n}), nodes[o["b"]])
                        sent.append((env.now, o["a"], o["b"], m))
                        mgr.make_put(m, nodes[o["a"]], nodes[o["b"]]).as_event()
                        yield env.timeout(0.5)
                else:
                    yield env.timeout(0.0625)
                    cut = list(cut)
                    if o["op"] in ("degrade", "restore"):
                        bad = mgr.comms_degraded = o["op"] == "degrade"
                    elif o["op"] == "block":
                        cut.append((o["a"], o["b"]))
                        mgr.blocked_links.append((nodes[o["a"]], nodes[o["b"]]))
                    elif cut:
                        x = cut.pop()
                        mgr.blocked_links.remove((nodes[x[0]], nodes[x[1]]))
                    conditions.append((env.now, bad, cut))
                    yield env.timeout(0.4375)

        env.process(outside())
        end = len(c["ops"]) * 1.0 + 12.03
        drain(env, until=end)
        log = mgr.debug_log
        if not c["log"]:
            if log != []:
                raise Violation(f"log is off, but holds {log}")
            ctx.label("off")
            return
        if [e["time"] for e in log] != sorted(e["time"] for e in log):
            raise Violation(f"the log goes back in time: {log}")

        def clear(t: float, a: int, b: int) -> bool:
            _, bad, cut = [x for x in conditions if x[0] <= t][-1]
            return not bad and (a, b) not in cut

        number = {id(x): i for i, x in enumerate(nodes)}
        for e in log:
            if e["message"].uid not in [m.uid for *_, m in sent]:
                raise Violation(f"entry about a message nobody sent: {e}")
        for t0, a, b, m in sent:
            mine = [e for e in log if e["message"].uid == m.uid]
            arrived = [t for t, i, x in got if x.uid == m.uid and i == b]
            where = f"message {a}->{b} of {t0}: entries {[(e['time'], e['event'], e['current'].name, e['destination'].name) for e in mine]}"
            if c["kind"] == "point":
                want = []
                t = t0
                for _ in range(ceil(most / rate)):
                    if clear(t, a, b):
                        break
                    want.append(t)
                    t += rate
                if clear(t, a, b):
                    want.append(t + c["send"])
                else:
                    want.append(t)
                if [e["time"] for e in mine] != [x for x in want if x <= end]:
                    raise Violation(f"{where}, should be at {want}")
                if any(e["current"] is not nodes[a] or e["destination"] is not nodes[b] for e in mine):
                    raise Violation(f"{where}: wrong ends")
                ctx.nontrivial(len(want) > 1)
                continue
            # where it was, one place after the other
            if not mine:
                raise Violation(f"{where}: no entries")
            walk = [a]
            for e in mine:
                x = number[id(e["current"])]
                if x != walk[-1]:
                    if (walk[-1], x) not in joined:
                        raise Violation(f"{where}: no link from {walk[-1]} to {x}")
                    walk.append(x)
            if arrived:
                if walk[-1] != b or not close(mine[-1]["time"], arrived[0]):
                    raise Violation(f"{where}, arrived at {arrived}")
                ctx.nontrivial(len(walk) > 2)
            elif walk[-1] == b and mine[-1]["destination"] is nodes[b] and mine[-1]["current"] is nodes[b]:
                raise Violation(f"{where}, never arrived")
            for e in mine[:-1]:
                x, y = number[id(e["current"])], number[id(e["destination"])]
                if x != y and (x, y) not in joined:
                    raise Violation(f"{where}: tried {x}->{y}, which are not linked")
            ctx.label(f"{min(len(walk), 4)} places")


PROP = Prop(
    "C34",
    rule="more than two messages or knowledge calls reached a log; comms: a message was retried or took two hops",
    parts=[
        Part("actors", case, check, quick=8000, thorough=100000),
        Part("attempts", comms_case, check_comms, quick=8000, thorough=100000),
    ],
    assumptions=[
        "The wording of the package's own lines is not judged, only whom and what they name, and when."
    ],
)
