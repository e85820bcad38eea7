"""C23: point-to-point messages arrive once, intact, at the time the link conditions imply."""

from __future__ import annotations

from math import ceil
from typing import Any, Generator

from upstage_des.communications.processes import generate_comms_wait

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, drain, expect_raises, seqs, st


class Talker(UP.Actor):
    radio = UP.CommunicationStore(modes=["UHF", "VHF"])
    horn = UP.CommunicationStore(modes="loud")
    box = UP.ResourceState(default=SIM.Store)
    post = UP.ResourceState(default=UP.SelfMonitoringFilterStore)


class Walker(UP.Actor):
    """The modes sit on other stores."""

    horn = UP.CommunicationStore(modes=None)
    box = UP.ResourceState(default=SIM.FilterStore)
    post = UP.CommunicationStore(modes="VHF", default=SIM.Store)
    radio = UP.CommunicationStore(modes=["loud"])


STORES = ("radio", "horn", "box", "post")
MODES = {
    "talker": {"UHF": "radio", "VHF": "radio", "loud": "horn"},
    "walker": {"UHF": "horn", "VHF": "post", "loud": "radio"},
}
RULES = [
    (1.0, 0.25),
    (1.0, 0.375),
    (0, 0.25),
    (0.5, 0.5),
    (0.25, 1.0),
    (2, 0.5),
    (1.25, 0.5),
    (1.5, 0.125),
    None,
]


def manager() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(["UHF", "VHF", "loud", None]),
            "how": st.sampled_from(["init", "connect"]),
            # actors connected explicitly although there is a mode
            "extra": st.lists(st.integers(0, 3), max_size=1),
            "to": st.sampled_from(["box", "post"]),
            "send": st.sampled_from([0, 0.0, 0.25, 1, 2.5, None]),
            "rule": st.integers(0, len(RULES) - 1),
            "start": st.sampled_from([0, 0, 0, 1.0]),
            "log": st.booleans(),
        }
    )


def case() -> st.SearchStrategy:
    who = st.integers(0, 3)
    send = st.fixed_dictionaries(
        {
            "op": st.just("send"),
            "m": st.integers(0, 2),
            "a": who,
            "b": who,
            "what": st.sampled_from(["text", "text", "dict", "content", "message", "again"]),
            "how": st.sampled_from(["task", "raw"]),
        }
    )
    cond = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["degrade", "restore", "block", "block", "unblock", "node", "unnode"]),
            "m": st.integers(0, 2),
            "a": who,
            "b": who,
        }
    )
    wait = st.fixed_dictionaries({"op": st.just("wait"), "n": st.integers(1, 4)})
    drop = st.fixed_dictionaries(
        {
            "op": st.just("drop"),
            "b": who,
            "s": st.integers(0, 3),
            "what": st.sampled_from(["text", "dict", "message", "number"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "actors": st.lists(st.sampled_from(["talker", "talker", "walker"]), min_size=2, max_size=4),
            "managers": st.lists(manager(), min_size=1, max_size=3),
            "readers": st.lists(st.sampled_from(["loop", "loop", "wait", "late"]), min_size=4, max_size=4),
            "ops": seqs(st.one_of(send, send, send, cond, cond, cond, wait, wait, wait, drop), 36, 3),
            "t0": st.sampled_from([0, 0, 100.0]),
        }
    )


class Link:
    """The conditions of one manager, and when they changed."""

    def __init__(self) -> None:
        self.changes: list[tuple[float, bool, list, list]] = [(-1.0, False, [], [])]

    def now(self) -> tuple[bool, list, list]:
        _, d, l, n = self.changes[-1]
        return d, list(l), list(n)

    def set(self, t: float, d: bool, l: list, n: list) -> None:
        self.changes.append((t, d, l, n))

    def open(self, t: float, a: int, b: int) -> bool:
        _, d, l, n = [c for c in self.changes if c[0] <= t][-1]
        return not (d or (a, b) in l or a in n or b in n)


def check(c: dict, ctx: Ctx) -> None:
    na, nm = len(c["actors"]), len(c["managers"])
    with UP.EnvironmentContext(initial_time=c["t0"]) as env:
        t0 = env.now
        actors: list[UP.Actor] = []
        for i, k in enumerate(c["actors"]):
            if k == "talker":
                actors.append(Talker(name="same" if i % 2 else f"t{i}"))
            else:
                actors.append(Walker(name="same", horn={"modes": ["UHF", "none"]}))
        managers: list[Any] = []
        target: list[dict[int, str]] = []
        links = [Link() for _ in range(nm)]
        for j, m in enumerate(c["managers"]):
            kw: dict[str, Any] = {"name": f"m{j}"}
            if m["mode"]:
                kw["mode"] = m["mode"]
            if m["send"] is not None:
                kw["send_time"] = m["send"]
            if RULES[m["rule"]]:
                kw["retry_max_time"], kw["retry_rate"] = RULES[m["rule"]]
            if m["log"]:
                kw["debug_logging"] = True
            explicit = range(na) if m["mode"] is None else [x % na for x in m["extra"]]
            if m["how"] == "init":
                kw["init_entities"] = [(actors[i], m["to"]) for i in explicit]
            mgr = UP.PointToPointCommsManager(**kw)
            if m["how"] == "connect":
                for i in explicit:
                    mgr.connect(actors[i], m["to"])
            ctx.ensure(
                (mgr.name, mgr.mode) == (f"m{j}", m["mode"] or None), f"made {m}, is {mgr.name}, {mgr.mode}"
            )
            managers.append(mgr)
            target.append(
                {i: m["to"] if i in explicit else MODES[c["actors"][i]][m["mode"]] for i in range(na)}
            )

        def starter(mgr: Any, at: float) -> Generator:
            yield env.timeout(at)
            mgr.run()

        for mgr, m in zip(managers, c["managers"]):
            if m["start"]:
                env.process(starter(mgr, m["start"]))
            else:
                mgr.run()

        # --- who receives
        got: dict[tuple[int, str], list] = {(i, s): [] for i in range(na) for s in STORES}

        def reader(i: int, s: str) -> Generator:
            while True:
                x = yield getattr(actors[i], s).get()
                got[i, s].append((env.now, x))

        for i in range(na):
            for s in STORES:
                if c["readers"][i] == "loop":
                    env.process(reader(i, s))
                elif c["readers"][i] == "wait":
                    generate_comms_wait(
                        getattr(actors[i], s), lambda x, i=i, s=s: got[i, s].append((env.now, x))
                    )()

        # --- what is sent
        sent: list[dict] = []
        messages: list[Any] = []

        def do_send(n: int, o: dict) -> None:
            j, a, b = o["m"] % nm, o["a"] % na, o["b"] % na
            payload: Any
            ent: dict[str, Any] = {"m": j, "a": a, "b": b, "t": env.now - t0, "what": o["what"], "n": n}
            if o["what"] == "text":
                payload = ["hello", "", f"text {n}"][n % 3]
            elif o["what"] == "dict":
                payload = {} if n % 3 == 0 else {"n": n, "who": actors[a]}
            elif o["what"] == "content":
                payload = UP.MessageContent(data={"n": n}, message=f"m{n}")
            elif o["what"] == "message" or not messages:
                payload = UP.Message(actors[a], UP.MessageContent(data={"n": n}), actors[b], header="h")
                messages.append((payload, a, b))
                ent["what"] = "message"
            else:
                payload, ent["a"], ent["b"] = messages[n % len(messages)]
                a, b = ent["a"], ent["b"]
                ent["what"] = "message"
            ent["payload"] = payload
            sent.append(ent)
            if o["how"] == "raw":
                put = managers[j].make_put(payload, actors[a], actors[b])
                put.as_event()
            else:

                class Say(UP.Task):
                    def task(self, *, actor):
                        yield managers[j].make_put(
                            message=payload, source=actors[a], destination=actors[b], **plan
                        )

                # planning it takes the time it is said to, or none, and sends nothing
                plan = {} if n % 3 == 0 else {"rehearsal_time_to_complete": n % 3 - 0.5}
                if n % 2:
                    later = Say().rehearse(actor=actors[a]).env.now - env.now
                    if not close(later, plan.get("rehearsal_time_to_complete", 0.0)):
                        raise Violation(f"planning to send a message with {plan} takes {later}")
                Say().run(actor=actors[a])

        dropped: list[dict] = []

        def do_drop(n: int, o: dict) -> None:
            """Something is put into a mailbox, not by a manager."""
            b = o["b"] % na
            x: Any = {
                "text": f"note {n}",
                "dict": {"n": n},
                "number": 1000 + n,
                "message": UP.Message(actors[0], UP.MessageContent(data={"n": n}), actors[b]),
            }[o["what"]]
            s = STORES[o["s"]]
            getattr(actors[b], s).put(x)
            dropped.append({"n": n, "b": b, "s": s, "t": env.now - t0, "what": "drop", "payload": x})
            ctx.label(f"dropped {o['what']}")

        def do_cond(o: dict) -> None:
            j, a, b = o["m"] % nm, o["a"] % na, o["b"] % na
            mgr = managers[j]
            d, l, n = links[j].now()
            if o["op"] in ("degrade", "restore"):
                d = mgr.comms_degraded = o["op"] == "degrade"
            elif o["op"] == "block":
                l.append((a, b))
                mgr.blocked_links.append((actors[a], actors[b]))
            elif o["op"] == "unblock" and l:
                x = l.pop(o["a"] % len(l))
                mgr.blocked_links.remove((actors[x[0]], actors[x[1]]))
            elif o["op"] == "node":
                n.append(a)
                mgr.blocked_nodes.append(actors[a])
            elif o["op"] == "unnode" and n:
                mgr.blocked_nodes.remove(actors[n.pop(o["a"] % len(n))])
            links[j].set(env.now - t0, d, l, n)

        def outside() -> Generator:
            # conditions change between the moments at which anything is sent or tried
            for n, o in enumerate(c["ops"]):
                if o["op"] == "wait":
                    yield env.timeout(0.5 * o["n"])
                elif o["op"] == "send":
                    do_send(n, o)
                elif o["op"] == "drop":
                    do_drop(n, o)
                else:
                    yield env.timeout(0.0625)
                    do_cond(o)
                    yield env.timeout(0.5 - 0.0625)

        env.process(outside())
        drain(env, until=t0 + 0.5 * 4 * 40 + 40)

        # --- what has to arrive
        want: dict[tuple[int, str], list] = {k: [] for k in got}
        for e in sent:
            m = c["managers"][e["m"]]
            most, rate = RULES[m["rule"]] or (1.0, 0.166667)
            t = max(e["t"], m["start"])
            link = links[e["m"]]
            for _ in range(ceil(most / rate)):
                if link.open(t, e["a"], e["b"]):
                    break
                t += rate
                ctx.label("retried")
            if link.open(t, e["a"], e["b"]):
                if t > max(e["t"], m["start"]):
                    ctx.nontrivial()
                want[e["b"], target[e["m"]][e["b"]]].append((t + (m["send"] or 0), e))
                ctx.label(e["what"])
            else:
                ctx.label("given up")
                ctx.nontrivial()

        for e in dropped:
            want[e["b"], e["s"]].append((e["t"], e))

        def fits(e: dict, x: Any, plain: bool) -> bool:
            """Is x what e sent?"""
            if e["what"] == "drop":
                if not plain:
                    return x is e["payload"]
                if isinstance(e["payload"], UP.Message):
                    return x is e["payload"].content
                return x == UP.MessageContent(data={"message": e["payload"]})
            if plain:
                content = x
            else:
                if type(x) is not UP.Message:
                    return False
                if x.sender is not actors[e["a"]] or x.destination is not actors[e["b"]]:
                    return False
                if e["what"] == "message":
                    return x.uid == e["payload"].uid and x.content == e["payload"].content and x.header == "h"
                if x.mode != c["managers"][e["m"]]["mode"]:
                    return False
                content = x.content
            if type(content) is not UP.MessageContent:
                return False
            if e["what"] == "text":
                return content.message == e["payload"] and content.data == {}
            if e["what"] == "dict":
                return content.data == e["payload"] and content.message is None
            if e["what"] == "content":
                return content == e["payload"]
            return content == e["payload"].content

        for (i, s), exp in want.items():
            where = f"{s} of actor {i}"
            late = c["readers"][i] == "late"
            have = (
                [(None, x) for x in getattr(actors[i], s).items]
                if late
                else [(t - t0, x) for t, x in got[i, s]]
            )
            if not late and getattr(actors[i], s).items:
                raise Violation(f"{where} has items left though it is read")
            rest = list(have)
            for t, e in sorted(exp, key=lambda p: (p[0], p[1]["n"])):
                hit = [
                    h
                    for h in rest
                    if (late or close(h[0], t, 1e-9, 1e-9)) and fits(e, h[1], c["readers"][i] == "wait")
                ]
                if not hit:
                    raise Violation(
                        f"{where}: nothing for send {e['n']} ({e['what']} at {e['t']} by manager {e.get('m')}) at {t}; "
                        f"received {[(a, getattr(b, 'content', b)) for a, b in have]}"
                    )
                rest.remove(hit[0])
                msg = hit[0][1]
                if isinstance(msg, UP.Message) and e["what"] not in ("message", "drop"):
                    # when it was sent lies between the sending and the arrival
                    if msg.time_sent is None or not e["t"] - 1e-9 <= msg.time_sent - t0 <= t + 1e-9:
                        raise Violation(f"message of {e['t']} to {t} is said to be sent at {msg.time_sent}")
                    if msg.time_created - t0 != e["t"]:
                        raise Violation(f"message of {e['t']} is said to be created at {msg.time_created}")
            if rest:
                raise Violation(f"{where} also received {rest}")
            if late:
                # what lies in a mailbox is in the order of its arrival
                ctx.label("mailbox kept")
            if len(exp) > 1:
                ctx.label("several")


# ---------------------------------------------------------------------------
# actors that cannot be reached
# ---------------------------------------------------------------------------

HAS = {"UHF": ["UHF"], "both": ["UHF", "VHF"], "text": "VHF", "none": None}


def reach_case() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "state": st.sampled_from([*sorted(HAS), None]),
            "own": st.sampled_from([None, None, None, [], ["VHF"], "UHF", ["UHF", "U"], 5, [1, "UHF"]]),
            "mode": st.sampled_from(["UHF", "VHF", "U", None]),
            "connect": st.sampled_from([None, None, "init", "connect"]),
            "to": st.sampled_from(["box", "radio"]),
            "ask": st.sampled_from(["send", "look"]),
            "blocked": st.booleans(),
        }
    )


def check_reach(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext() as env:
        body: dict[str, Any] = {"box": UP.ResourceState(default=SIM.Store)}
        kw: dict[str, Any] = {}
        if c["state"] is not None:
            body["radio"] = UP.CommunicationStore(modes=HAS[c["state"]])
            if c["own"] is not None:
                kw["radio"] = {"modes": c["own"]}
        ham = type("Ham", (UP.Actor,), body)
        bad = c["own"] in (5, [1, "UHF"]) or (c["own"] is None and c["state"] == "none")
        if c["state"] is not None and bad:
            # it has to have modes, which are names
            expect_raises("a comms store without modes", UP.SimulationError, ham, name="ham", **kw)
            ctx.label("no modes")
            ctx.nontrivial()
            return
        actor = ham(name="ham", **kw)
        sender = Talker(name="sender")
        modes: list = []
        if c["state"] is not None:
            modes = c["own"] if c["own"] is not None else HAS[c["state"]] or []
            modes = [modes] if isinstance(modes, str) else modes
        to = c["to"] if c["state"] is not None else "box"
        mk: dict[str, Any] = {"name": "m", "mode": c["mode"]}
        if c["connect"] == "init":
            mk["init_entities"] = [(actor, to)]
        mgr = UP.PointToPointCommsManager(**mk)
        if c["connect"] == "connect":
            mgr.connect(actor, to)
        want = to if c["connect"] else "radio" if c["mode"] in modes else None
        ctx.label("reached" if want else "out of reach")
        ctx.nontrivial()
        if c["ask"] == "look":
            try:
                store = mgr.store_from_actor(actor)
            except UP.SimulationError:
                store = None
            if store is not (getattr(actor, want) if want else None):
                raise Violation(f"the store of a {modes} actor for {c['mode']} is {store}, should be {want}")
            return
        mgr.run()
        if c["blocked"]:
            mgr.blocked_links.append((actor, sender))  # the other way
        mgr.make_put("hi", sender, actor).as_event()
        refused = False
        try:
            drain(env, until=10)
        except UP.SimulationError:
            refused = True
        if refused != (want is None):
            raise Violation(
                f"a message to a {modes} actor by {c['mode']} was {'' if refused else 'not '}refused"
            )
        stores = ["box"] + (["radio"] if c["state"] is not None else [])
        for s in stores:
            n = len(getattr(actor, s).items)
            if n != (s == want):
                raise Violation(f"{s} of a {modes} actor holds {n} messages, {want} should hold one")


PROP = Prop(
    "C23",
    rule="at least one message was retried and then sent, or given up; or someone was asked for",
    parts=[
        Part("messages", case, check, quick=9000, thorough=150000),
        Part("reach", reach_case, check_reach, quick=1500, thorough=10000),
    ],
    assumptions=["Conditions do not change at the very moment at which a message is tried."],
)
