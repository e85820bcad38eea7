"""C24: routed messages follow shortest available routes and replan around failing hops."""

from __future__ import annotations

from collections import deque
from math import ceil
from typing import Any, Generator

from upstage_des.communications.routing import RoutingCommsManagerBase

from harness.core import Ctx, Part, Prop
from harness.props.c23_comms import RULES, Link
from harness.util import SIM, UP, Violation, close, drain, expect_raises, seqs, st

NAMES = ["A", "B", "C", "node D", "E1", "F", "g", "H"]


class Node(UP.Actor):
    messages = UP.CommunicationStore(modes=None)
    other = UP.CommunicationStore(modes="other")


class Notes:
    """Notes what is asked of the routing, message by message."""

    def __init__(self, **kw: Any):
        super().__init__(**kw)
        self.asked: dict[Any, list] = {}

    def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
        ignore = list(ignore_nodes or [])
        hop = super().select_hop(source, dest, ignore_nodes)
        log = self.asked.setdefault(self.env.active_process, [])
        log.append((self.env.now, source, dest, ignore, hop))
        if len(log) > 3000:
            raise Violation(f"still looking for a hop from {source} to {dest} at {self.env.now}")
        return hop


class Own(RoutingCommsManagerBase):
    """A routing that a user wrote: the last of the nodes next to one that are nearest to the goal."""

    def __init__(self, **kw: Any):
        super().__init__(**kw)
        self.ends: dict[Any, list] = {}

    def connect_nodes(self, u: Any, v: Any, two_way: bool = False) -> None:
        for a, b in [(u, v), (v, u)][: 1 + two_way]:
            self.ends.setdefault(a, []).append(b)

    def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
        every = list({id(x): x for a, b in self.ends.items() for x in [a, *b]}.values())
        n = {id(x): i for i, x in enumerate(every)}
        if id(source) not in n or id(dest) not in n:
            return None
        graph = {n[id(a)]: {n[id(x)] for x in b} for a, b in self.ends.items()}
        gone = {n[id(x)] for x in ignore_nodes or []}
        dist = distances(graph, n[id(dest)], gone)
        best = [v for v in sorted(graph.get(n[id(source)], ())) if v not in gone and v in dist]
        return every[min(reversed(best), key=lambda v: dist[v])] if best else None


class Spy(Notes, UP.RoutingTableCommsManager):
    pass


class OwnSpy(Notes, Own):
    pass


def case() -> st.SearchStrategy:
    def make(n: int) -> st.SearchStrategy:
        who = st.integers(0, n - 1)
        edge = st.tuples(who, who, st.booleans()).filter(lambda e: e[0] != e[1]).map(list)
        send = st.fixed_dictionaries({"op": st.just("send"), "a": who, "b": who})
        cond = st.fixed_dictionaries(
            {
                "op": st.sampled_from(
                    ["degrade", "restore", "restore", "block", "block", "unblock", "node", "unnode"]
                ),
                "a": who,
                "b": who,
                "e": st.integers(0, 20),
            }
        )
        wait = st.fixed_dictionaries({"op": st.just("wait"), "n": st.integers(1, 4)})
        return st.fixed_dictionaries(
            {
                "n": st.just(n),
                "edges": st.one_of(
                    st.lists(edge, min_size=n - 1, max_size=2 * n), st.lists(edge, min_size=0, max_size=3 * n)
                ),
                "chain": st.booleans(),
                "send": st.sampled_from([0.25, 0.25, 1, 0.5, 0]),
                "rule": st.integers(0, len(RULES) - 1),
                "global": st.sampled_from([None, False, True]),
                "log": st.booleans(),
                "own": st.sampled_from([False, False, False, True]),
                "ops": seqs(st.one_of(send, send, cond, cond, wait), 24, 2),
            }
        )

    return st.integers(2, 8).flatmap(make)


def distances(graph: dict[int, set[int]], goal: int, gone: set[int]) -> dict[int, int]:
    """Hops to the goal from everywhere."""
    if goal in gone:
        return {}
    back: dict[int, set[int]] = {}
    for u, vs in graph.items():
        for v in vs:
            if u not in gone and v not in gone:
                back.setdefault(v, set()).add(u)
    out = {goal: 0}
    todo = deque([goal])
    while todo:
        v = todo.popleft()
        for u in back.get(v, ()):
            if u not in out:
                out[u] = out[v] + 1
                todo.append(u)
    return out


def check(c: dict, ctx: Ctx) -> None:
    n = c["n"]
    most, rate = RULES[c["rule"]] or (1.0, 0.166667)
    hop_time = c["send"]
    if not hop_time and not most:
        # replanning without end would take no time at all
        hop_time = 0.25
    with UP.EnvironmentContext() as env:
        nodes = [Node(name=NAMES[i], messages={"modes": ["cup", "string"]}) for i in range(n)]
        number = {id(x): i for i, x in enumerate(nodes)}
        kw = {} if c["global"] is None else {"global_ignore": c["global"]}
        if c["log"]:
            kw["debug_logging"] = True
        if RULES[c["rule"]]:
            kw.update(retry_max_time=most, retry_rate=rate)
        if hop_time:
            kw["send_time"] = hop_time
        mgr = (OwnSpy if c.get("own") else Spy)(name="net", mode="cup", **kw)
        expect_raises("a connection without a link", UP.SimulationError, mgr.connect, nodes[0], "messages")
        graph: dict[int, set[int]] = {}
        edges = [list(e) for e in c["edges"]]
        if c["chain"]:
            edges += [[i, i + 1, False] for i in range(n - 1)]
        for u, v, both in edges:
            args = {"two_way": True} if both else {}
            mgr.connect_nodes(nodes[u], nodes[v], **args)
            graph.setdefault(u, set()).add(v)
            if both:
                graph.setdefault(v, set()).add(u)
        pairs = sorted((u, v) for u in graph for v in graph[u])
        mgr.run()
        link = Link()
        sent: list[dict] = []
        arrived: list = []

        def reader(i: int) -> Generator:
            while True:
                x = yield nodes[i].messages.get()
                arrived.append((env.now, i, x))

        for i in range(n):
            env.process(reader(i))

        def do_cond(o: dict) -> None:
            d, l, nn = link.now()
            a, b = pairs[o["e"] % len(pairs)] if pairs else (o["a"], o["b"])
            if o["op"] in ("degrade", "restore"):
                d = mgr.comms_degraded = o["op"] == "degrade"
            elif o["op"] == "block":
                l.append((a, b))
                mgr.blocked_links.append((nodes[a], nodes[b]))
            elif o["op"] == "unblock" and l:
                x = l.pop(o["e"] % len(l))
                mgr.blocked_links.remove((nodes[x[0]], nodes[x[1]]))
            elif o["op"] == "node":
                nn.append(o["a"])
                mgr.blocked_nodes.append(nodes[o["a"]])
            elif o["op"] == "unnode" and nn:
                mgr.blocked_nodes.remove(nodes[nn.pop(o["e"] % len(nn))])
            link.set(env.now, d, l, nn)

        def outside() -> Generator:
            for k, o in enumerate(c["ops"]):
                if o["op"] == "wait":
                    yield env.timeout(0.5 * o["n"])
                elif o["op"] == "send":
                    content = UP.MessageContent(data={"n": k})
                    sent.append({"a": o["a"], "b": o["b"], "t": env.now, "content": content, "k": k})
                    mgr.make_put(content, nodes[o["a"]], nodes[o["b"]]).as_event()
                else:
                    yield env.timeout(0.0625)
                    do_cond(o)
                    yield env.timeout(0.5 - 0.0625)

        env.process(outside())
        end = sum(0.5 * o.get("n", 1) for o in c["ops"] if o["op"] != "send") + 25.03
        drain(env, until=end)

        # --- follow each message
        walks = list(mgr.asked.values())
        walked: list[list] = []
        for w in walks:
            src, dst, t = number[id(w[0][1])], number[id(w[0][2])], w[0][0]
            walked.append([src, dst, t])
            here, failed = src, []
            outcome = "under way"
            k = 0
            hops = 0
            while True:
                if here == dst:
                    outcome = "arrives"
                    break
                if t > end:
                    break
                if k >= len(w):
                    raise Violation(
                        f"message {src}->{dst} stops at node {here} at {t}, without asking for another hop"
                    )
                at, a, b, ignore, hop = w[k]
                k += 1
                where = f"message {src}->{dst}, sent at {w[0][0]}, at node {here} at {t}"
                if not close(at, t) or number[id(a)] != here or number[id(b)] != dst:
                    raise Violation(f"{where}: asked for a hop at {at} from {a} to {b}")
                if {number[id(x)] for x in ignore} != set(failed):
                    raise Violation(f"{where}: asked to ignore {ignore}, should be {failed}")
                dist = distances(graph, dst, set(failed))
                best = [v for v in graph.get(here, ()) if v not in failed and v in dist]
                if not best:
                    if hop is not None:
                        raise Violation(f"{where}: goes to {hop}, but no way is left without {failed}")
                    outcome = "given up"
                    break
                short = min(dist[v] for v in best)
                if hop is None or number.get(id(hop)) not in [v for v in best if dist[v] == short]:
                    raise Violation(
                        f"{where}: next is {hop}, should be one of {[v for v in best if dist[v] == short]}; "
                        f"graph {graph}, without {failed}"
                    )
                nxt = number[id(hop)]
                for _ in range(ceil(most / rate)):
                    if link.open(t, here, nxt):
                        break
                    t += rate
                if link.open(t, here, nxt):
                    t += hop_time
                    hops += 1
                    if not c["global"]:
                        failed = []
                    here = nxt
                else:
                    failed.append(nxt)
                    ctx.label("replanned")
                    ctx.nontrivial()
            if k < len(w) and t <= end:
                raise Violation(f"message {src}->{dst} {outcome} at {t}, but asks for another hop: {w[k]}")
            walked[-1] += [outcome, t]
            ctx.label(outcome)
            if outcome == "arrives":
                ctx.label(f"{min(hops, 4)} hops")
                ctx.nontrivial(hops > 1)

        # --- every message sent was followed, or is for its own sender
        want = []
        for s in sent:
            if s["a"] == s["b"]:
                want.append((s["t"], s["b"], s["k"]))
                continue
            mine = [w for w in walked if w[:3] == [s["a"], s["b"], s["t"]]]
            if not mine:
                raise Violation(f"nothing done about the message of {s['t']} from {s['a']} to {s['b']}")
            walked.remove(mine[0])
            if mine[0][3] == "arrives" and mine[0][4] < end:
                want.append((mine[0][4], s["b"], s["k"]))
        if walked:
            raise Violation(f"messages that nobody sent: {walked}")
        got = sorted((t, i, x.content.data["n"]) for t, i, x in arrived)
        if [(b, k) for _, b, k in sorted(want)] != [(b, k) for _, b, k in got] or not all(
            close(x[0], y[0]) for x, y in zip(sorted(want), got)
        ):
            raise Violation(f"arrived (time, node, message) {got}, should be {sorted(want)}")
        for t, i, x in arrived:
            s = next(s for s in sent if s["k"] == x.content.data["n"])
            if (
                x.sender is not nodes[s["a"]]
                or x.destination is not nodes[s["b"]]
                or x.content != s["content"]
            ):
                raise Violation(f"{x} arrived for {s}")
        for x in nodes:
            if x.other.items or x.messages.items:
                raise Violation(f"{x} has {x.other.items} and {x.messages.items} left")


# ---------------------------------------------------------------------------
# the next hop alone, on larger networks
# ---------------------------------------------------------------------------


def hop_case() -> st.SearchStrategy:
    def make(n: int) -> st.SearchStrategy:
        who = st.integers(0, n - 1)
        return st.fixed_dictionaries(
            {
                "n": st.just(n),
                "edges": st.lists(
                    st.tuples(who, who, st.sampled_from([False, False, True])).map(list),
                    min_size=n,
                    max_size=3 * n,
                ),
                "ask": st.lists(
                    st.tuples(who, who, st.one_of(st.none(), st.lists(who, max_size=4))).map(list),
                    min_size=1,
                    max_size=8,
                ),
            }
        )

    return st.integers(3, 14).flatmap(make)


def check_hop(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext():
        nodes = [Node(name=f"n{i}", messages={"modes": ["cup"]}) for i in range(c["n"])]
        mgr = UP.RoutingTableCommsManager(name="net", mode="cup")
        graph: dict[int, set[int]] = {}
        for u, v, both in c["edges"]:
            if u == v:
                continue
            mgr.connect_nodes(nodes[u], nodes[v], both)
            graph.setdefault(u, set()).add(v)
            if both:
                graph.setdefault(v, set()).add(u)
        for a, b, ignore in c["ask"]:
            ignore = None if ignore is None else [x for x in ignore if x != a]
            if a == b:
                continue
            args = [] if ignore is None else [[nodes[x] for x in ignore]]
            hop = mgr.select_hop(nodes[a], nodes[b], *args)
            gone = set(ignore or [])
            dist = distances(graph, b, gone)
            best = [v for v in graph.get(a, ()) if v not in gone and v in dist]
            short = [v for v in best if dist[v] == min(dist[x] for x in best)]
            if hop is None:
                if best:
                    raise Violation(f"no hop from {a} to {b} without {ignore}, should be one of {short}")
                ctx.label("no way")
                continue
            if not any(hop is nodes[v] for v in short):
                raise Violation(f"hop {hop} from {a} to {b} without {ignore}, should be one of {short}")
            far = dist[short[0]] + 1
            ctx.label(f"{min(far, 5)} hops away")
            ctx.nontrivial(far > 2)


PROP = Prop(
    "C24",
    rule="a message took more than one hop, or was replanned; next hop: a destination more than two hops away",
    parts=[
        Part("networks", case, check, quick=7000, thorough=120000),
        Part("next hop", hop_case, check_hop, quick=5000, thorough=100000),
    ],
    assumptions=[
        "The nodes of one network have different names.",
        "Conditions do not change at the very moment at which a hop is tried.",
        "Hops or retries take time.",
    ],
)
