"""C20: a reserve container never promises or holds more than it has."""

from __future__ import annotations

import math
from typing import Any, Generator

from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, drain, seqs, st


class Loose:
    """Equal to others of the same key, never the same object."""

    def __init__(self, key: int):
        self.key = key

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Loose) and other.key == self.key

    def __hash__(self) -> int:
        return hash(self.key)


#: name -> (how to make the requester, what it equals)
WHO = {
    "actor": "actor",
    "actor2": "actor2",
    "text": "text",
    "empty": "",
    "zero": 0,
    "zerof": 0.0,
    "false": False,
    "none": None,
    "pair": "pair",
    "pair2": "pair2",
    "loose": "loose",
    "loose2": "loose2",
}


class Model:
    def __init__(self, c: dict):
        self.cap = math.inf if c["cap"] is None else c["cap"]
        self.held = c["init"]
        self.live: dict[Any, list] = {}

    def tick(self, now: float) -> None:
        for k in [k for k, (q, end) in self.live.items() if end is not None and end < now]:
            del self.live[k]

    @property
    def free(self) -> float:
        return self.held - sum(q for q, _ in self.live.values())

    def reserve(self, k: Any, q: float, end: float | None) -> bool:
        if q > self.free or k in self.live:
            return False
        self.live[k] = [q, end]
        return True

    def cancel(self, k: Any) -> bool:
        return self.live.pop(k, None) is not None

    def take(self, k: Any) -> Any:
        if k not in self.live:
            return "refused"
        q = self.live.pop(k)[0]
        self.held -= q
        return q

    def put(self, q: float, more: bool) -> Any:
        if self.held + q > self.cap and not more:
            return "refused"
        self.held += q
        return None


def case() -> st.SearchStrategy:
    amount = st.one_of(st.sampled_from([1, 2, 2.5, 1, 5, 0, 10]), st.integers(0, 40).map(lambda x: x / 4))
    common = st.sampled_from(["actor", "text", "loose"])
    who = st.one_of(common, common, common, st.sampled_from(sorted(WHO)))
    box = st.sampled_from([0, 0, 0, 0, 0, 1])
    reserve = st.fixed_dictionaries(
        {
            "op": st.just("reserve"),
            "box": box,
            "who": who,
            "q": amount,
            "left": st.one_of(
                st.none(), st.integers(0, 12).map(lambda k: k / 2 + 0.25), st.sampled_from([0.25, 1000.25, 0])
            ),
        }
    )
    op = st.one_of(
        reserve,
        reserve,
        st.fixed_dictionaries({"op": st.just("take"), "box": box, "who": who}),
        st.fixed_dictionaries({"op": st.just("cancel"), "box": box, "who": who}),
        st.fixed_dictionaries(
            {
                "op": st.just("put"),
                "box": box,
                "q": amount,
                "more": st.sampled_from([None, False, False, True]),
            }
        ),
        st.fixed_dictionaries({"op": st.just("wait"), "t": st.integers(1, 6).map(lambda k: k / 2)}),
    )
    container = st.tuples(
        st.sampled_from([None, 5, 10, 20, 20]), st.sampled_from([0.5, 1.0, 1.0, 1.0, 0]), amount
    ).map(lambda x: {"cap": x[0], "init": x[2] if x[0] is None else x[0] * x[1]})
    return st.fixed_dictionaries(
        {
            "boxes": st.tuples(container, container).map(list),
            "monitored": st.booleans(),
            "ops": seqs(op, 30, 3),
        }
    )


def check(c: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext() as env:
        a1, a2 = UP.Actor(name="a"), UP.Actor(name="a")

        def requester(w: str) -> Any:
            return {
                "actor": a1,
                "actor2": a2,
                "text": "".join(["re", "quest"]),
                "pair": (1, w[:4]),
                "pair2": (2, w[:4]),
                "loose": Loose(1),
                "loose2": Loose(2),
            }.get(w, WHO[w])

        kind = UP.SelfMonitoringReserveContainer if c["monitored"] else UP.ReserveContainer
        real, ref = [], []
        traces: list[list] = []
        for b in c["boxes"]:
            kw = {} if b["cap"] is None else {"capacity": b["cap"]}
            real.append(kind(env, init=b["init"], **kw))
            ref.append(Model(b))
            traces.append([(env.now, b["init"])])
        raised = [False, False]

        def look(what: str) -> None:
            for n, (r, m) in enumerate(zip(real, ref)):
                m.tick(env.now)
                at = f"container {n} at {env.now} {what}"
                if r.available != m.free or r.remaining != m.free:
                    raise Violation(f"{at}: {r.available} available, should be {m.free}")
                if sorted(map(repr, map(key, r.queued))) != sorted(map(repr, m.live)):
                    raise Violation(f"{at}: queued {r.queued}, should be {list(m.live)}")
                if r.available < 0 or (not raised[n] and r.available > m.cap):
                    raise Violation(f"{at}: {r.available} available of {m.cap}")
                if traces[n][-1] != (env.now, m.held) and traces[n][-1][1] != m.held:
                    traces[n].append((env.now, m.held))

        def key(x: Any) -> Any:
            """A name for what a requester equals."""
            if x is a1 or x is a2:
                return "a1" if x is a1 else "a2"
            if isinstance(x, Loose):
                return f"loose{x.key}"
            if isinstance(x, (int, float)):
                return "zero"
            return repr(x)

        def step(o: dict) -> None:
            n = o["box"]
            r, m = real[n], ref[n]
            m.tick(env.now)
            what = f"{o['op']} at {env.now}"
            if o["op"] == "reserve":
                who = requester(o["who"])
                args = [] if o["left"] is None else [o["left"]]
                end = None if o["left"] is None else env.now + o["left"]
                want = m.reserve(key(who), o["q"], end)
                got: Any = r.reserve(who, o["q"], *args)
                ctx.label("reserved" if want else "not reserved")
            elif o["op"] == "cancel":
                who = requester(o["who"])
                want, got = m.cancel(key(who)), r.cancel_request(who)
                ctx.label("cancelled" if want else "nothing to cancel")
            elif o["op"] == "take":
                who = requester(o["who"])
                want = m.take(key(who))
                try:
                    got = r.take(who)
                except ValueError:
                    got = "refused"
                ctx.label("no take" if want == "refused" else "take")
            else:
                want = m.put(o["q"], bool(o["more"]))
                try:
                    got = r.put(o["q"], *([] if o["more"] is None else [o["more"]]))
                except ValueError:
                    got = "refused"
                ctx.label("no put" if want == "refused" else "put")
                if m.held > m.cap:
                    # "optionally increasing capacity": what is held may now exceed
                    # the stated capacity, or the stated capacity may grow with it
                    raised[n] = True
                    if r.capacity not in (m.cap, m.held):
                        raise Violation(f"{what}: capacity {r.capacity} for {m.held} held in {m.cap}")
                    m.cap = r.capacity
            if got is not want and got != want:
                raise Violation(f"{what} by {o.get('who')}: {got!r}, should be {want!r}")
            if o["op"] in ("reserve", "cancel") and not isinstance(got, bool):
                raise Violation(f"{what}: answered {got!r}")
            look(f"after {o}")

        seen: dict[Any, int] = {}

        def outside() -> Generator:
            look("first")
            for o in c["ops"]:
                if o["op"] == "wait":
                    for _ in range(int(o["t"] * 2)):
                        for d in (0.125, 0.25, 0.125):
                            before = [len(m.live) for m in ref]
                            yield env.timeout(d)
                            look("waiting")
                            if before != [len(m.live) for m in ref]:
                                ctx.label("expired")
                                ctx.nontrivial()
                else:
                    step(o)
                    if o["op"] == "reserve":
                        k = (o["box"], o["who"])
                        seen[k] = seen.get(k, 0) + 1
                        if seen[k] > 1:
                            ctx.label("again")
            for d in (0.125, 0.25, 20.125 - 0.25):
                yield env.timeout(d)
                look("at the end")

        env.process(outside())
        drain(env, until=200.0)
        for n, r in enumerate(real):
            # nothing else is needed to take what is still reserved
            for who in list(r.queued):
                want = ref[n].take(key(who))
                got = r.take(who)
                if got != want:
                    raise Violation(f"took {got} at the end, should be {want}")
                look("after all")
        for n, r in enumerate(real):
            # all that is held is available, and exactly that
            left = ref[n].held
            if r.available != left or not r.reserve("last", left) or r.reserve("more", 0.25):
                raise Violation(f"{r.available} available at the end, should be {left}")
        if c["monitored"]:
            for n, r in enumerate(real):
                q = list(r._quantities)
                if [t for t, _ in q] != sorted(t for t, _ in q):
                    raise Violation(f"record {q} out of order")
                # the record read as a step function, the last entry of an instant counts
                for t, v in traces[n]:
                    last = [x for s, x in q if s <= t][-1]
                    final = [x for s, x in traces[n] if s <= t][-1]
                    if last != final:
                        raise Violation(f"record says {last} at {t}, should be {final}")
                if not {v for _, v in q} <= {v for _, v in traces[n]}:
                    raise Violation(f"record {q} has quantities that never were; held {traces[n]}")


PROP = Prop(
    "C20",
    rule="a reservation was ended by its own time limit",
    parts=[Part("reservations", case, check, quick=12000, thorough=150000)],
    assumptions=[
        "Quantities are not negative; no call happens at the very instant at which a reservation expires."
    ],
)
