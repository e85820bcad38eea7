"""Programs of events, run by two back ends: upstage tasks, and plain SimPy.

A program is a list of JSON steps.  ``Upstage`` turns each event specification into an
upstage event and lets ``Task.run`` drive the program; ``Plain`` re-implements what the
documentation says with nothing but SimPy, and is the reference.
"""

from __future__ import annotations

import random
from typing import Any, Callable, Generator

from harness.util import SIM, UP, st

# ---------------------------------------------------------------------------
# the reference events
# ---------------------------------------------------------------------------


class PEvent:
    """One step of a plain SimPy program."""

    ev: SIM.Event | None = None
    make: Callable[[], SIM.Event]

    def as_event(self) -> SIM.Event:
        if self.ev is None:
            self.ev = self.make()
        return self.ev

    def is_complete(self) -> bool:
        return self.ev.processed

    def raced(self) -> bool:
        return False

    def cancel(self) -> None:
        pass


class PWait(PEvent):
    def __init__(self, env: SIM.Environment, t: float):
        self.make = lambda: env.timeout(t)


class PProc(PEvent):
    def __init__(self, proc: SIM.Process):
        self.ev = proc


class PRequest(PEvent):
    gone = False

    def __init__(self, make: Callable[[], SIM.Event], is_get: bool):
        self.make = make
        self.is_get = is_get

    def get_value(self) -> Any:
        if not self.ev.triggered:
            raise UP.SimulationError("not yet")
        return self.ev.value

    def raced(self) -> bool:
        return self.is_get and self.ev is not None and self.ev.triggered and not self.ev.processed

    def cancel(self) -> None:
        if self.ev is not None and not self.ev.triggered and not self.gone:
            self.gone = True
            self.ev.cancel()


class PHold(PRequest):
    def __init__(self, res: SIM.Resource, kw: dict):
        self.res, self.kw, self.stage = res, kw, 0
        self.is_get = True

    def as_event(self) -> SIM.Event:
        if self.stage == 0:
            self.ev = self.req = self.res.request(**self.kw)
        else:
            self.ev = self.res.release(self.req)
        self.stage += 1
        return self.ev

    def raced(self) -> bool:
        return self.stage == 1 and super().raced()


class PSignal(PEvent):
    """An event that somebody has to succeed."""

    def __init__(self, env: SIM.Environment, auto: bool):
        self.env, self.auto, self.payload = env, auto, {}
        self.reset()

    def reset(self) -> None:
        self.ev = SIM.Event(self.env)
        self.gone = False

    def as_event(self) -> SIM.Event:
        if self.ev.processed or self.gone:
            if not self.auto:
                raise UP.UpstageError("no reset")
            self.reset()
        return self.ev

    def succeed(self, **kw: Any) -> None:
        if self.ev.triggered:
            raise UP.SimulationError("done already")
        self.payload = kw
        self.ev.succeed()

    def get_payload(self) -> dict:
        return self.payload

    def cancel(self) -> None:
        if not self.ev.triggered:
            self.gone = True
            self.ev.succeed()


class PMulti(PEvent):
    def __init__(self, env: SIM.Environment, cond: Any, members: list[PEvent]):
        self.env, self.cond, self.members = env, cond, members

    def as_event(self) -> SIM.Event:
        self.ev = self.cond(self.env, [m.as_event() for m in self.members])
        return self.ev

    def raced(self) -> bool:
        return any(m.raced() for m in self.members)

    def cancel(self) -> None:
        for m in self.members:
            m.cancel()


# ---------------------------------------------------------------------------
# worlds
# ---------------------------------------------------------------------------

CLASSES = {
    "store": ("Store", SIM.Store, lambda: UP.SelfMonitoringStore),
    "filter": ("FilterStore", SIM.FilterStore, lambda: UP.SelfMonitoringFilterStore),
    "sorted": ("SortedFilterStore", UP.SortedFilterStore, lambda: UP.SelfMonitoringSortedFilterStore),
    "container": ("Container", SIM.Container, lambda: UP.SelfMonitoringContainer),
    "resource": ("Resource", SIM.Resource, lambda: SIM.Resource),
    "priority": ("PriorityResource", SIM.PriorityResource, lambda: SIM.PriorityResource),
}


class World:
    """The shared resources and signals, with either back end."""

    def __init__(
        self,
        spec: dict,
        env: SIM.Environment,
        plain: bool,
        monitored: bool = False,
        classes: dict | None = None,
    ):
        self.env, self.plain = env, plain
        self.rng = random.Random(spec.get("seed", 1)) if plain else None
        self.res: list[Any] = []
        self.kinds: list[str] = []
        for r in spec["resources"]:
            kind = r["kind"]
            cls = CLASSES[kind][2]() if monitored else (classes or {}).get(kind, CLASSES[kind][1])
            kw: dict[str, Any] = {}
            if kind == "container":
                kw = {"capacity": r["cap"], "init": min(r["init"], r["cap"])}
            elif kind in ("resource", "priority"):
                kw = {"capacity": max(1, int(r["cap"]))}
            else:
                kw = {"capacity": r["cap"]}
            if monitored and kind not in ("resource", "priority"):
                kw["name"] = f"res{len(self.res)}"
            self.res.append(cls(env, **kw))
            self.kinds.append(kind)
        for n, r in enumerate(spec["resources"]):
            if self.kinds[n] in ("store", "filter", "sorted"):
                for i in range(min(int(r["init"]), int(r["cap"]))):
                    self.res[n].put(self.item(n, "init", i, r.get("plainitems")))
        autos = spec.get("autos") or [True]
        self.signals = [PSignal(env, a) if plain else UP.Event(auto_reset=a) for a in autos]

    @staticmethod
    def item(n: int, who: Any, i: int, bare: Any = None) -> Any:
        """Items are unique; some look empty."""
        if bare:
            return [0, 1, 2, "", (), 3.5][i % 6]
        return (i % 4, f"{who}.{i}")

    def pick(self, want: tuple[str, ...], n: int) -> int | None:
        found = [i for i, k in enumerate(self.kinds) if k in want]
        return found[n % len(found)] if found else None

    def condition(self) -> list:
        out = []
        for r, k in zip(self.res, self.kinds):
            if k == "container":
                out.append((k, r.level, len(r.put_queue), len(r.get_queue)))
            elif k in ("resource", "priority"):
                out.append((k, len(r.users), len(r.queue)))
            else:
                out.append((k, list(r.items), [p.item for p in r.put_queue], len(r.get_queue)))
        return out


STORES = ("store", "filter", "sorted")


def passes(m: int) -> Callable[[Any], bool]:
    def filt(item: Any) -> bool:
        key = item[0] if isinstance(item, tuple) and item else 0
        return m < 0 or key == m

    return filt


def key_of(item: Any) -> Any:
    return item[0] if isinstance(item, tuple) and item else 0


class Runner:
    """One task's program."""

    def __init__(self, world: World, me: int, steps: list, log: list):
        self.w, self.me, self.steps, self.log = world, me, steps, log
        self.env = world.env
        self.slots: list[dict] = []
        self.count = 0
        self.gets: list[dict] = []
        self.puts: list[dict] = []
        self.holds: list[dict] = []
        self.starts = 0

    # -- building -------------------------------------------------------
    def build(self, s: dict) -> dict | None:
        """A handle for the event described by ``s``, or None if it makes no sense here."""
        w, env, k = self.w, self.env, s["k"]
        n = s.get("n", 0)
        ent: dict[str, Any] = {"k": k, "stage": 0}
        if k == "wait":
            ent["e"] = PWait(env, s["t"]) if w.plain else UP.Wait(s["t"])
        elif k == "uniform":
            lo, hi = sorted((s["t"], s["t2"]))
            if w.plain:
                ent["e"] = PWait(env, w.rng.uniform(lo, hi))
            else:
                ent["e"] = UP.Wait.from_random_uniform(lo, hi)
        elif k == "put":
            r = w.pick(STORES, n)
            if r is None:
                return None
            self.count += 1
            item = w.item(r, self.me, self.count, s.get("bare"))
            res = w.res[r]
            ent["e"] = PRequest(lambda: res.put(item), False) if w.plain else UP.Put(res, item)
            ent["r"], ent["item"] = r, item
        elif k in ("get", "fget", "sget"):
            want = {"get": STORES, "fget": ("filter", "sorted"), "sget": ("sorted",)}[k]
            r = w.pick(want, n)
            if r is None:
                return None
            res, m = w.res[r], s["m"]
            kw: dict[str, Any] = {}
            if k != "get":
                kw["filter"] = passes(m)
            if k == "sget":
                kw["sorter"] = key_of
                kw["reverse"] = bool(s.get("rev"))
            if w.plain:
                ent["e"] = PRequest(lambda: res.get(**kw), True)
            elif k == "fget" and w.kinds[r] == "filter":
                ent["e"] = UP.FilterGet(res, kw["filter"])
            elif k == "sget":
                ent["e"] = UP.SortedFilterGet(res, **kw)
            else:
                ent["e"] = UP.Get(res, **kw)
            ent["r"] = r
        elif k in ("cput", "cget"):
            r = w.pick(("container",), n)
            if r is None:
                return None
            res, amount = w.res[r], s["a"]
            if w.plain:
                f = res.put if k == "cput" else res.get
                ent["e"] = PRequest(lambda: f(amount), k == "cget")
            else:
                ent["e"] = (UP.Put if k == "cput" else UP.Get)(res, amount)
            ent["r"], ent["a"] = r, amount
        elif k == "hold":
            r = w.pick(("resource", "priority"), n)
            if r is None:
                return None
            kw = {"priority": s.get("m", 0)} if w.kinds[r] == "priority" else {}
            ent["e"] = PHold(w.res[r], kw) if w.plain else UP.ResourceHold(w.res[r], **kw)
            ent["r"] = r
        elif k == "signal":
            i = self.signal(n)
            ent["e"] = w.signals[i]
            ent["sig"] = i
        elif k == "proc":

            def other(t: float = s["t"], v: Any = s.get("m")) -> Generator:
                try:
                    yield env.timeout(t)
                except SIM.Interrupt as i:
                    self.note("other process interrupted", i.cause)
                return v

            p = env.process(other())
            ent["e"] = PProc(p) if w.plain else p
        elif k in ("any", "all"):
            members = []
            for sub in s["of"]:
                got = self.handle(sub)
                if got is not None:
                    members.append(got)
            if not members:
                return None
            ev = [m["e"] for m in members]
            if w.plain:
                ent["e"] = PMulti(env, SIM.AnyOf if k == "any" else SIM.AllOf, ev)
            else:
                ent["e"] = (UP.Any if k == "any" else UP.All)(*ev)
            ent["of"] = members
        else:
            raise AssertionError(k)
        return ent

    own_signals = False

    def signal(self, n: int) -> int:
        return self.me % len(self.w.signals) if self.own_signals else n % len(self.w.signals)

    def handle(self, s: dict) -> dict | None:
        if s["k"] == "slot":
            return self.slots[-1 - s["n"] % len(self.slots)] if self.slots else None
        ent = self.build(s)
        if ent is not None:
            self.slots.append(ent)
        return ent

    def leaves(self, ent: dict) -> list[dict]:
        if "of" in ent:
            return [x for m in ent["of"] for x in self.leaves(m)]
        return [ent]

    def usable(self, ent: dict) -> bool:
        """May this event be yielded now?  (Signals without reset, spent holds.)"""
        seen = set()
        for x in self.leaves(ent):
            if x["k"] == "hold":
                if id(x) in seen or x["stage"] >= 2:
                    return False
                if x["stage"] == 1 and not x["e"].is_complete():
                    return False
                seen.add(id(x))
            elif x["k"] == "signal":
                if self.w.signals[x["sig"]].is_complete() and not self.auto(x["sig"]):
                    return False
        return True

    autos: list[bool] = [True]

    def auto(self, i: int) -> bool:
        return self.autos[i % len(self.autos)]

    # -- observing ------------------------------------------------------
    def norm(self, v: Any) -> Any:
        if isinstance(v, SIM.events.ConditionValue):
            return ["cond", *[self.norm(x) for x in v.todict().values()]]
        return v

    def look(self, ent: dict) -> list:
        """What the program can ask about an event it has yielded before."""
        if ent["k"] == "proc":
            return ["proc"]
        if not ent.get("yielded"):
            return ["new"]
        e = ent["e"]
        done = e.is_complete()
        out: list[Any] = [ent["k"], done]
        if ent["k"] in ("get", "fget", "sget"):
            if done:
                out.append(e.get_value())
            elif not (e.ev if self.w.plain else e._request_event).triggered:
                try:
                    out.append(["gave", e.get_value()])
                except UP.SimulationError:
                    out.append("refused")
        if ent["k"] == "signal":
            out.append(dict(e.get_payload()))
        return out

    def note(self, what: str, *more: Any) -> None:
        self.log.append([self.env.now, self.me, what, *more])

    # -- running --------------------------------------------------------
    def program(self) -> Generator:
        self.starts += 1
        self.slots = []
        self.note("start")
        for n, s in enumerate(self.steps):
            op = s["op"]
            if op == "yield":
                ent = self.handle(s["ev"])
                if ent is None or not self.usable(ent):
                    continue
                for x in self.leaves(ent):
                    x["yielded"] = True
                    if x["k"] == "hold":
                        x["stage"] += 1
                    if x["k"] == "get" or x["k"].endswith("get"):
                        self.track(self.gets, x)
                    if x["k"] == "hold":
                        self.track(self.holds, x)
                    if x["k"].endswith("put"):
                        self.track(self.puts, x)
                self.mark(ent)
                self.current = ent
                v = yield ent["e"]
                self.current = None
                self.note(
                    "resumed",
                    n,
                    self.norm(v) if ent["k"] != "hold" else None,
                    [self.look(x) for x in self.slots],
                )
            elif op == "succeed":
                sig = self.w.signals[self.signal(s["n"])]
                try:
                    sig.succeed(**{"by": self.me, "v": s["v"]})
                    self.note("succeeded", dict(sig.get_payload()))
                except (UP.SimulationError, RuntimeError):
                    self.note("refused", dict(sig.get_payload()))
            elif op == "reset":
                self.w.signals[self.signal(s["n"])].reset()
            elif op == "cancel":
                got = [x for x in self.slots if x.get("yielded") and x["k"] in CANCELS]
                if got:
                    x = got[-1 - s["n"] % len(got)]
                    self.cancel_one(x)
            elif op == "spent":
                # a completed signal that may not be reset
                for i in range(len(self.w.signals)):
                    if not self.auto(i) and self.w.signals[i].is_complete():
                        try:
                            self.w.signals[i].as_event()
                            self.note("as_event", "accepted")
                        except UP.UpstageError:
                            self.note("as_event", "refused")
        self.note("end")

    def mark(self, ent: dict) -> None:
        ent["yielded"] = True
        for m in ent.get("of", []):
            self.mark(m)

    def track(self, where: list, x: dict) -> None:
        if not any(y is x for y in where):
            where.append(x)

    current: dict | None = None

    def cancel_one(self, x: dict) -> None:
        e = x["e"]
        if x.get("cancelled") or e.is_complete():
            return
        if x["k"] == "hold" and x["stage"] != 1:
            return
        ev = e.ev if self.w.plain else e._request_event
        if ev.triggered:
            return  # that is C10
        x["cancelled"] = True
        e.cancel()
        self.note("cancelled", x["k"])


CANCELS = ("get", "fget", "sget", "cget", "put", "cput", "hold")


def run_plain(r: Runner, policy: Callable[[Any], str] | None = None) -> Generator:
    """Drive a program as a SimPy process, answering interrupts as the policy says."""
    gen = r.program()
    send: Any = None
    while True:
        try:
            y = gen.send(send)
        except StopIteration:
            return
        ev = y.as_event()
        while True:
            try:
                send = yield ev
                break
            except SIM.Interrupt as i:
                assert policy is not None
                action = policy(i.cause)
                if action == "ignore":
                    continue
                if not isinstance(y, PProc):
                    y.cancel()
                elif y.ev.is_alive:
                    y.ev.interrupt(cause=i.cause)
                gen.close()
                if action == "end":
                    return
                gen = r.program()
                send = None
                break


# ---------------------------------------------------------------------------
# strategies
# ---------------------------------------------------------------------------

TIMES = st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.0, 2.0, 2.0, 3.0, 4.5])


def leaf(no_proc: bool = False) -> st.SearchStrategy:
    kinds = [
        "wait",
        "wait",
        "put",
        "put",
        "get",
        "get",
        "get",
        "fget",
        "sget",
        "cput",
        "cget",
        "hold",
        "signal",
        "uniform",
    ]
    if not no_proc:
        kinds += ["proc", "slot", "slot"]
    return st.fixed_dictionaries(
        {
            "k": st.sampled_from(kinds),
            "n": st.integers(0, 5),
            "m": st.sampled_from([-1, -1, 0, 1, 2, 3]),
            "t": TIMES,
            "t2": TIMES,
            "a": st.sampled_from([1, 2, 3, 5, 0.5]),
            "rev": st.booleans(),
        }
    )


def event(no_proc: bool = False) -> st.SearchStrategy:
    lf = leaf(no_proc)

    def multi(sub: st.SearchStrategy) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {"k": st.sampled_from(["any", "any", "all"]), "of": st.lists(sub, min_size=1, max_size=4)}
        )

    one = st.one_of(
        multi(lf),
        st.builds(
            lambda m, t: {"k": "any", "of": m + [{"k": "wait", "t": t}]},
            st.lists(lf, min_size=1, max_size=3),
            TIMES,
        ),
    )
    two = multi(st.one_of(lf, lf, one))
    three = multi(st.one_of(lf, two))
    return st.one_of(lf, lf, lf, lf, one, one, two, three)


def resources() -> st.SearchStrategy:
    return st.lists(
        st.fixed_dictionaries(
            {
                "kind": st.sampled_from(sorted(CLASSES)),
                "cap": st.sampled_from([1, 2, 3, 6]),
                "init": st.sampled_from([0, 0, 1, 2, 4]),
            }
        ),
        min_size=1,
        max_size=4,
    )
