"""C33: data tables contain exactly what the simulation recorded."""

from __future__ import annotations

import copy
import math
from dataclasses import dataclass
from typing import Any

from upstage_des.data_utils import (
    DataRecorder,
    create_location_table,
    create_table,
    get_recorded_data,
    record_data,
)
from upstage_des.geography import Spherical
from upstage_des.states import ActiveState

from harness import geo_ref as G
from harness.core import Ctx, Part, Prop
from harness.util import SIM, UP, Violation, close, seqs, st

# ---------------------------------------------------------------------------
# the actors
# ---------------------------------------------------------------------------


@dataclass
class Info:
    a: int
    b: Any


class Growing(ActiveState):
    """Every entry of a dictionary grows at the same rate."""

    def _active(self, instance: UP.Actor) -> dict | None:
        data = self.get_activity_data(instance)
        started = data.get("started_at")
        if started is None:
            return None
        grown = {k: v + (data["now"] - started) * data["rate"] for k, v in data["value"].items()}
        self.__set__(instance, grown)
        instance._set_active_state_data(self.name, started_at=data["now"], rate=data["rate"])
        return grown


class Seen:
    """A recording class: how many values it was given."""

    def __init__(self) -> None:
        self.n = 0

    def __call__(self, time: float, value: Any) -> int:
        self.n += 1
        return self.n


def twice(time: float, value: Any) -> Any:
    return [value, value]


def total(time: float, value: dict) -> float:
    return float(sum(value.values()))


def both(time: float, value: Info) -> Info:
    return Info(value.a + 1, time)


def where(time: float, value: Any) -> tuple:
    return tuple(coords(value))


def coords(v: Any) -> list[float]:
    return [v.lat, v.lon, v.alt] if isinstance(v, UP.GeodeticLocation) else [v.x, v.y, v.z]


class Bare(UP.Actor):
    pass


class Desk(UP.Actor):
    p = UP.State(recording=True)
    dup = UP.State(default=0, recording=True, record_duplicates=True)
    nr = UP.State(default=0)
    opt = UP.State(allow_none_default=True, recording=True)
    optn = UP.State(allow_none_default=True)
    fun = UP.State(default=1, recording=True, recording_functions=[(twice, "two"), (Seen, "seen")])
    det = UP.DetectabilityState(default=True, recording=True)
    detn = UP.DetectabilityState(default=True)


class Keys(UP.Actor):
    d = UP.DictionaryState(recording=True, recording_functions=[(total, "d.all")])
    dx = UP.DictionaryState(recording=True, record_duplicates=True)
    dn = UP.DictionaryState()
    c = UP.DataclassState(valid_types=(Info,), recording=True, recording_functions=[(both, "cc")])
    cn = UP.DataclassState(valid_types=(Info,))


class Tank(UP.Actor):
    lin = UP.LinearChangingState(default=0.0, recording=True)
    lind = UP.LinearChangingState(
        default=1.0, recording=True, record_duplicates=True, recording_functions=[(twice, "two")]
    )
    linn = UP.LinearChangingState(default=2.0)
    sh = UP.SharedLinearChangingState(default=3.0, recording=True)
    shn = UP.SharedLinearChangingState(default=4.0)
    grow = Growing(recording=True)


class Yard(UP.Actor):
    tank = UP.ResourceState(default=UP.SelfMonitoringContainer)
    plain = UP.ResourceState(default=SIM.Store)
    shelf = UP.State()
    multi = UP.MultiStoreState(default=UP.SelfMonitoringContainer)
    comm = UP.CommunicationStore(modes="x")


class Cart(UP.Actor):
    tag = UP.State(default=0, recording=True)
    loc = UP.CartesianLocationChangingState(recording=True)
    locn = UP.CartesianLocationChangingState()
    spot = UP.State(recording=True, recording_functions=[(where, "where")])
    spotn = UP.State()


class Jet(UP.Actor):
    loc = UP.GeodeticLocationChangingState(recording=True)
    locn = UP.GeodeticLocationChangingState()
    spot = UP.State(recording=True, recording_functions=[(where, "where")])
    spotn = UP.State()


KINDS = {k.__name__: k for k in (Bare, Desk, Keys, Tank, Yard, Cart, Jet)}
PLAIN = ["p", "dup", "nr", "opt", "optn", "fun", "det", "detn"]
LINEAR = {"lin": (True, False), "lind": (True, True), "linn": (False, False), "grow": (True, False)}
LINEAR.update(sh=(True, False), shn=(False, False))
MON = {
    "store": UP.SelfMonitoringStore,
    "filter": UP.SelfMonitoringFilterStore,
    "sorted": UP.SelfMonitoringSortedFilterStore,
    "container": UP.SelfMonitoringContainer,
    "reserve": UP.SelfMonitoringReserveContainer,
    "vat": UP.SelfMonitoringContinuousContainer,
}
FAR = 1024.0
SPEED = 2.0  # nautical miles or coordinate units in a unit of time


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------


def plain_value() -> st.SearchStrategy:
    n = st.integers(0, 2)
    return st.one_of(
        n,
        n,
        st.sampled_from(["", "a"]),
        st.lists(n, max_size=2),
        st.dictionaries(st.sampled_from("xy"), n, max_size=2),
        st.fixed_dictionaries({"_": st.just("info"), "a": n, "b": st.one_of(n, st.lists(n, max_size=1))}),
    )


def op() -> st.SearchStrategy:
    i, n = st.integers(0, 3), st.integers(0, 3)
    fixed = st.fixed_dictionaries
    active = fixed(
        {
            "op": st.sampled_from(["start", "stop", "read"]),
            "i": i,
            "s": st.sampled_from(
                ["lin", "lin", "lind", "linn", "sh", "shn", "grow", "grow", "loc", "loc", "loc", "locn"]
            ),
            "rate": st.sampled_from([0.0, 1.0, -2.0, 0.5]),
        }
    )
    trip = fixed(
        {
            "op": st.just("trip"),
            "i": i,
            "s": st.sampled_from(["lin", "lind", "linn", "sh", "shn", "grow", "loc", "loc", "locn"]),
            "rate": st.sampled_from([0.0, 1.0, -2.0, 0.5]),
            "do": st.lists(st.sampled_from(["wait", "read", "wait", "stop", "start"]), max_size=6),
        }
    )
    return st.one_of(
        fixed({"op": st.just("wait"), "t": st.sampled_from([0.25, 0.5, 1.0, 3.0])}),
        trip,
        trip,
        trip,
        active,
        active,
        active,
        fixed({"op": st.just("plain"), "i": i, "s": st.sampled_from(PLAIN), "v": plain_value()}),
        fixed({"op": st.just("plain"), "i": i, "s": st.sampled_from(PLAIN), "v": plain_value()}),
        fixed(
            {
                "op": st.just("key"),
                "i": i,
                "s": st.sampled_from(["d", "dx", "dn", "c", "cn"]),
                "k": st.sampled_from(["a", "b", "x"]),
                "v": n,
                "raw": st.sampled_from([False, False, False, "set", "pop"]),
            }
        ),
        fixed({"op": st.just("put"), "i": i, "s": st.integers(0, 8), "n": st.integers(1, 3)}),
        fixed({"op": st.just("get"), "i": i, "s": st.integers(0, 8), "n": st.integers(1, 3)}),
        fixed(
            {"op": st.just("place"), "i": i, "s": st.sampled_from(["loc", "locn", "spot", "spotn"]), "v": n}
        ),
        fixed({"op": st.just("set"), "i": i, "s": st.sampled_from(sorted(LINEAR)), "v": n}),
        fixed(
            {
                "op": st.just("touch"),
                "i": i,
                "s": st.sampled_from(["p", "dup", "fun"]),
                "v": n,
                "rec": st.booleans(),
            }
        ),
        fixed({"op": st.just("swap"), "i": i, "v": st.one_of(st.none(), st.integers(0, 3))}),
        fixed(
            {
                "op": st.just("note"),
                "v": st.integers(0, 2),
                "copy": st.booleans(),
                "own": st.booleans(),
            }
        ),
        fixed({"op": st.just("scribble"), "v": st.integers(0, 2), "n": n}),
        fixed({"op": st.just("table"), "skip": st.booleans(), "static": st.booleans()}),
        fixed({"op": st.just("new"), "kind": st.sampled_from(sorted(KINDS))}),
    )


def case() -> st.SearchStrategy:
    kind = st.sampled_from([*sorted(KINDS), "Tank", "Cart"])
    return st.fixed_dictionaries(
        {
            "geo": st.booleans(),
            "t0": st.sampled_from([0.0, 0.0, 2.5]),
            "actors": st.one_of(st.lists(kind, max_size=4), st.lists(kind, min_size=3, max_size=5)),
            "loose": st.lists(
                st.tuples(st.sampled_from(sorted(MON)), st.sampled_from([None, "A", "B"])).map(list),
                max_size=3,
            ),
            "shelf": st.one_of(st.none(), st.integers(0, 3)),
            "ops": seqs(op(), 48, 4),
        }
    )


def make(v: Any) -> Any:
    if isinstance(v, dict) and v.get("_") == "info":
        return Info(v["a"], copy.deepcopy(v["b"]))
    return copy.deepcopy(v)


# ---------------------------------------------------------------------------
# what was recorded
# ---------------------------------------------------------------------------


class History:
    """What one recording state or resource notes down."""

    def __init__(self, active: bool = False, dup: bool = False) -> None:
        self.dup, self.active = dup, active
        self.on = False
        self.rows: list[list] = []  # time, value, status
        self.after_signal = False

    def add(self, t: float, v: Any) -> None:
        v = copy.deepcopy(v)
        if self.rows and not self.dup and not self.after_signal and self.rows[-1][:2] == [t, v]:
            return
        status = ("active" if self.on else "inactive") if self.active else None
        self.rows.append([t, v, status])
        self.after_signal = False

    def signal(self, on: bool) -> None:
        self.rows[-1][2] = "activating" if on else "deactivating"
        self.on = on
        self.after_signal = True

    def table(self, name: str) -> list[tuple]:
        out = []
        for t, v, status in self.rows:
            if isinstance(v, Info):
                out += [(f"{name}.a", t, v.a, status), (f"{name}.b", t, v.b, status)]
            elif isinstance(v, dict):
                out += [(f"{name}.{k}", t, x, status) for k, x in v.items()]
            else:
                out.append((name, t, v, status))
        return out


class Place:
    """A location that compares like one, without being the object under test."""

    def __init__(self, *xyz: float) -> None:
        self.xyz = tuple(map(float, xyz))

    def __eq__(self, other: Any) -> bool:
        if isinstance(other, Place):
            return self.xyz == other.xyz
        if isinstance(other, (UP.CartesianLocation, UP.GeodeticLocation)):
            return all(close(a, b, 1e-7, 1e-7) for a, b in zip(self.xyz, coords(other)))
        if isinstance(other, tuple):
            return all(close(a, b, 1e-7, 1e-7) for a, b in zip(self.xyz, other))
        return False

    def __repr__(self) -> str:
        return f"Place{self.xyz}"


class Res:
    """A monitored resource, of which the contents are known."""

    name: str | None = None

    def __init__(self, obj: Any, t: float) -> None:
        self.obj, self.n = obj, 0.0
        self.hist = History()
        self.hist.add(t, 0.0)
        self.counted = isinstance(obj, SIM.Store)

    def put(self, t: float, n: int) -> None:
        if self.counted:
            self.obj.put(object())
            self.n += 1
        elif isinstance(self.obj, UP.ReserveContainer):
            self.obj.put(n)
            self.n += n
        else:
            self.obj.put(n)
            self.n += n
        self.hist.add(t, self.n)

    def get(self, t: float, n: int) -> None:
        if self.counted:
            if self.n < 1:
                return
            self.obj.get()
            self.n -= 1
        elif isinstance(self.obj, UP.ReserveContainer):
            if self.n < n:
                return
            self.obj.reserve(self, n)
            self.obj.take(self)
            self.n -= n
        else:
            if self.n < n:
                return
            self.obj.get(n)
            self.n -= n
        self.hist.add(t, self.n)


class Vat(Res):
    """A continuous container, far from its limits."""

    def __init__(self, obj: Any, t: float) -> None:
        self.obj, self.n, self.rate, self.last = obj, 512.0, 0.0, t
        self.hist = History()
        self.hist.add(t, self.n)
        self.ends: list[tuple[float, float]] = []

    def change(self, t: float, by: float) -> None:
        self.n += self.rate * (t - self.last)
        self.last = t
        self.rate += by
        self.hist.add(t, self.n)

    def settle(self, t: float) -> None:
        self.ends.sort()
        while self.ends and self.ends[0][0] <= t:
            end, by = self.ends.pop(0)
            self.change(end, by)

    def put(self, t: float, n: int) -> None:
        self.obj.put(0.5 * n, 0.5)
        self.flow(t, 0.5 * n, 0.5)

    def get(self, t: float, n: int) -> None:
        self.obj.get(0.5 * n, 0.75)
        self.flow(t, -0.5 * n, 0.75)

    def flow(self, t: float, rate: float, lasts: float) -> None:
        self.change(t, rate)
        self.ends.append((t + lasts, -rate))


class Model:
    def __init__(self, actor: UP.Actor) -> None:
        self.actor, self.name, self.kind = actor, actor.name, type(actor).__name__
        self.hist: dict[str, History] = {}
        self.val: dict[str, Any] = {}  # value of plain and active states
        self.motion: dict[str, tuple] = {}  # (time, rate) of states that are active
        self.res: dict[str, Res] = {}  # monitored things by the name in the table
        self.static: list[tuple[str, Any]] = []  # things that never record
        self.task = UP.Task()

    def record(self, s: str, t: float, v: Any, active: bool = False, dup: bool = False) -> None:
        self.hist.setdefault(s, History(active, dup)).add(t, v)


class World:
    def __init__(self, case: dict, env: SIM.Environment, ctx: Ctx) -> None:
        self.case, self.env, self.ctx = case, env, ctx
        self.models: list[Model] = []
        self.loose: list[Res] = []
        self.count = 0
        self.notes: list[tuple] = []
        self.pool: list[Any] = [[0], {"k": [1]}, Info(1, [2])]
        self.own = DataRecorder()
        for kind, name in case["loose"]:
            if kind == "vat":
                self.loose.append(Vat(MON[kind](env, 1024, 512.0, name=name), env.now))
            else:
                self.loose.append(Res(MON[kind](env, name=name), env.now))
            self.loose[-1].name = name
        for kind in case["actors"]:
            self.new(kind)

    @property
    def now(self) -> float:
        return float(self.env.now)

    # -- building -----------------------------------------------------------

    def place(self, *xyz: float) -> Any:
        return UP.GeodeticLocation(*xyz) if self.case["geo"] else UP.CartesianLocation(*xyz)

    def new(self, kind: str) -> None:
        # all locations of a run are of one type
        if kind in ("Cart", "Jet"):
            kind = "Jet" if self.case["geo"] else "Cart"
        name, t = f"{kind} {self.count}", self.now
        self.count += 1
        cls = KINDS[kind]
        if kind == "Bare":
            m = Model(cls(name=name))
        elif kind == "Desk":
            m = Model(cls(name=name, p=0))
            m.record("p", t, 0)
            m.record("dup", t, 0, dup=True)
            m.val.update(nr=0, p=0, dup=0, fun=1, detn=True)
            m.record("fun", t, 1)
            m.record("two", t, [1, 1])
            m.record("seen", t, 1)
            m.record("det", t, True)
        elif kind == "Keys":
            m = Model(
                cls(name=name, d={"a": 0, "b": 1}, dx={"a": 0}, dn={"a": 1}, c=Info(0, 1), cn=Info(3, 4))
            )
            m.val.update(d={"a": 0, "b": 1}, dx={"a": 0}, dn={"a": 1}, c=Info(0, 1), cn=Info(3, 4))
            m.record("d.a", t, 0)
            m.record("d.b", t, 1)
            m.record("d.all", t, 1.0)
            m.record("dx.a", t, 0, dup=True)
            m.record("c.a", t, 0)
            m.record("c.b", t, 1)
            m.record("cc", t, Info(1, t))
        elif kind == "Tank":
            g = {"x": 1.0, "y": 2.0} if self.count % 2 else {}
            m = Model(cls(name=name, grow=dict(g)))
            m.val.update(lin=0.0, lind=1.0, linn=2.0, sh=3.0, shn=4.0, grow=g)
            for s in LINEAR:
                self.note_active(m, s)
        elif kind == "Yard":
            r = self.case["shelf"]
            r = self.loose[r] if r is not None and r < len(self.loose) else None
            kw: dict[str, Any] = {
                "multi": {"one": {}, "two": {"kind": UP.SelfMonitoringStore}, "raw": {"kind": SIM.Store}}
            }
            m = Model(cls(name=name, shelf=r.obj if r else 5, **kw))
            a = m.actor
            m.res["tank"] = Res(a.tank, t)
            m.res["multi.one"] = Res(a.multi["one"], t)
            m.res["multi.two"] = Res(a.multi["two"], t)
            m.res["comm"] = Res(a.comm, t)
            m.val["shelf"] = r if r else 5
            m.static += [("plain", a.plain), ("multi.raw", a.multi["raw"])]
        else:
            here = self.place(1.0, 2.0, 0.0)
            p = Place(1.0, 2.0, 0.0)
            m = Model(cls(name=name, loc=here, locn=here.copy(), spot=here.copy(), spotn=here.copy()))
            m.val.update(loc=p, locn=p, spotn=p)
            if kind == "Cart":
                m.record("tag", t, 0)
            m.record("loc", t, p, active=True)
            m.record("spot", t, p)
            m.record("where", t, p)
        self.models.append(m)

    # -- changing things ----------------------------------------------------

    def note_active(self, m: Model, s: str) -> None:
        rec, dup = LINEAR.get(s, (s == "loc", False))
        if rec:
            m.record(s, self.now, m.val[s], active=True, dup=dup)
        if s == "lind":
            m.record("two", self.now, [m.val[s]] * 2, dup=True)

    def advance(self, m: Model, s: str) -> bool:
        """Bring an active state up to date. Whether time had passed."""
        if s not in m.motion:
            return False
        since, rate = m.motion[s]
        dt = self.now - since
        if s == "grow":
            m.val[s] = {k: v + dt * rate for k, v in m.val[s].items()}
        elif s in LINEAR:
            m.val[s] = m.val[s] + dt * rate
        else:
            x, y, z = m.val[s].xyz
            step = math.degrees(dt * SPEED * 1852.0 / G.R) if self.case["geo"] else dt * SPEED
            m.val[s] = Place(x + step, y, z)
        m.motion[s] = (self.now, rate)
        return dt > 0

    def read_model(self, m: Model, s: str) -> None:
        if s not in m.motion:
            return
        passed = self.advance(m, s)
        # linear states note themselves on every read, motion only after moving
        if passed or s in LINEAR:
            self.note_active(m, s)

    def settle(self) -> None:
        """Let everything happen that happens now."""
        while self.env.peek() <= self.env.now:
            self.env.step()
        for r in [*self.loose, *(r for m in self.models for r in m.res.values())]:
            if isinstance(r, Vat):
                r.settle(self.now)

    def do(self, o: dict) -> None:
        self.change(o)
        self.settle()

    def change(self, o: dict) -> None:
        k = o["op"]
        if k == "wait":
            self.env.run(until=self.env.now + o["t"])
            return
        if k == "new":
            if len(self.models) < 6:
                self.new(o["kind"])
            return
        if k == "note":
            obj = self.pool[o["v"]]
            how = {"copy": True} if o["copy"] else {}
            if o["own"]:
                self.own.record_data(obj, **how)
            else:
                record_data(obj, **how)
            self.notes.append((self.now, copy.deepcopy(obj) if o["copy"] else obj, o["copy"]))
            return
        if k == "scribble":
            obj = self.pool[o["v"]]
            (obj if o["v"] == 0 else obj["k"] if o["v"] == 1 else obj.b).append(o["n"])
            return
        if k == "table":
            self.check(o["skip"], o["static"])
            return
        if not self.models:
            return
        fit = [m for m in self.models if m.kind in self.suited(o)] or self.models
        m = fit[o["i"] % len(fit)]
        a = m.actor
        if k == "swap" and m.kind == "Yard":
            r = self.loose[o["v"]] if o["v"] is not None and o["v"] < len(self.loose) else None
            a.shelf = r.obj if r else 6
            m.val["shelf"] = r if r else 6
        elif k in ("put", "get") and (m.kind == "Yard" or self.loose):
            res = list(self.loose) + (list(m.res.values()) if m.kind == "Yard" else [])
            r = res[o["s"] % len(res)]
            getattr(r, k)(self.now, o["n"])
        elif k == "plain" and m.kind == "Desk":
            self.set_plain(m, o["s"], make(o["v"]))
        elif k == "touch" and m.kind == "Desk":
            self.touch(m, o["s"], o["v"], o["rec"])
        elif k == "key" and m.kind == "Keys":
            self.set_key(m, o)
        elif k == "place" and m.kind in ("Cart", "Jet") and o["s"] not in m.motion:
            s = o["s"]
            setattr(a, s, self.place(o["v"], 2.0, 0.0))
            p = Place(o["v"], 2.0, 0.0)
            if s in ("loc", "locn"):
                m.val[s] = p
                self.note_active(m, s)
            elif s == "spot":
                m.record("spot", self.now, p)
                m.record("where", self.now, p)
            else:
                m.val["spotn"] = p
        elif k == "set" and m.kind == "Tank":
            s = o["s"]
            if s == "grow":
                if s in m.motion:
                    return
                v: Any = {key: float(o["v"]) for key in "xyz"[: o["v"]]}
            else:
                v = float(o["v"])
            setattr(a, s, copy.deepcopy(v))
            m.val[s] = v
            if s in m.motion:
                m.motion[s] = (self.now, m.motion[s][1])
            self.note_active(m, s)
        elif k == "trip":
            for what in ["start", *o["do"]]:
                self.do({**o, "op": what, "t": 0.5})
        elif k in ("start", "stop", "read"):
            s = o["s"]
            if s not in m.val or (s in LINEAR) != (m.kind == "Tank"):
                return
            getattr(self, k)(m, s, o["rate"])

    @staticmethod
    def suited(o: dict) -> tuple:
        k, s = o["op"], o.get("s")
        if k in ("start", "stop", "read", "place", "trip") and s not in LINEAR:
            return ("Cart", "Jet")
        kinds = {
            "swap": "Yard",
            "put": "Yard",
            "get": "Yard",
            "plain": "Desk",
            "touch": "Desk",
            "key": "Keys",
        }
        return (kinds.get(k, "Tank"),)

    def start(self, m: Model, s: str, rate: float) -> None:
        if s in m.motion:
            return
        if s in LINEAR:
            m.actor.activate_state(state=s, task=m.task, rate=rate)
        else:
            x, y, z = m.val[s].xyz
            far = self.place(x + (30.0 if self.case["geo"] else FAR), y, z)
            m.actor.activate_location_state(state=s, speed=SPEED, waypoints=[far], task=m.task)
        m.motion[s] = (self.now, rate)
        self.note_active(m, s)
        if s in m.hist:
            m.hist[s].signal(True)

    def stop(self, m: Model, s: str, rate: float) -> None:
        if s not in m.motion:
            return
        m.actor.deactivate_state(state=s, task=m.task)
        self.read_model(m, s)
        del m.motion[s]
        if s in m.hist:
            m.hist[s].signal(False)
        self.ctx.label("state deactivated")

    def read(self, m: Model, s: str, rate: float) -> None:
        getattr(m.actor, s)
        self.read_model(m, s)

    def set_plain(self, m: Model, s: str, v: Any) -> None:
        if s in ("det", "detn"):
            v = bool(v)
        setattr(m.actor, s, v)
        m.val[s] = copy.deepcopy(v)
        if s not in ("nr", "optn", "detn"):
            self.note_plain(m, s)

    def note_plain(self, m: Model, s: str) -> None:
        v = m.val[s]
        m.record(s, self.now, v, dup=s == "dup")
        if s == "fun":
            m.record("two", self.now, [v, v])
            n = m.val.get("seen", 1) + 1
            m.val["seen"] = n
            m.record("seen", self.now, n)

    def touch(self, m: Model, s: str, n: int, rec: bool) -> None:
        """Change a value in place, which only record_state notes down."""
        for v in (getattr(m.actor, s), m.val[s]):
            if isinstance(v, list):
                v.append(n)
            elif isinstance(v, dict):
                v["x"] = n
            elif isinstance(v, Info):
                v.a += n
            else:
                return
        self.ctx.label("value changed in place")
        if rec:
            m.actor.record_state(s)
            self.note_plain(m, s)

    def set_key(self, m: Model, o: dict) -> None:
        s, key, v = o["s"], o["k"], o["v"]
        state = getattr(m.actor, s)
        if s in ("c", "cn"):
            key = "a" if key == "x" else key
            setattr(state, key, v)
            setattr(m.val[s], key, v)
            if s == "c":
                m.record(f"c.{key}", self.now, v)
                m.record("cc", self.now, both(self.now, m.val[s]))
            return
        if o["raw"]:
            # changes behind the state's back are not recorded, and lose nothing
            raw = state.raw_object()
            if o["raw"] == "set":
                raw[key] = m.val[s][key] = v
            elif len(raw) > 1:
                raw.pop(key, None)
                m.val[s].pop(key, None)
            self.ctx.label("raw key change")
            return
        state[key] = v
        m.val[s][key] = v
        if s != "dn":
            m.record(f"{s}.{key}", self.now, v, dup=s == "dx")
        if s == "d":
            m.record("d.all", self.now, total(0.0, m.val[s]))

    # -- checking -----------------------------------------------------------

    def state_rows(self, m: Model, skip: bool, static: bool) -> list[tuple]:
        out: list[tuple] = []
        where_is = ("loc", "locn", "spot", "spotn")
        for s, h in m.hist.items():
            if not (skip and s in where_is):
                out += h.table(s)
        for s, r in m.res.items():
            out += r.hist.table(s)
        shelf = m.val.get("shelf")
        if isinstance(shelf, Res):
            out += shelf.hist.table("shelf")
        if static:
            seen = "Last Seen"
            out += [(s, 0.0, v, seen) for s, v in m.static]
            if "shelf" in m.val and not isinstance(shelf, Res):
                out.append(("shelf", 0.0, shelf, seen))
            for s in ("nr", "optn", "detn"):
                if s in m.val:
                    out.append((s, 0.0, m.val[s], seen))
            for s in ("linn", "shn"):
                if s in m.val:
                    self.read_model(m, s)
                    out.append((s, 0.0, m.val[s], seen))
            if "dn" in m.val:
                out += [(f"dn.{key}", 0.0, v, seen) for key, v in m.val["dn"].items()]
                out += [("cn.a", 0.0, m.val["cn"].a, seen), ("cn.b", 0.0, m.val["cn"].b, seen)]
            if "locn" in m.val and not skip:
                self.read_model(m, "locn")
                out += [("locn", 0.0, m.val["locn"], seen), ("spotn", 0.0, m.val["spotn"], seen)]
        return [(m.name, m.kind, *row) for row in out]

    def check(self, skip: bool, static: bool) -> None:
        rows, cols = create_table(skip_locations=skip, save_static=static)
        if cols != ["Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status"]:
            raise Violation(f"columns of the table are {cols}")
        want: list[tuple] = []
        attached = []
        for m in self.models:
            want += self.state_rows(m, skip, static)
            if isinstance(m.val.get("shelf"), Res):
                attached.append(m.val["shelf"])
        for r in self.loose:
            if r in attached:
                continue
            name, kind = f"{r.name}", type(r.obj).__name__
            want += [(name, kind, *row) for row in r.hist.table("Resource")]
        same(f"table at {self.now} (skip_locations={skip}, save_static={static})", rows, want, self.ctx)

    def check_places(self) -> None:
        rows, cols = create_location_table()
        axes = ["Lat", "Lon", "Alt"] if self.case["geo"] else ["X", "Y", "Z"]
        any_place = any(m.kind in ("Cart", "Jet") for m in self.models)
        if (cols[:4], cols[7:]) != (
            ["Entity Name", "Entity Type", "State Name", "Time"],
            ["Activation Status"],
        ):
            raise Violation(f"columns of the location table are {cols}")
        if any_place and cols[4:7] != axes:
            raise Violation(f"columns of the location table are {cols}, for {axes}")
        want = [
            (m.name, m.kind, s, t, v, status)
            for m in self.models
            for s in ("loc", "spot")
            if s in m.hist
            for t, v, status in m.hist[s].rows
        ]
        got = [(*r[:4], tuple(r[4:7]), *r[7:]) for r in rows]
        same(f"location table at {self.now}", got, want, self.ctx)

    def check_notes(self) -> None:
        got = get_recorded_data()
        if len(got) != len(self.notes):
            raise Violation(f"{len(self.notes)} things were recorded, {len(got)} are returned")
        for n, ((t, v), (t1, v1, copied)) in enumerate(zip(got, self.notes)):
            if t != t1 or v != v1 or type(v) is not type(v1):
                raise Violation(f"record {n} is {(t, v)}, recorded {(t1, v1)} (copy={copied})")
            if not copied and v is not v1:
                raise Violation(f"record {n} is not the object that was recorded")


def same(what: str, got: list, want: list, ctx: Ctx) -> None:
    """The same rows: in order for one entity and state, in any order between them."""

    def group(rows: list) -> dict[tuple, list]:
        out: dict[tuple, list] = {}
        for r in rows:
            out.setdefault(tuple(r[:3]), []).append(tuple(r[3:]))
        return out

    g, w = group(got), group(want)
    for key in w:
        if key not in g:
            raise Violation(f"{what}: no rows for {key}, should be {w[key]}")
    for key, rows in g.items():
        if key not in w:
            raise Violation(f"{what}: rows for {key}, which recorded nothing: {rows}")
        exp = w[key]
        if key[2] == "Resource":
            rows, exp = sorted(rows, key=repr), sorted(exp, key=repr)
        if len(rows) != len(exp):
            raise Violation(f"{what}: {key} has rows {rows}, recorded {exp}")
        for r, e in zip(rows, exp):
            if len(r) != len(e) or not all(y == x for x, y in zip(r, e)):
                raise Violation(f"{what}: {key} has row {r}, recorded {e}; all: {rows}, recorded {exp}")
        if len(rows) > 2:
            ctx.nontrivial()
        statuses = {r[-1] for r in rows}
        if {"activating", "deactivating"} <= statuses:
            ctx.label("activation and deactivation in one state")
        if "active" in statuses:
            ctx.label("row while active")
        if key[2] == "Resource":
            ctx.label("unattached resource")
        if len({r[0] for r in rows}) > 2:
            ctx.label("rows at three times or more")


def check(case: dict, ctx: Ctx) -> None:
    with UP.EnvironmentContext(initial_time=case["t0"]) as env:
        UP.add_stage_variable("stage_model", Spherical)
        UP.add_stage_variable("distance_units", "nmi")
        UP.add_stage_variable("altitude_units", "ft")
        world = World(case, env, ctx)
        for o in case["ops"]:
            world.do(o)
        world.check_places()
        for skip in (True, False):
            for static in (False, True):
                world.check(skip, static)
        world.check(True, False)  # making tables records nothing
        world.check_places()
        world.check_notes()
        ctx.label(f"{len(world.models)} actors")
        for m in world.models:
            ctx.label(f"kind {m.kind}")
        if len(world.notes) > 1:
            ctx.label("custom records")


PROP = Prop(
    "C33",
    "one entity and state with three rows or more in a table",
    [Part("tables", case, check, quick=12000, thorough=150000)],
    [
        "all locations of a run are of one type, as create_location_table assumes",
        "continuous containers stay far from their limits (C21 and C22 take them there)",
    ],
)
