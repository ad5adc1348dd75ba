from .lib import *
from . import classes as C
import array
import collections
import datetime
import decimal
import fractions
import json
import queue
import re
import threading
import uuid
import jsonpickle

MARKS = set(TAGS)


def key(k):
    return "null" if k is None else k if isinstance(k, str) else repr(k)


def want(x):
    """What the property says the decoded text looks like."""
    if x is None or type(x) in (bool, int, float, str):
        return x
    if isinstance(x, datetime.datetime) or isinstance(x, (datetime.date, datetime.time)):
        return x.isoformat()
    if isinstance(x, uuid.UUID):
        return {"hex": x.hex}
    if isinstance(x, re.Pattern):
        return {"pattern": x.pattern, "flags": x.flags}
    if isinstance(x, array.array):
        return {"typecode": x.typecode, "values": list(x)}
    if isinstance(x, set):
        return [want(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [want(v) for v in list.__iter__(x) if True] if isinstance(x, list) else [want(v) for v in x]
    if isinstance(x, dict):
        return {key(k): want(v) for k, v in x.items()}
    if isinstance(x, WithState):
        return want(x.__getstate__())
    return {k: want(v) for k, v in attrs_of(x).items() if k not in getattr(x, "_jsonpickle_exclude", ())}


class WithState:
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"state": self.v}


class WithRed:
    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return (WithRed, (self.v,), {"hidden": 1})


def gval(r, depth=3):
    def v():
        return gval(r, depth - 1)
    if depth <= 0 or r.random() < 0.2:
        return gatom(r, True)
    n = r.choice([0, 1, 2, 3])
    k = r.randrange(24)
    if k < 3: return [v() for _ in range(n)]
    if k < 5: return tuple(v() for _ in range(n))
    if k < 8: return {r.choice([lambda: gkey(r), lambda: gint(r), lambda: None, lambda: (1, gint(r))])(): v() for _ in range(n)}
    if k == 8: return {x for x in (ghashable(r) for _ in range(n)) if not has_bytes(x)}
    if k in (9, 10, 11):
        c = r.choice([C.Plain, C.Other, C.Excl, C.ExclChild, C.Node, C.Outer.Inner, C.Falsy, C.Key, WithRed])
        o = c.__new__(c)
        for a in r.sample(["a", "b", "secret", "cache", "x", "_p"], r.randint(0, 4)):
            setattr(o, a, v())
        return o
    if k == 12:
        o = C.Slots.__new__(C.Slots)
        for a in r.sample("abc", r.randint(1, 3)):
            setattr(o, a, v())
        return o
    if k == 13: return C.Frozen(v(), v())
    if k == 14: return r.choice([C.DC, C.DCS])(v(), v())
    if k == 15: return C.NT3(v(), v(), v())
    if k == 16:
        o = C.MyList([v() for _ in range(n)])
        return o
    if k == 17: return C.MyDict({gkey(r): v() for _ in range(n)})
    if k == 18: return collections.OrderedDict((gkey(r), v()) for _ in range(n))
    if k == 19: return r.choice([C.MySet([1, "a"]), collections.Counter("aab"), C.NT1(v()), C.NTTyped(v(), v()), C.MyTuple((v(),))])
    if k == 20: return WithState(v())
    if k == 21: return r.choice([datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), datetime.date(1999, 12, 31), datetime.time(1, 2)])
    if k == 22: return r.choice([uuid.UUID(int=5), re.compile("a.b", re.I), array.array("d", [1.5, 2]), array.array("i", [1])])
    return gatom(r, True)


def nomarks(j, path="$"):
    stack = [(j, path)]
    while stack:
        j, path = stack.pop()
        if isinstance(j, dict):
            for k, v in j.items():
                if k in MARKS or k.startswith("json://"):
                    raise Bad(f"marker {k} at {path}")
                stack.append((v, f"{path}.{k}"))
        elif isinstance(j, list):
            for i, v in enumerate(j):
                stack.append((v, f"{path}[{i}]"))


def check(x, **o):
    s = jsonpickle.encode(x, unpicklable=False, **o)
    j = json.loads(s)
    w = want(x)
    nomarks(j)
    same(w, j, ids=False)
    y = jsonpickle.decode(s)
    same(j, y, ids=False)


def opts(r):
    o = {}
    if r.random() < 0.3: o["make_refs"] = r.choice([True, False])
    if r.random() < 0.2: o["warn"] = False
    if r.random() < 0.2: o["use_base85"] = True
    return o


@suite("C08", 4000)
def simplified(r, t):
    x = gval(r)
    o = opts(r)
    if o.get("make_refs") is False:
        o.pop("make_refs")
    t.note((x, o))
    check(x, **o)


@suite("C08", 800)
def shared(r, t):
    """Objects that occur several times appear in full each time."""
    pool = [gval(r, 1) for _ in range(4)]
    x = [r.choice([lambda: r.choice(pool), lambda: (r.choice(pool),), lambda: {"k": r.choice(pool)}, lambda: C.Frozen(r.choice(pool), r.choice(pool)),
                   lambda: C.NT1(r.choice(pool)), lambda: C.MyList([r.choice(pool)])])() for _ in range(r.randint(2, 6))]
    t.note(x)
    check(x)


@fixed("C08")
def details():
    out = []

    def case(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    def attr(v):
        o = C.Plain.__new__(C.Plain)
        o.v = v
        o.w = [v]
        return o
    vals = [None, 1, "x", [], (), (1, (2,)), set(), {1}, {}, {"a": (1,)}, {1: {2: (3,)}}, attr(1), attr((1,)), attr(attr({1, 2})), C.NT3(1, (2,), [3]), C.NT0(),
            C.MyList([(1,)]), C.MyDict(a=(1,)), C.MySet([1]), collections.OrderedDict(b=1, a=(2,)), datetime.datetime(2020, 1, 1), datetime.date(2020, 1, 1), datetime.time(2),
            uuid.UUID(int=1), re.compile("x"), array.array("i", [1]), WithState((1,)), WithState({"a": {1}}), C.Frozen((1,)), C.DC((1,)), C.DCS((1,)), WithRed((1,)), collections.Counter("a")]
    for i, v in enumerate(vals):
        def thunk(v=v):
            for w in (v, [v], (v, v), {"k": v, "l": [v]}, attr(v), C.NT1(v), C.MyList([v]), C.MyDict(z=v), collections.OrderedDict(z=v), C.Frozen(v, (v,)), WithState(v) if v else 1):
                check(w)
                check([w, w], use_base85=True)
        out.append((f"value {i} {short(v, 30)}", thunk))

    @case("attributes of container subclasses are dropped, items are not")
    def _():
        m = C.MyList([1, 2])
        m.a = (1,)
        check([m, m])
        d = C.MyDict(x=1)
        d.a = (1,)
        check({"d": d})

    @case("instance pointing to itself")
    def _():
        o = attr(1)
        o.me = o
        j = json.loads(jsonpickle.encode([o], unpicklable=False))
        if j != [{"v": 1, "w": [1], "me": None}]:
            raise Bad("self link is not null", result=j)

    @case("timedelta, decimal, fraction, range, queue, lock")
    def _():
        lk = threading.Lock()
        for x, w in ((datetime.timedelta(1, 2, 3), [1, 2, 3]), (decimal.Decimal("1.5"), ["1.5"]), (fractions.Fraction(1, 3), {"_numerator": 1, "_denominator": 3}), (range(1, 5, 2), [1, 5, 2]),
                     (queue.Queue(), {}), (lk, {"locked": False})):
            for wrap in (lambda v: v, lambda v: [v], lambda v: {"a": v}):
                s = jsonpickle.encode(wrap(x), unpicklable=False)
                if json.loads(s) != wrap(w):
                    raise Bad(f"{x!r} became {s}")
                nomarks(json.loads(s))
                if jsonpickle.decode(s) != wrap(w):
                    raise Bad("decoding the text differs from the text")

    @case("functions and modules")
    def _():
        for x in (C.function, len, json):
            nomarks(json.loads(jsonpickle.encode([x], unpicklable=False)))
    return out
