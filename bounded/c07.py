from .lib import *
from . import classes as C
from .c06 import gcontainer
import array
import collections
import datetime
import decimal
import fractions
import io
import json
import queue
import re
import threading
import uuid
import warnings
import jsonpickle
import jsonpickle.pickler


class WithState:
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"v": self.v, 1: 2}

    def __setstate__(self, s):
        self.v = s["v"]


class WithStateOther(WithState):
    def __getstate__(self):
        return (self.v, {1: {2: 3}})


class NewArgs:
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (1, (2, {3: b"x"}))


class NewArgsEx(NewArgs):
    def __getnewargs_ex__(self):
        return ((1, (2,)), {"k": {4, 5}})


class Red:
    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return (Red, (self.v,), {"x": {1: 2}, "y": (1, b"z")})


class Red5(dict):
    def __reduce__(self):
        return (dict, (), None, None, iter([(1, (2, 3))]))


class Raises:
    def __getstate__(self):
        raise ValueError("no")


class Gen:
    def __iter__(self):
        return iter((1, 2))


class IterObj:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n <= 0:
            raise StopIteration
        self.n -= 1
        return (self.n, b"i")


class Props:
    def __init__(self):
        self.a = (1,)

    @property
    def p(self):
        return {1: b"x"}


class OddKeys:
    pass


class ListLike:
    def __getitem__(self, i):
        raise IndexError

    def append(self, x):
        pass


def gany(r, depth=2):
    def v():
        return gany(r, depth - 1)
    k = r.randrange(46)
    if depth <= 0 or k < 6:
        return gatom(r)
    n = r.choice([0, 1, 2, 3])
    if k < 8: return [v() for _ in range(n)]
    if k < 10: return tuple(v() for _ in range(n))
    if k < 14:
        return {r.choice([lambda: gstr(r), lambda: gint(r), lambda: None, lambda: gfloat(r), lambda: (1, gstr(r)), lambda: C.Key(1), lambda: b"k",
                          lambda: r.choice(TAGS), lambda: True, lambda: C.Color.RED, lambda: float("inf"), lambda: C.Plain, lambda: decimal.Decimal("1.5")])(): v()
                for _ in range(n)}
    if k < 16: return {ghashable(r) for _ in range(n)}
    if k < 19: return gcontainer(r, 1)
    if k < 22:
        o = r.choice([C.Plain, C.Slots, C.Excl, C.SlotsChild, OddKeys, C.Falsy])
        o = o.__new__(o)
        for name in ("a", "b"):
            if r.random() < 0.7:
                setattr(o, name, v())
        if isinstance(o, OddKeys):
            o.__dict__.update({1: v(), None: 2, (1, 2): 3}) if False else None
        return o
    return r.choice([
        lambda: WithState(v()), lambda: WithStateOther(v()), NewArgs, NewArgsEx, lambda: Red(v()), Red5, lambda: C.Frozen(v(), v()),
        lambda: C.DC(v(), v()), lambda: r.choice(list(C.Color)), lambda: C.Fl.A | C.Fl.B, lambda: C.IColor.TWO,
        lambda: C.Plain, lambda: int, lambda: C.function, lambda: len, lambda: json, lambda: C.Outer.Inner, lambda: print, lambda: json.dumps,
        lambda: "x".upper, lambda: C.Plain().__init__ if False else str.upper, lambda: type(None), lambda: type,
        lambda: iter([1, (2,)]), lambda: (x for x in (1, (2, b"3"))), lambda: IterObj(n), Gen, lambda: range(3), lambda: map(str, [1]), lambda: zip([1], [2]), lambda: enumerate("ab"),
        lambda: datetime.datetime(2020, 1, 2, 3, 4, 5), lambda: datetime.date(1, 1, 1), lambda: datetime.time(1), lambda: datetime.timedelta(1),
        lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), lambda: decimal.Decimal("1.1"), lambda: fractions.Fraction(1, 3), lambda: 1 + 2j,
        lambda: uuid.UUID(int=1), lambda: re.compile("a", re.I), lambda: re.compile(b"a"), lambda: array.array("d", [1.5]), lambda: array.array("b", [1]),
        lambda: queue.Queue(), lambda: threading.Lock(), lambda: threading.RLock() if False else 1, lambda: collections.Counter("aab"), lambda: ValueError("x", (1,)), lambda: C.MyError(b"z"),
        lambda: object(), lambda: Ellipsis, lambda: NotImplemented, lambda: slice(1, 2), lambda: memoryview(b"x") if False else None, lambda: io.StringIO("x") if False else 0,
        Props, ListLike, lambda: float("nan"), lambda: frozenset([1, (2,)]), lambda: {1: 2}.keys() if False else 1,
        lambda: staticmethod(len) if False else 1, lambda: property(len) if False else 1, lambda: 10**400, lambda: "\ud800",
    ])()


OPTS = {
    "unpicklable": [True, False], "make_refs": [True, False], "keys": [True, False], "max_depth": [None, 0, 1, 2, 3], "use_base85": [True, False],
    "max_iter": [None, 0, 1, 2], "warn": [False, True], "use_decimal": [False], "numeric_keys": [False], "fail_safe": [None, lambda e: "failed"],
}


def gopts(r):
    return {k: r.choice(v) for k, v in OPTS.items() if r.random() < 0.5}


def check(x, o):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        j = jsonpickle.pickler.Pickler(**o).flatten(x)
        jsonable(j)
        text = json.dumps(j)
    return j, text


@suite("C07", 5000)
def any_graph(r, t):
    x = gany(r, 3)
    o = gopts(r)
    t.note((x, o))
    check(x, o)


@suite("C07", 600)
def encode_text(r, t):
    """encode() gives text that the json module reads back to the flattened
    structure."""
    x = gany(r, 2)
    o = gopts(r)
    t.note((x, o))
    if any(isinstance(x, k) for k in (IterObj,)) or "generator" in repr(x) or "iterator" in repr(x) or " object at" in repr(x) or "IterObj" in repr(x):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = jsonpickle.encode(x, **o)
    if not isinstance(s, str):
        raise Bad(f"encode returned {type(s).__name__}")
    back = json.loads(s)
    try:
        j, text = check(x, o)
    except Bad:
        raise
    if "nan" in repr(j) or "object at 0x" in text or "object at 0x" in s:
        return
    if json.loads(text) != back:
        raise Bad("encoded text differs from the flattened structure", text=s, flat=j)


@fixed("C07")
def each_kind():
    """Every kind of value under every single option, alone and shared, and
    nested in each kind of container."""
    import random
    out = []
    kinds = [None, True, 1, 1.5, "s", b"b", bytearray(b"b"), [1], (1,), {1}, {"a": 1}, {1: 2, None: 3, (1,): 4, b"x": 5, 1.5: 6, True: 7}, C.Plain, len, json,
             C.function, C.Color.RED, C.NT3(1, (2,), {3: 4}), collections.OrderedDict([(1, 2), ((3,), 4)]), collections.defaultdict(list, {1: [2]}), collections.defaultdict(C.factory_list, {(1,): 2}),
             C.MyDict({1: 2}), C.MyList([(1,)]), C.MySet([1]), collections.deque([(1,)]), C.Frozen(1, (2,)), datetime.datetime(2020, 1, 1), decimal.Decimal(1), 1j, re.compile("x"),
             uuid.UUID(int=3), array.array("i", [1]), queue.Queue(), WithState((1,)), WithStateOther(b"x"), NewArgs(), NewArgsEx(), Red((1,)), Red5(), ValueError(1), range(3),
             object(), frozenset([1]), C.Slots.__new__(C.Slots), C.MyDefault(int, {2: 3}), TAGS, dict.fromkeys(TAGS, (1,)), {"json://x": 1}, Ellipsis, int.__add__, C.Outer.Inner.Innermost]
    wraps = [lambda v: v, lambda v: [v, v], lambda v: (v, [v]), lambda v: {"k": v, 2: v}, lambda v: attr(v), lambda v: collections.OrderedDict(x=v), lambda v: collections.defaultdict(list, y=v),
             lambda v: C.NT1(v), lambda v: C.MyList([v]), lambda v: Red(v), lambda v: WithStateOther(v)]

    def attr(v):
        o = C.Plain.__new__(C.Plain)
        o.v = v
        return o
    single = [{}] + [{k: v} for k, vs in OPTS.items() for v in vs]
    for i, x in enumerate(kinds):
        def thunk(x=x):
            for w in wraps:
                for o in single:
                    check(w(x), o)
        out.append((f"kind {i} {short(x, 40)}", thunk))

    def odd_attr_names():
        o = C.Plain.__new__(C.Plain)
        o.__dict__[1] = 2
        o.__dict__["s"] = (1,)
        for opt in single:
            check([o], opt)
    out.append(("non-string attribute names", odd_attr_names))

    def cyc():
        a = []
        a.append(a)
        d = {}
        d["d"] = [d, (d,)]
        o = C.Plain.__new__(C.Plain)
        o.o, o.l = o, [1, {"x": 2}]
        m = C.MyDict()
        m["m"], m.m = m, m
        for x in (a, d, o, m, [a, d, o, m]):
            for opt in single:
                if opt != {"unpicklable": False} or x is o:      # cycles need references, or make_refs=False
                    check(x, opt)
                    check(x, dict(opt, make_refs=False))
    out.append(("cycles", cyc))

    def classes_as_keys():
        for k in (int, C.Plain, len, json, C.Color.RED, float("nan"), decimal.Decimal(1), object(), C.NT1(1), frozenset([1])):
            for opt in single:
                check({k: (1,)}, opt)
                check(C.MyDict({k: (1,)}), opt)
                check(collections.defaultdict(list, {k: [1]}), opt)
    out.append(("odd keys", classes_as_keys))

    def unset():
        for v in ((x for x in (1, b"2")), iter([1, (2,)]), IterObj(3), map(len, ["a"]), open(__file__) if False else None):
            for opt in single:
                check([v, v], opt)
                check(v, opt)
    out.append(("iterators", unset))
    return out
