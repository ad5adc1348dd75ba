from .lib import *
from . import classes as C
import array
import calendar
import datetime
import decimal
import enum
import fractions
import ipaddress
import itertools
import pathlib
import queue
import re
import string
import threading
import time
import types
import uuid
import zoneinfo
import jsonpickle

D = datetime


def trip(x, **kw):
    return jsonpickle.decode(jsonpickle.encode(x, **kw), keys=kw.get("keys", False))


def gtz(r):
    return r.choice([None, None, D.timezone.utc, D.timezone(D.timedelta(hours=r.randint(-23, 23), minutes=r.choice([0, 30, 45]))), D.timezone(D.timedelta(hours=1), "NAME"),
                     zoneinfo.ZoneInfo("UTC") if have_tz("UTC") else None, zoneinfo.ZoneInfo("Europe/Berlin") if have_tz("Europe/Berlin") else None, D.timezone(D.timedelta(seconds=r.randint(-80000, 80000)))])


def have_tz(n):
    try:
        zoneinfo.ZoneInfo(n)
        return True
    except Exception:
        return False


def gdt(r):
    return D.datetime(r.choice([1, 1969, 1970, 2000, 2020, 2024, 9999]), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60),
                      r.choice([0, 1, 999999, r.randrange(10**6)]), tzinfo=gtz(r), fold=r.choice([0, 0, 1]))


def gvalue(r):
    k = r.randrange(22)
    if k < 4: return gdt(r)
    if k == 4: return D.date(r.choice([1, 1900, 2000, 9999]), r.randint(1, 12), r.randint(1, 28))
    if k == 5: return D.time(r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 5, 999999]), tzinfo=r.choice([None, D.timezone.utc, D.timezone(D.timedelta(hours=-3))]), fold=r.choice([0, 1]))
    if k == 6: return D.timedelta(r.choice([0, -1, 1, 999999999, -999999999, r.randint(-1000, 1000)]), r.randrange(86400), r.randrange(10**6)) if r.random() < 0.9 else D.timedelta.max
    if k == 7: return uuid.UUID(int=r.choice([0, 1, 2**128 - 1, r.getrandbits(128)]))
    if k == 8:
        tc = r.choice("bBhHiIlLqQfd")
        if tc in "fd": return array.array(tc, [r.choice([0.0, 1.5, -2.25, 1e10]) for _ in range(r.randint(0, 5))])
        return array.array(tc, [r.randint(0, 100) for _ in range(r.randint(0, 6))])
    if k == 9: return array.array("u" if False else "w" if hasattr(array, "x") else "u", "aé")
    if k == 10: return decimal.Decimal(r.choice(["0", "-0", "1.10", "1E+5", "-1.5E-300", "Infinity", "-Infinity", "123456789.123456789123456789", str(r.random())]))
    if k == 11: return fractions.Fraction(r.randint(-10**12, 10**12), r.randint(1, 10**9))
    if k == 12: return complex(gfloat(r), gfloat(r))
    if k == 13: return r.choice(list(C.Color) + list(C.IColor) + [C.Fl.A, C.Fl.B, C.Fl.A | C.Fl.B, C.Fl(0), SColor.X, IF.P | IF.Q, IF.P])
    if k == 14: return range(r.randint(-5, 5), r.randint(-5, 50), r.choice([1, 2, -1, 7]))
    if k == 15: return collections.deque([gplain(r, 1) for _ in range(r.randint(0, 4))], r.choice([None, 5, 10]))
    if k == 16: return frozenset(ghashable(r) for _ in range(r.randint(0, 4)))
    if k == 17: return gtz(r)
    if k == 18: return r.choice([ipaddress.ip_address("1.2.3.4"), ipaddress.ip_address("::1"), ipaddress.ip_network("10.0.0.0/8"), pathlib.PurePosixPath("/a/b"), pathlib.PosixPath("x/y"), types.SimpleNamespace(a=1, b=[2]),
                                 slice(1, 2, 3), slice(None), Ellipsis if False else 1, D.timezone.utc, time.gmtime(0), collections.Counter("abca")])
    if k == 19: return r.choice([ValueError("a"), KeyError("k", 1), C.MyError([1]), OSError(2, "m")]) if False else 1
    return gdt(r).date() if k == 20 else gdt(r).timetz() if False else D.date.today()


class SColor(str, enum.Enum):
    X = "x"


class IF(enum.IntFlag):
    P = 1
    Q = 2


def eq(a, b, path="$"):
    if type(a) is not type(b):
        raise Bad(f"type {type(a).__name__} became {type(b).__name__}", original=a, result=b)
    if isinstance(a, (D.datetime, D.time)):
        if a.replace(tzinfo=None) != b.replace(tzinfo=None) or a.fold != b.fold or (a.tzinfo is None) != (b.tzinfo is None):
            raise Bad("value differs", original=a, result=b)
        if a.tzinfo is not None and (a.tzinfo != b.tzinfo or a.utcoffset() != b.utcoffset() or a.tzname() != b.tzname()):
            raise Bad("timezone differs", original=a, result=b)
    elif isinstance(a, decimal.Decimal):
        if a.as_tuple() != b.as_tuple():
            raise Bad("value differs", original=a, result=b)
    elif isinstance(a, array.array):
        if a.typecode != b.typecode or a != b or a.tobytes() != b.tobytes():
            raise Bad("array differs", original=a, result=b)
    elif isinstance(a, enum.Enum):
        if a is not b and a != b:
            raise Bad("enum member differs", original=a, result=b)
    elif isinstance(a, complex):
        if repr(a) != repr(b):
            raise Bad("value differs", original=a, result=b)
    elif isinstance(a, re.Pattern):
        if a.pattern != b.pattern or a.flags != b.flags or type(a.pattern) is not type(b.pattern):
            raise Bad("pattern differs", original=a, result=b)
    elif isinstance(a, (collections.deque, frozenset, types.SimpleNamespace)):
        same(a, b, ids=False)
    elif isinstance(a, D.timezone):
        if a != b or a.tzname(None) != b.tzname(None):
            raise Bad("timezone differs", original=a, result=b)
    elif a != b:
        raise Bad("value differs", original=a, result=b)


@suite("C18", 4000)
def values(r, t):
    x = gvalue(r)
    t.note(x)
    kw = r.choice([{}, {}, {"keys": True}, {"use_base85": True}, {"make_refs": False}, {"warn": True}])
    w = r.randrange(5)
    if w == 0: eq(x, trip(x, **kw))
    elif w == 1: eq(x, trip([x, 1], **kw)[0])
    elif w == 2: eq(x, trip({"k": x}, **kw)["k"])
    elif w == 3:
        o = C.Plain.__new__(C.Plain)
        o.v = x
        eq(x, trip(o, **kw).v)
    else:
        y = trip([x, (x,), {"z": x}], **kw)
        eq(x, y[0]), eq(x, y[1][0]), eq(x, y[2]["z"])


FLAGS = [0, re.I, re.M, re.S, re.X, re.A, re.I | re.M, re.S | re.X | re.I, re.A | re.I]
PATTERNS = ["", "a", "a.b", "^x+$", "(?P<n>\\d+)", "[é日]", "\\\\", "\"", "(?i)abc", "a|b", "\n", "\t#c", "(?s).x", "\\bfoo\\b"]


@suite("C18", 800)
def regexes(r, t):
    p, f = r.choice(PATTERNS), r.choice(FLAGS)
    if "(?i)" in p or "(?s)" in p:
        f &= ~re.A
    if r.random() < 0.4:
        p = p.encode("latin-1", "replace") if r.random() < 0.5 else bytes([r.randrange(128, 256)]) + b"x+"
        f &= ~re.A
    try:
        x = re.compile(p, f)
    except (re.error, ValueError):
        return
    t.note(x)
    y = trip(r.choice([[x], [x, x]]), use_base85=r.random() < 0.3)
    for v in y:
        eq(x, v)


@fixed("C18")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    vals = [D.datetime.min, D.datetime.max, D.date.min, D.date.max, D.time.min, D.time.max, D.timedelta.min, D.timedelta.max, D.timedelta(0), D.timezone.min, D.timezone.max, D.timezone.utc,
            D.datetime(2020, 10, 25, 2, 30, fold=1), D.datetime(2020, 1, 1, tzinfo=D.timezone.utc), D.time(1, tzinfo=D.timezone.utc, fold=1), uuid.uuid5(uuid.NAMESPACE_DNS, "x"), uuid.UUID(int=0),
            decimal.Decimal("NaN") if False else decimal.Decimal("0E-10"), fractions.Fraction(0), complex(0, -0.0), range(0), range(10**20), frozenset(), collections.deque(maxlen=0)]
    vals += [array.array(t) for t in array.typecodes if t != "u"] + [array.array(t, [1, 2, 3]) for t in "bBhHiIlLqQfd"]
    vals += [array.array("b", [-128, 127]), array.array("Q", [2**64 - 1]), array.array("q", [-2**63]), array.array("d", [float("inf"), 5e-324]), array.array("H", [65535])]
    vals += [D.datetime(2020, 1, 1, 1, 2, 3, us) for us in (0, 1, 999999)] + [D.date(y, 12, 31) for y in (1, 99, 255, 256, 999, 1000, 9999)] + [D.datetime(y, 1, 1) for y in (1, 128, 255, 256, 2047, 2048)]
    if have_tz("America/New_York"):
        z = zoneinfo.ZoneInfo("America/New_York")
        vals += [D.datetime(2020, 11, 1, 1, 30, tzinfo=z, fold=f) for f in (0, 1)] + [z]
    for i, v in enumerate(vals):
        def thunk(v=v):
            for kw in ({}, {"keys": True}, {"use_base85": True}, {"make_refs": False}):
                eq(v, trip(v, **kw))
                y = trip([v, {"a": v}, (v, v)], **kw)
                for q in (y[0], y[1]["a"], y[2][0], y[2][1]):
                    eq(v, q)
            same_count = trip([[1], v, [2], v])
            if same_count[0] != [1] or same_count[2] != [2]:
                raise Bad("neighbours differ")
        out.append((f"value {i} {short(v, 40)}", thunk))

    @case("references after handled values")
    def _():
        a = [1]
        for v in (D.datetime(2020, 1, 1), D.datetime(2020, 1, 1, tzinfo=D.timezone.utc), D.date(2020, 1, 1), uuid.UUID(int=1), re.compile("a"), re.compile(b"a"), array.array("i", [1]), array.array("d", [1.5, 2]), queue.Queue(), threading.Lock(),
                  decimal.Decimal(1), fractions.Fraction(1, 2), 1j, C.Color.RED, range(3), collections.deque([[1]]), D.timedelta(1), frozenset([1])):
            x = [v, a, {"k": [2]}, a, v]
            x.append(x[2])
            y = trip(x)
            if y[1] is not y[3] or y[2] is not y[5] or y[1] != [1] or y[2] != {"k": [2]}:
                raise Bad(f"references after {v!r} are wrong", result=y)
            eq(v, y[4]) if not isinstance(v, (queue.Queue, type(threading.Lock()))) else None

    @case("shared timezone objects and repeated values")
    def _():
        z = D.timezone(D.timedelta(hours=2), "Z")
        x = [D.datetime(2020, 1, 1, tzinfo=z), D.datetime(2021, 1, 1, tzinfo=z), z, D.time(3, tzinfo=z)]
        y = trip(x)
        for a, b in zip(x, y):
            eq(a, b)

    @case("locks and queues")
    def _():
        for held in (False, True):
            lk = threading.Lock()
            if held:
                lk.acquire()
            y = trip([lk])[0]
            if type(y) is not type(lk) or y.locked() != held or lk.locked() != held:
                raise Bad("lock state differs")
            if held:
                y.release()
        q = queue.Queue()
        q.put(1)
        y = trip({"q": q})["q"]
        if type(y) is not queue.Queue or not y.empty() or q.qsize() != 1:
            raise Bad("queue differs")
        y.put(3)
        if y.get() != 3:
            raise Bad("queue unusable")

    @case("subclasses of the handled types")
    def _():
        for c, a in ((MyDT, (2020, 1, 2, 3)), (MyDate, (2020, 1, 2))):
            x = c(*a)
            eq(x, trip([x])[0])
        x = MyDT(2020, 1, 1, tzinfo=D.timezone.utc)
        eq(x, trip(x))

    @case("text files become null")
    def _():
        with open(__file__) as f:
            if trip([f, 1]) != [None, 1]:
                raise Bad("file did not become null")

    @case("as dictionary keys")
    def _():
        for v in (D.date(2020, 1, 1), uuid.UUID(int=1), decimal.Decimal("1.5"), fractions.Fraction(1, 3), D.timedelta(1), C.Color.RED, frozenset([1, 2]), range(3), D.datetime(2020, 1, 1)):
            y = trip({v: [1]}, keys=True)
            (k,) = y
            eq(v, k)
    return out


class MyDT(datetime.datetime):
    pass


class MyDate(datetime.date):
    pass
