from .lib import *
from . import classes as C
import jsonpickle
from jsonpickle.unpickler import _Proxy


class RDict(dict):
    pass


class Reduced:
    """Rebuilt by a factory, its state follows."""

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        return (Reduced, (self.tag,), self.__dict__)


class Stateful:
    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, s):
        self.__dict__.update(s)


class Private:
    """Private slots; the state is kept under mangled names."""
    __slots__ = ("__p", "__q")


class StateNoSet:
    def __getstate__(self):
        return dict(self.__dict__)


class Paired:
    """The state is a pair of dicts, applied without a setter."""

    def __getstate__(self):
        d = dict(self.__dict__)
        half = {k: d.pop(k) for k in list(d)[::2]}
        return (d or None, half)


KINDS = ["paired", "list", "dict", "plain", "slots", "mydict", "ordered", "default", "reduced", "stateful", "stateless", "frozen", "dc", "mylist", "private"]


def make(k):
    if k == "list": return []
    if k == "dict": return {}
    if k == "plain": return C.Plain.__new__(C.Plain)
    if k == "slots": return C.SlotsChild.__new__(C.SlotsChild)
    if k == "mydict": return C.MyDict()
    if k == "private": return Private()
    if k == "mylist": return C.MyList()
    if k == "ordered": return collections.OrderedDict()
    if k == "default": return collections.defaultdict(list)
    if k == "reduced": return Reduced(1)
    if k == "stateful": return Stateful()
    if k == "stateless": return StateNoSet()
    if k == "paired": return Paired()
    if k == "frozen": return C.Frozen.__new__(C.Frozen)
    if k == "dc": return C.DC.__new__(C.DC)


def link(r, a, b, i):
    """Let a refer to b."""
    if r and isinstance(a, (C.MyDict, C.MyList)) and r.random() < 0.4:
        setattr(a, f"n{i}", b)
    elif isinstance(a, list):
        a.append(b)
    elif isinstance(a, dict):
        a[f"k{i}"] = b
    elif isinstance(a, C.Slots):
        setattr(a, "abcde"[i % 5], b)
    elif isinstance(a, Private):
        setattr(a, f"_Private__{'pq'[i % 2]}", b)
    elif isinstance(a, C.Frozen):
        object.__setattr__(a, "ab"[i % 2], b)
    elif isinstance(a, C.DC):
        setattr(a, "abc"[i % 3], b)
    else:
        setattr(a, f"n{i}", b)


def build(r, kinds, n, extra_atoms=True):
    objs = [make(r.choice(kinds)) for _ in range(n)]
    m = r.randint(n, 3 * n)
    for i in range(m):
        a = r.choice(objs)
        b = r.choice(objs)
        if r.random() < 0.25 and extra_atoms:
            b = gatom(r)
        link(r, a, b, i)
        if r.random() < 0.3:
            link(r, objs[r.randrange(len(objs))], objs[i % n], i + 100)
    return objs


def no_placeholder(x):
    seen = set()
    keep = []
    stack = [(x, "$")]
    while stack:
        v, p = stack.pop()
        if isinstance(v, _Proxy):
            raise Bad(f"placeholder left at {p}")
        if id(v) in seen:
            continue
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, dict):
            stack += [(y, f"{p}[{short(k, 20)}]") for k, y in v.items()]
        elif isinstance(v, (list, tuple, set)):
            stack += [(y, f"{p}[{i}]") for i, y in enumerate(v)]
        stack += [(y, f"{p}.{k}") for k, y in attrs_of(v).items()]


def trip(x, **kw):
    y = jsonpickle.decode(jsonpickle.encode(x, **kw), keys=kw.get("keys", False))
    no_placeholder(y)
    same(x, y, ids=True)
    return y


def desc(objs):
    ids = {id(o): i for i, o in enumerate(objs)}

    def nm(v):
        return f"#{ids[id(v)]}" if id(v) in ids else short(v, 20)
    out = []
    for i, o in enumerate(objs):
        kids = list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else {}
        kids = [nm(v) for v in kids] if isinstance(kids, list) else {k: nm(v) for k, v in kids.items()}
        out.append(f"#{i}={type(o).__name__}{kids}{ {k: nm(v) for k, v in attrs_of(o).items()} }")
    return "; ".join(out)


@suite("C02", 1500)
def simple_graph(r, t):
    objs = build(r, ["list", "dict", "plain"], r.randint(1, 5))
    t.note(desc(objs))
    x = r.choice([objs[0], objs, {"a": objs[0], "b": objs[-1]}, [objs[-1], objs[0]]])
    trip(x)


@suite("C02", 1500)
def mixed_graph(r, t):
    objs = build(r, ["list", "dict", "plain", "slots", "mydict", "mylist", "frozen", "dc", "stateful"], r.randint(1, 6))
    t.note(desc(objs))
    trip(r.choice([objs[0], objs, {"a": objs[0], "b": objs[-1]}]), keys=r.random() < 0.5)


@suite("C02", 1000)
def acyclic_with_special(r, t):
    """Sharing (no cycles) through every kind of node; each node refers to
    later ones only."""
    n = r.randint(2, 7)
    objs = [make(r.choice(KINDS)) for _ in range(n)]
    for i, a in enumerate(objs[:-1]):
        for j in range(r.randint(1, 3)):
            link(r, a, r.choice(objs[i + 1:]), i * 10 + j)
        if r.random() < 0.3:
            link(r, a, gatom(r), i * 10 + 5)
    t.note(desc(objs))
    trip(r.choice([objs[0], objs, objs[::-1], {"a": objs[-1], "b": objs[0]}]), keys=r.random() < 0.5)


@suite("C02", 600)
def shared_inside_immutable(r, t):
    """Shared objects reached through tuples, sets of ids and dict keys, no cycles."""
    leaf = [make(r.choice(["list", "dict", "plain", "slots", "mydict", "ordered"])) for _ in range(r.randint(1, 3))]
    for i, o in enumerate(leaf):
        link(r, o, i, 0)

    def g(d):
        k = r.randrange(5)
        if d == 0 or k == 0:
            return r.choice(leaf)
        if k == 1: return tuple(g(d - 1) for _ in range(r.randint(0, 3)))
        if k == 2: return [g(d - 1) for _ in range(r.randint(0, 3))]
        if k == 3: return {gkey(r): g(d - 1) for _ in range(r.randint(0, 3))}
        o = make(r.choice(["plain", "mydict", "reduced"]))
        link(r, o, g(d - 1), 1)
        return o
    x = [g(3), g(2), leaf]
    t.note(x)
    trip(x)


@fixed("C02")
def shapes():
    out = []

    def add(name, f, **kw):
        def thunk():
            trip(f(), **kw)
        out.append((name, thunk))

    def attribute_dict():
        """The attribute dict of a dict subclass is an object of its own."""
        for kw in ({}, {"keys": True}):
            for c in (C.MyDict, C.MyOrdered):
                for shape in (lambda d: [vars(d), d], lambda d: [d, vars(d)], lambda d: {"v": [vars(d)], "d": d}, lambda d: [d, {"v": vars(d)}, d]):
                    d = c(a=1)
                    d.x, d.me = [2], d
                    x = shape(d)
                    y = trip(x, **kw)
                    flat = lambda z: [w for v in (z.values() if isinstance(z, dict) else z) for w in (v if type(v) is list else v.values() if type(v) is dict and "v" in v else [v])]
                    ds = [v for v in flat(y) if type(v) is c]
                    vs = [v for v in flat(y) if type(v) is dict]
                    if not ds or not vs or any(vars(v) is not vs[0] for v in ds) or set(vs[0]) != {"x", "me"} or vs[0]["me"] is not ds[0]:
                        raise Bad("the attribute dict of a dict subclass is not the same object", result=y)
    out.append(("attribute dict", attribute_dict))

    def self_list():
        a = []
        a.append(a)
        return a

    def self_dict():
        a = {}
        a["me"] = a
        return a

    def self_obj():
        a = C.Plain.__new__(C.Plain)
        a.me = a
        return a

    def parent_child():
        a, b = C.Plain.__new__(C.Plain), C.Plain.__new__(C.Plain)
        a.child, b.parent = b, a
        a.all = [a, b, [a]]
        return [b, a, {"x": a, "y": b}]

    def two_lists():
        a, b = [], []
        a += [b, b]
        b += [a, 1]
        return a
    for f in (self_list, self_dict, self_obj, parent_child, two_lists):
        for keys in (False, True):
            add(f"{f.__name__} keys={keys}", f, keys=keys)
    for k1 in KINDS:
        for k2 in KINDS:
            def pair(k1=k1, k2=k2):
                a, b = make(k1), make(k2)
                link(None, a, b, 1)
                link(None, b, "v", 2)
                return [a, b, a, [b], {"k": b, "a": a}]
            add(f"shared {k1}->{k2}", pair)

            def pair2(k1=k1, k2=k2):
                a, b, c = make(k1), make(k2), [1]
                link(None, a, c, 0)
                link(None, b, c, 0)
                return {"first": a, "second": b, "third": c, "again": [b, a, c]}
            add(f"siblings {k1},{k2}", pair2)
    cyc = ["list", "dict", "plain", "slots", "mydict", "mylist", "frozen", "dc", "stateful", "stateless", "reduced", "private"]
    for k1 in cyc:
        for k2 in cyc:
            if "reduced" in (k1, k2) and "stateful" in (k1, k2):
                # the setter is given a state that still holds a placeholder
                continue
            def ring(k1=k1, k2=k2):
                a, b = make(k1), make(k2)
                link(None, a, b, 1)
                link(None, b, a, 1)
                link(None, b, b, 0)
                return [a, b, [a]]
            add(f"cycle {k1}<->{k2}", ring)
            add(f"cycle {k1}<->{k2} keys", ring, keys=True)
    return out


@suite("C02", 300)
def temporaries(r, t):
    """Objects that exist only while being encoded get fresh numbers."""
    n = r.randint(2, 30)

    class Gen:
        pass
    x = C.Plain.__new__(C.Plain)
    shared = [1]
    x.items_ = [Stateful() for _ in range(n)]
    for i, s in enumerate(x.items_):
        s.i = i
        s.shared = shared
        s.own = [i]
    x.last = shared
    t.note((n,))
    trip(x)


class NewArgs:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.given = (a, k)
        return o

    def __getnewargs__(self):
        return self.given[0]


class NewArgsEx(NewArgs):
    def __getnewargs_ex__(self):
        return self.given


class NewArgsExOnly(NewArgs):
    __getnewargs__ = None

    def __getnewargs_ex__(self):
        return self.given

    def __getstate__(self):
        return {"s": [1]}

    def __setstate__(self, s):
        self.s = s


class EmptyState:
    def __getstate__(self):
        return None


class EmptySlots:
    __slots__ = ()


class Text(str):
    pass


class Number(int):
    pass


class Real(float):
    pass


class Raw(bytes):
    pass


class ByName:
    def __reduce__(self):
        return "bounded.c02.BY_NAME"


BY_NAME = ByName()


class ReducedEmpty:
    def __reduce__(self):
        return (ReducedEmpty, (), {}, iter([]), iter([]))


class ReducedItems(list):
    def __reduce__(self):
        return (ReducedItems, (), None, iter([[1], (2,)]), iter([]))


def specials():
    import datetime, decimal, array, threading, queue, time, fractions, pathlib, types, itertools, ipaddress, operator, functools
    return [NewArgs(1), NewArgs(), NewArgsEx([1], k=[2]), NewArgsEx(1), NewArgsEx(), NewArgsExOnly(), NewArgsExOnly([1]), EmptyState(), EmptySlots(), Text("a"),
            Number(3), Real(1.5), Raw(b"a"), ReducedEmpty(), ReducedItems(), array.array("i", [1, 2]), threading.Lock(), queue.Queue(), time.localtime(0),
            fractions.Fraction(1, 2), pathlib.PurePosixPath("/a/b"), types.SimpleNamespace(a=[1]), C.MyError("a", [1]), ValueError([1]), KeyError("k"),
            C.MyDict(a=[1]), C.MyDict(), C.MyList([1, [2]]), C.MyList(), C.MySet({1}), C.MyTuple((1, [2])), C.MyTuple(), C.MyOrdered(a=[1]), C.MyDefault(list, a=[1]),
            C.MyDeque([1, [2]]), C.MyUserDict(a=[1]), C.MyUserList([1]), C.NTTyped(1, [2]), C.MyFrozenSet({1}), C.SlotDict(a=[1]), C.Falsy(), C.Empty(),
            C.CallableObj(), C.WithMeta(), C.Generic(), C.IColor(1), C.Fl(3), C.Color, bytearray(b"x"), (), [], {}, set(), frozenset(), None, 1.5, "text",
            collections.OrderedDict(a=[1]), collections.OrderedDict(), collections.defaultdict(list, a=[1]), collections.defaultdict(None), collections.ChainMap({"a": [1]}),
            collections.UserString("a"), datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), datetime.time(1, 2), datetime.timezone(datetime.timedelta(hours=1)),
            ipaddress.ip_address("1.2.3.4"), slice(1, 2), Ellipsis, NotImplemented, type(None), object(), memoryview, decimal.Context, C.SlotsGrand(), C.SlotsPrivate(),
            operator.itemgetter(1), functools.partial(C.function, 1), iter([1, [2]]), itertools.count(3), property, C.DCS(1, [2])]


def holders():
    import types, functools
    return [lambda v: collections.defaultdict(C.factory_list, a=v), lambda v: C.MyDefault(C.factory_list, a=v), lambda v: collections.defaultdict(list, a=v),
            lambda v: C.MyDict(a=v), lambda v: C.MyList([v]), lambda v: C.NT3(v, 1, v), lambda v: collections.OrderedDict(a=v), lambda v: collections.deque([v]),
            lambda v: types.SimpleNamespace(a=v), lambda v: NewArgs(v), lambda v: NewArgsEx(v, k=v), lambda v: NewArgsEx(v), lambda v: ValueError(v), lambda v: functools.partial(C.function, v),
            lambda v: iter([v]), lambda v: (v,), lambda v: [v], lambda v: {"a": v}, lambda v: C.DCS(1, v), lambda v: C.MyUserDict(a=v), lambda v: C.MyUserList([v]),
            lambda v: collections.defaultdict(lambda: v, a=1), lambda v: C.NTTyped(1, v), lambda v: C.MyTuple((v,)), lambda v: C.MyOrdered(a=v), lambda v: C.MyDeque([v])]


@suite("C02", 600)
def held_before(r, t):
    """An object first met inside a container of some kind and then outside it."""
    sh = [make("list"), make("plain"), make("dict"), make("slots")]
    x = []
    for _ in range(r.randint(1, 4)):
        x.append(r.choice(holders())(r.choice(sh)))
        x.append(r.choice(sh))
        x.append(r.choice(sh))
    t.note([short(v, 30) for v in x])
    text = jsonpickle.encode(x)
    y = jsonpickle.decode(text)
    pos = [i for i, a in enumerate(x) if any(a is s for s in sh)]
    for i in pos:
        if type(y[i]) is not type(x[i]):
            raise Bad(f"position {i} decoded to {short(y[i], 40)}", text=text)
        for j in pos:
            if i < j and (x[i] is x[j]) != (y[i] is y[j]):
                raise Bad(f"identity of positions {i} and {j} differs", text=text)
    for i in range(0, len(x), 3):
        if isinstance(x[i], dict) and isinstance(x[i].get("a"), (list, dict)):
            for j in pos:
                if (x[i]["a"] is x[j]) != (y[i]["a"] is y[j]):
                    raise Bad(f"identity of item of {i} and position {j} differs", text=text)


@suite("C02", 600)
def anything_between(r, t):
    """Whatever comes before it, a repeated object decodes to one object."""
    pool = specials()
    sh = [make("list"), make("plain"), make("dict"), make("slots")]
    x = []
    for _ in range(r.randint(1, 4)):
        x.append(r.choice(pool))
        x.append(r.choice(sh))
        x.append(r.choice(sh))
    if r.random() < 0.3:
        x = {f"k{i}": v for i, v in enumerate(x)}
    t.note([short(v, 30) for v in (x if isinstance(x, list) else x.values())])
    y = jsonpickle.decode(jsonpickle.encode(x, max_iter=3))
    if isinstance(x, dict):
        if list(x) != list(y):
            raise Bad("items lost", text=jsonpickle.encode(x))
        x, y = list(x.values()), list(y.values())
    for i, a in enumerate(x):
        for j, b in enumerate(x):
            if any(a is s for s in sh) and type(y[i]) is not type(a):
                raise Bad(f"position {i} decoded to {short(y[i], 40)}", text=jsonpickle.encode(x, max_iter=3))
            if i < j and any(a is s for s in sh) and any(b is s for s in sh) and (a is b) != (y[i] is y[j]):
                raise Bad(f"identity of positions {i} and {j} differs", text=jsonpickle.encode(x, max_iter=3))


@suite("C02", 200)
def handler_values_between(r, t):
    """Values written by handlers and references to classes or functions do
    not shift the numbering."""
    import datetime, uuid, re, decimal
    pool = [datetime.datetime(2020, 1, 2), datetime.date(1, 1, 1), uuid.UUID(int=5), re.compile("a"), C.Plain, C.function, len, list,
            decimal.Decimal("1.5"), datetime.timedelta(1), C.Color.RED, 1 + 2j, range(3), frozenset([1]), b"x", (1, [2]), {1, 2},
            collections.deque([1]), C.NT3(1, [2], 3), collections.Counter("aab"), datetime.timezone.utc, math, C.Outer.Inner]
    sh = [make("list"), make("plain"), make("dict")]
    x = []
    for _ in range(r.randint(2, 10)):
        x.append(r.choice(pool))
        x.append(r.choice(sh))
    t.note([short(v, 30) for v in x])
    y = jsonpickle.decode(jsonpickle.encode(x))
    no_placeholder(y)
    for i, a in enumerate(x):
        for j, b in enumerate(x):
            if i < j and isinstance(a, (list, dict, C.Plain)) and type(a) is type(b):
                if (a is b) != (y[i] is y[j]):
                    raise Bad(f"identity of positions {i} and {j} differs", text=jsonpickle.encode(x))


class Held:
    """Written and rebuilt by a handler of its own."""


class HeldHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        data["inner"] = self.context.flatten(obj.inner, reset=False)
        return data

    def restore(self, data):
        o = Held()
        o.inner = self.context.restore(data["inner"], reset=False)
        return o


@suite("C02", 300)
def cycles_through_handlers(r, t):
    """An object written by a handler, referred to from what it holds."""
    jsonpickle.handlers.register(Held, HeldHandler)
    try:
        hs = [Held() for _ in range(r.randint(1, 3))]
        objs = [make(k) for k in r.choices(["list", "dict", "plain", "mydict", "mylist"], k=r.randint(1, 4))]
        for h in hs:
            h.inner = r.choice(objs)
        for i, o in enumerate(objs):
            for _ in range(r.randint(0, 3)):
                v = r.choice(hs + objs + [i])
                if isinstance(o, list): o.append(v)
                elif isinstance(o, dict): o[f"k{len(o)}"] = v
                else: setattr(o, f"a{len(o.__dict__)}", v)
        x = [r.choice(hs), r.choice(objs), hs[0]]
        t.note(jsonpickle.encode(x))
        y = trip(x)
        no_placeholder(y)
        same(x, y)
    finally:
        jsonpickle.handlers.unregister(Held)
