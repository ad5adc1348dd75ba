from .lib import *
from . import classes as C
from .c02 import no_placeholder
import collections
import functools
import jsonpickle


def trip(x, keys=False, **kw):
    s = jsonpickle.encode(x, keys=keys, **kw)
    y = jsonpickle.decode(s, keys=keys)
    no_placeholder(y)
    return y


def attrs(r, o):
    for n in r.sample(["a", "b", "extra", "_p", "name", "count_"], r.choice([0, 0, 1, 2, 3])):
        setattr(o, n, gplain(r, 1))
    return o


def gcontainer(r, depth=2):
    """A container object with random content."""
    def v():
        if depth > 0 and r.random() < 0.35:
            return gcontainer(r, depth - 1)
        return gplain(r, 1)
    n = r.choice([0, 1, 2, 3, 4])
    k = r.randrange(19)
    if k == 0: return attrs(r, C.MyDict({gkey(r): v() for _ in range(n)}))
    if k == 1: return attrs(r, C.MyList(v() for _ in range(n)))
    if k == 2: return attrs(r, C.MySet(ghashable(r) for _ in range(n)))
    if k == 3: return C.NT3(v(), v(), v())
    if k == 4: return C.NTTyped(v(), v())
    if k == 5: return collections.OrderedDict((gkey(r), v()) for _ in range(n))
    if k == 6: return collections.defaultdict(r.choice([list, dict, int, None, C.Plain, C.MyDict, str, set]), {gkey(r): v() for _ in range(n)})
    if k == 7: return collections.deque([v() for _ in range(n)], r.choice([None, 4, 10]))
    if k == 8: return collections.Counter({gkey(r): r.randint(-3, 5) for _ in range(n)})
    if k == 9: return C.NT1(v())
    if k == 10: return frozenset(ghashable(r) for _ in range(n))
    if k == 11: return C.MyOrdered((gkey(r), v()) for _ in range(n))
    if k == 12: return C.NTChild(v(), v(), v())
    if k == 13: return collections.defaultdict(functools.partial(collections.defaultdict, int) if False else dict, {gkey(r): collections.defaultdict(int, {gkey(r): 1})})
    if k == 14: return collections.UserDict({gkey(r): v() for _ in range(n)})
    if k == 15: return collections.UserList([v() for _ in range(n)])
    if k == 16: return collections.deque([v() for _ in range(n)])
    if k == 17: return collections.ChainMap({gkey(r): v() for _ in range(n)}, {gkey(r): v()})
    return attrs(r, C.MyDefault(r.choice([list, int]), {gkey(r): v() for _ in range(n)}))


@suite("C06", 3000)
def containers(r, t):
    x = gcontainer(r)
    t.note((type(x).__name__, x, getattr(x, "__dict__", None)))
    w = r.randrange(3)
    x = [x, {"k": x}, x][w]
    same(x, trip(x), ids=False)


@suite("C06", 800)
def with_keys(r, t):
    """The same with keys=True and keys that need it."""
    n = r.randint(0, 4)
    ks = [r.choice([lambda: gint(r), lambda: (1, gstr(r)), lambda: gkey(r), lambda: None, lambda: gstr(r), lambda: C.Key(gint(r))])() for _ in range(n)]
    items = [(k, gplain(r, 1)) for k in ks]
    x = r.choice([lambda: attrs(r, C.MyDict(items)), lambda: collections.OrderedDict(items),
                  lambda: collections.defaultdict(r.choice([list, int, C.Plain]), items), lambda: attrs(r, C.MyDefault(list, items))])()
    t.note((type(x).__name__, items, getattr(x, "__dict__", None)))
    same([x], trip([x], keys=True), ids=False, order=False)


@suite("C06", 300)
def encoded_looking_keys(r, t):
    """With key encoding off, keys that look encoded are plain text."""
    x = r.choice([lambda: attrs(r, C.MyDict()), collections.OrderedDict, C.MyOrdered, lambda: collections.defaultdict(list), lambda: C.MyDefault(int)])()
    for _ in range(r.randint(1, 4)):
        x[r.choice(["json://", "json://1", "json://null", "json://[1]", "json://x", "json://{}", "json://\"a\""]) + r.choice(["", "", gkey(r)])] = gplain(r, 1)
    t.note(x)
    same([x], trip([x]), ids=False)


@suite("C06", 1200)
def shared_parts(r, t):
    """Items and attributes of several containers are taken from one pool."""
    pool = [[1], {"b": 2}, C.MyDict(c=3), C.MyList([4])]
    made = []
    for _ in range(r.randint(1, 4)):
        vs = [r.choice(pool + made) if r.random() < 0.8 else gplain(r, 1) for _ in range(r.randint(0, 3))]
        x = r.choice([lambda: C.MyList(vs), lambda: C.MyDict((f"k{i}", v) for i, v in enumerate(vs)), lambda: C.NT3(*(vs + [None] * 3)[:3]),
                      lambda: collections.OrderedDict((f"k{i}", v) for i, v in enumerate(vs)), lambda: collections.defaultdict(list, {f"k{i}": v for i, v in enumerate(vs)}),
                      lambda: C.MyDefault(r.choice([list, int]), {f"k{i}": v for i, v in enumerate(vs)}),
                      lambda: C.MyOrdered((f"k{i}", v) for i, v in enumerate(vs)), lambda: C.MySet([1, "a"]), lambda: collections.deque(vs)])()
        if isinstance(x, (C.MyList, C.MyDict, C.MySet, C.MyDefault)):
            for n in "abc"[:r.randint(0, 3)]:
                setattr(x, n, r.choice(pool + made + [[5]]))
        made.append(x)
    x = made + r.sample(pool, 2)
    t.note(x)
    same(x, trip(x, keys=r.random() < 0.3), ids=True)


@suite("C06", 500)
def factories(r, t):
    """Default factories still work after decoding, at every level."""
    f = r.choice([list, dict, int, str, set, float, C.Plain, C.MyList, None, C.MyDict, tuple, bool])
    x = collections.defaultdict(f)
    for _ in range(r.randint(0, 3)):
        x[gkey(r)] = r.choice([1, [2], collections.defaultdict(list), collections.defaultdict(C.MyDict, {"a": C.MyDict(b=1)})])
    t.note((f, x))
    keys = r.random() < 0.4
    y = trip(r.choice([x, x]), keys=keys)
    same(x, y, ids=False)
    if y.default_factory is not x.default_factory:
        raise Bad("default_factory differs", result=y.default_factory)
    if f is None:
        try:
            y["no such key at all"]
        except KeyError:
            pass
        else:
            raise Bad("missing key did not raise")
    elif type(y["no such key at all"]) is not f:
        raise Bad("missing key gave another value")
    for k in x:
        if isinstance(x[k], collections.defaultdict) and type(y[k]["missing"]) is not x[k].default_factory:
            raise Bad("nested default factory differs")


@fixed("C06")
def details():
    out = []

    def case(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    @case("empty containers")
    def _():
        for x in (C.MyDict(), C.MyList(), C.MySet(), C.NT0(), collections.OrderedDict(), collections.deque(), frozenset(), collections.Counter(),
                  C.MyOrdered(), collections.defaultdict(int), collections.UserDict(), collections.UserList(), C.MyDefault(list), C.MyFrozenSet()):
            for w in (x, [x, 1], {"a": x}):
                same(w, trip(w), ids=False)

    @case("order of OrderedDict")
    def _():
        for ks in (["b", "a", "c"], ["z", "y", "x", "w"], ["10", "9", "1"]):
            x = collections.OrderedDict((k, i) for i, k in enumerate(ks))
            y = trip(x)
            if list(y.items()) != list(x.items()):
                raise Bad("order differs", result=y)
            x.move_to_end(ks[0])
            y = trip({"q": x})["q"]
            if list(y.items()) != list(x.items()):
                raise Bad("order differs after move", result=y)

    @case("order of dict and dict subclass")
    def _():
        for x in ({"b": 1, "a": 2}, C.MyDict([("b", 1), ("a", 2), ("0", 3)])):
            if list(trip(x).items()) != list(x.items()):
                raise Bad("order differs")

    @case("items and attributes with the same name")
    def _():
        d = C.MyDict(a=1, b=[2], __x=4)
        d.a, d.b, d.c = "attr", ["attr"], None
        y = trip(d)
        same(d, y, ids=False)
        z = C.MyList([1, [2], "x"])
        z.a = {"a": [1]}
        same(z, trip(z), ids=False)
        s = C.MySet([1, "a"])
        s.a = [1]
        same(s, trip([s]), ids=False) if False else same([s], trip([s]), ids=False)

    @case("a dict subclass whose attributes equal its items")
    def _():
        for attrs in ({"a": 1}, {"a": [1], "b": None}, {}):
            d = C.MyDict(attrs)
            vars(d).update(attrs)
            y = trip([d])
            same([d], y, ids=False)
            if vars(y[0]) != attrs:
                raise Bad("attributes differ", result=vars(y[0]))

    @case("a dict subclass whose constructor sets attributes")
    def _():
        d = C.MyDictInit({"k": 1})
        d.made = 5
        y = trip(d)
        same(d, y, ids=False)

    @case("sharing between container subclasses")
    def _():
        a = C.MyList([1])
        d = C.MyDict(x=a)
        d.attr = a
        o = collections.OrderedDict([("p", d), ("q", a), ("r", d)])
        y = trip([o, d, a])
        if not (y[0]["p"] is y[1] and y[0]["q"] is y[2] and y[1]["x"] is y[2] and y[1].attr is y[2] and y[0]["r"] is y[1]):
            raise Bad("sharing lost")
        dd = collections.defaultdict(list, {"a": a, "b": a})
        y = trip([dd, dd, a])
        if not (y[0] is y[1] and y[0]["a"] is y[2] and y[0]["b"] is y[2]):
            raise Bad("sharing lost in defaultdict")

    @case("cyclic container subclasses")
    def _():
        d = C.MyDict()
        d["me"] = d
        y = trip(d)
        if type(y) is not C.MyDict or y["me"] is not y:
            raise Bad("cycle through item lost")
        d = C.MyDict(a=1)
        d.me = d
        y = trip(d)
        if y.me is not y or y["a"] != 1:
            raise Bad("cycle through attribute lost")
        z = C.MyList([1])
        z.me = z
        y = trip(z)
        if y.me is not y or list(y) != [1]:
            raise Bad("cycle through list attribute lost")
        dd = collections.defaultdict(dict)
        dd["k"]["up"] = dd
        y = trip(dd)
        if y["k"]["up"] is not y:
            raise Bad("cycle through defaultdict lost")

    @case("named tuple fields")
    def _():
        x = C.NT3([1], {"a": (1,)}, None)
        y = trip([x])[0]
        if type(y) is not C.NT3 or y.x != [1] or y.y != {"a": (1,)} or y.z is not None:
            raise Bad("fields differ", result=y)
        a = [1]
        y = trip([C.NT3(a, a, (a,)), a])
        if not (y[0].x is y[1] and y[0].y is y[1] and y[0].z[0] is y[1]):
            raise Bad("sharing lost")

    @case("deque and counter")
    def _():
        x = collections.deque([1, [2], (3,)], maxlen=3)
        same(x, trip(x), ids=False)
        c = collections.Counter("abracadabra")
        y = trip(c)
        if type(y) is not collections.Counter or y != c or y["zz"] != 0:
            raise Bad("counter differs", result=y)

    @case("tuple subclass in a set and dict views")
    def _():
        x = {C.NT1(1), C.NT1("a")}
        same(x, trip(x), ids=False)

    @case("factories of defaultdict subclass instances as values")
    def _():
        x = {"a": collections.defaultdict(lambda: 0) if False else collections.defaultdict(int, a=1), "b": collections.defaultdict(C.factory_list)}
        y = trip(x)
        # a function factory is restored as one that makes equal fresh values
        if y["b"]["q"] != [7] or y["b"]["q"] is y["b"]["r"] or y["b"]["r"] != [7] or y["a"]["new"] != 0:
            raise Bad("factory differs")
        dd = collections.defaultdict(C.factory_list, {"default_factory": 1, "z": 2})
        y = trip([dd, dd])
        if y[0] is not y[1] or dict(y[0]) != dict(dd) or y[0]["new"] != [7]:
            raise Bad("item named default_factory or the factory lost", result=y)
        dd = collections.defaultdict(list, {"default_factory": 1, "z": 2})
        y = trip(dd)
        if dict(y) != dict(dd) or y.default_factory is not list:
            raise Bad("item named default_factory lost", result=y)
    return out
