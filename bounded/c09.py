from .lib import *
from . import classes as C
import collections
import datetime
import itertools
import json
import jsonpickle


def build(x, n):
    """The graph that has every value n levels down replaced by its repr."""
    memo, keep = {}, []

    def go(x, d):
        if x is None or type(x) in (bool, int, float, str, bytes, bytearray) or isinstance(x, C.Color):
            return x
        if d == n:
            return repr(x)
        t = type(x)
        if t is tuple:
            return tuple(go(v, d + 1) for v in x)
        if t is set:
            return {go(v, d + 1) for v in x}
        if id(x) in memo:
            return memo[id(x)]
        keep.append(x)
        if t is list:
            y = memo[id(x)] = []
            for v in x:
                y.append(go(v, d + 1))
        elif t is dict:
            y = memo[id(x)] = {}
            for k, v in x.items():
                y[k] = go(v, d + 1)
        elif t is C.MyList:
            y = memo[id(x)] = C.MyList()
            y.__dict__.update((k, go(v, d + 1)) for k, v in x.__dict__.items())
            y.extend(go(v, d + 1) for v in x)
        elif t is collections.OrderedDict or t is C.MyDict:
            y = memo[id(x)] = t()
            for k, v in x.items():
                y[k] = go(v, d + 1)
            y.__dict__.update((k, go(v, d + 1)) for k, v in x.__dict__.items()) if t is C.MyDict else None
        else:
            y = memo[id(x)] = t.__new__(t)
            for k, v in attrs_of(x).items():
                object.__setattr__(y, k, go(v, d + 1))
        return y
    return go(x, 0)


class Rep:
    def __repr__(self):
        return "Rep()"


def gtree(r, depth, pool=None):
    def v():
        return gtree(r, depth - 1, pool)
    if pool and r.random() < 0.25:
        return r.choice(pool)
    if depth <= 0 or r.random() < 0.15:
        a = gatom(r)
        return a
    n = r.choice([0, 1, 1, 2, 3])
    k = r.randrange(11)
    if k < 3: x = [v() for _ in range(n)]
    elif k < 5: x = {gkey(r): v() for _ in range(n)}
    elif k == 5: return tuple(v() for _ in range(n))
    elif k == 6: return {ghashable(r) for _ in range(n)}
    elif k == 7:
        x = C.MyList([v() for _ in range(n)])
        if n: x.a = v()
    elif k == 8: x = C.MyDict({gkey(r): v() for _ in range(n)})
    elif k == 9:
        x = C.Slots.__new__(C.Slots)
        x.a, x.b = v(), v()
    else:
        x = Rep()
        for a in "ab"[:n]:
            setattr(x, a, v())
    if pool is not None:
        pool.append(x)
    return x


def has_set_repr(x):
    return False


@suite("C09", 3000)
def depth_trees(r, t):
    x = gtree(r, r.randint(0, 6))
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 100])
    t.note((n, x))
    s = jsonpickle.encode(x, max_depth=n)
    w = build(x, n)
    same(w, jsonpickle.decode(s), ids=False)
    if same_depth(x) < n:
        if s != jsonpickle.encode(x):
            raise Bad("a limit that is never reached changes the text")


def same_depth(x, d=0):
    """Number of levels below the root."""
    best = d
    stack = [(x, d)]
    while stack:
        x, d = stack.pop()
        best = max(best, d)
        if isinstance(x, (list, tuple, set)):
            stack += [(v, d + 1) for v in x]
        if isinstance(x, dict):
            stack += [(v, d + 1) for v in x.values()]
        if not isinstance(x, (type,)):
            stack += [(v, d + 1) for v in attrs_of(x).values()]
    return best


@suite("C09", 1500)
def depth_graphs(r, t):
    """With shared objects: exactly the positions n levels down differ."""
    pool = []
    x = [gtree(r, 3, pool) for _ in range(r.randint(1, 4))]
    n = r.choice([1, 2, 3, 4])
    t.note((n, x))
    if any(isinstance(p, (C.MyList, C.MyDict)) for p in pool):
        same(build(x, n), jsonpickle.decode(jsonpickle.encode(x, max_depth=n)), ids=False)
    else:
        same(build(x, n), jsonpickle.decode(jsonpickle.encode(x, max_depth=n)))


def gen(log, items):
    for i in items:
        log.append(i)
        yield i


@suite("C09", 1000)
def iterations(r, t):
    items = [gplain(r, 1) for _ in range(r.choice([0, 1, 2, 3, 5, 10, 40]))]
    n = r.choice([None, 0, 1, 2, 3, 4, 5, 9, 10, 11, 39, 40, 41])
    t.note((n, items))
    log = []
    g = gen(log, items)
    wrap = r.randrange(4)
    x = [g, [1, g], {"k": g}, (g,)][wrap]
    o = {} if n is None and r.random() < 0.5 else {"max_iter": n}
    s = jsonpickle.encode(x, **o)
    k = len(items) if n is None else min(n, len(items))
    if len(log) != k:
        raise Bad(f"{len(log)} items consumed instead of {k}")
    y = jsonpickle.decode(s)
    y = [lambda y: y, lambda y: y[1], lambda y: y["k"], lambda y: y[0]][wrap](y)
    if list.__name__ and not hasattr(y, "__next__"):
        raise Bad(f"decoded to {type(y).__name__}")
    same(items[:k], list(y), ids=False)
    rest = list(g)
    if rest != items[k:] and repr(rest) != repr(items[k:]):
        raise Bad("the remaining items of the generator are wrong", rest=rest)


def fresh(r, n):
    """Values nobody else holds, made one after the other."""
    k = r.choice(["str", "bytes", "bytes", "tuple", "list", "mixed", "decimal", "float"])
    for i in range(n):
        v = k if k != "mixed" else ["str", "bytes", "tuple", "list"][i % 4]
        if v == "str": yield "s" + str(i)
        elif v == "bytes": yield b"b%d" % i
        elif v == "tuple": yield (i, "t")
        elif v == "list": yield [i]
        elif v == "decimal": yield decimal.Decimal(i) / 8
        else: yield i / 4


@suite("C09", 300)
def fresh_items(r, t):
    """Items made on the fly are all recorded, each with its own value,
    references on or off."""
    n, lim, seed = r.choice([1, 2, 5, 30]), r.choice([None, 2, 5]), r.randrange(1 << 30)
    o = r.choice([{}, {"unpicklable": False}, {"make_refs": False}, {"unpicklable": False, "use_base85": True}])
    t.note((n, lim, seed, o))
    k = n if lim is None else min(n, lim)
    s = jsonpickle.encode([1, fresh(random.Random(seed), n)], max_iter=lim, **o)
    got = json.loads(s)[1]["py/iterator"]
    want = [json.loads(jsonpickle.encode(v, **o)) for v in list(fresh(random.Random(seed), n))[:k]]
    if got != want:
        raise Bad("the items recorded are not those of the generator", expected=want, got=got)


class It:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return self.n


@fixed("C09")
def details():
    out = []

    def case(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    @case("chains: every level of every container kind")
    def _():
        kinds = [lambda v: [v], lambda v: {"k": v}, lambda v: (v,), lambda v: attr(v), lambda v: C.MyList([v]), lambda v: C.MyDict(k=v)]

        def attr(v):
            o = Rep()
            o.v = v
            return o
        for a in kinds:
            for b in kinds:
                for leaf in ([], {}, (), set(), Rep(), "s", 1, None, b"x", [1], {"z": 1}):
                    x = a(b(a(b(leaf))))
                    for n in range(0, 8):
                        same(build(x, n), jsonpickle.decode(jsonpickle.encode(x, max_depth=n)), ids=False)

    @case("scalars and enum members are never replaced")
    def _():
        for v in (1, "x", None, True, 1.5, b"b", bytearray(b"b"), C.Color.RED):
            for n in (0, 1, 2):
                x = v
                for _ in range(n):
                    x = [x]
                y = jsonpickle.decode(jsonpickle.encode(x, max_depth=n))
                for _ in range(n):
                    y = y[0]
                if type(y) is not type(v) or y != v:
                    raise Bad(f"{v!r} became {y!r} at depth {n}")

    @case("endless iterators")
    def _():
        for n in (0, 1, 5):
            it = It(0)
            y = jsonpickle.decode(jsonpickle.encode([it], max_iter=n))
            if list(y[0]) != list(range(1, n + 1)) or it.n != n:
                raise Bad(f"{it.n} items consumed with max_iter={n}")

    @case("two generators in one document")
    def _():
        a, b = [], []
        x = [gen(a, range(5)), {"g": gen(b, range(7))}]
        y = jsonpickle.decode(jsonpickle.encode(x, max_iter=6))
        if list(y[0]) != list(range(5)) or list(y[1]["g"]) != list(range(6)) or len(b) != 6:
            raise Bad("generators share the limit")

    @case("reused pickler")
    def _():
        p = jsonpickle.pickler.Pickler(max_depth=2, max_iter=3)
        x = [[[1]], [2], {"a": [3]}]
        first = p.flatten(x)
        if first != [["[1]"], [2], {"a": "[3]"}]:
            raise Bad("wrong truncation", result=first)
        for _ in range(3):
            if p.flatten(x) != first:
                raise Bad("second use differs")
        for _ in range(2):
            if p.flatten(iter_of(range(9))) != {"py/iterator": [0, 1, 2]} and jsonpickle.decode(json.dumps(p.flatten(iter_of(range(9))))) is None:
                raise Bad("iterator limit differs")

    def iter_of(r):
        return (i for i in r)
    return out
