from .lib import *
from . import classes as C
from .c02 import no_placeholder
import datetime
import uuid
import jsonpickle


def gk(r, depth=1):
    """Any hashable key that round-trips as a value."""
    k = r.randrange(14)
    if k == 0: return None
    if k == 1: return r.choice([True, False])
    if k == 2: return gint(r)
    if k == 3: return gfloat(r)
    if k == 4: return gbytes(r)
    if k == 5 and depth: return tuple(gk(r, depth - 1) for _ in range(r.randint(0, 3)))
    if k == 6: return r.choice(TAGS)
    if k == 7: return r.choice(["json://", "json://1", "json://\"a\"", "json://{}", "json:// x", "json://json://2", "json://[1", "json://{\"py/id\": 1}", "json://null"])
    if k == 8: return C.Key(gatom(r, True))
    if k == 9:
        o = C.IdKey()
        o.n = r.randint(0, 10**9)
        return o
    if k == 10: return r.choice([C.Color.RED, C.NT1(1), C.Frozen(1, "x"), datetime.date(2020, 1, 1), uuid.UUID(int=7)])
    return gstr(r)


def trip(x, **kw):
    s = jsonpickle.encode(x, keys=True, **kw)
    y = jsonpickle.decode(s, keys=True)
    no_placeholder(y)
    return y, s


@suite("C05", 2500)
def any_keys(r, t):
    d = {}
    for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
        d[gk(r)] = gplain(r, 1)
    t.note(d)
    x = r.choice([d, [d], {"in": d}, {(1,): d}])
    y, s = trip(x)
    same(x, y, ids=False)


@suite("C05", 1500)
def shared_between_keys_and_values(r, t):
    """Objects used as keys, values, or both, several times."""
    objs = []
    for i in range(r.randint(1, 4)):
        o = C.IdKey()
        o.n = i
        objs.append(o)
    lists = [[i, "L"] for i in range(2)]
    d = {}
    x = [d]
    for _ in range(r.randint(1, 7)):
        k = r.choice([lambda: r.choice(objs), lambda: (r.choice(objs), r.randint(0, 3)), lambda: gk(r, 0), lambda: gstr(r)])()
        v = r.choice([lambda: r.choice(objs), lambda: r.choice(lists), lambda: gatom(r), lambda: [r.choice(objs)], lambda: {"v": r.choice(objs)}])()
        d[k] = v
    if r.random() < 0.6:
        x += [r.choice(objs), lists[0], {r.choice(objs): r.choice(objs)}]
    if r.random() < 0.3:
        x.insert(0, r.choice(objs))
    t.note(x)
    y, s = trip(x)
    same_ids(x, y, s)


class Tab:
    """A dict reached while its owner is still being rebuilt."""

    def __init__(self):
        self.tab = {}

    def __reduce__(self):
        return (Tab, (), {"tab": self.tab})


@suite("C05", 600)
def cyclic_tables(r, t):
    """Dicts with keys of any kind whose values lead back to their owner."""
    nodes = [r.choice([Tab, Tab, C.Plain])() for _ in range(r.randint(1, 4))]
    for n in nodes:
        n.tab = {}
        for _ in range(r.randint(1, 5)):
            k = r.choice([lambda: gint(r), lambda: None, lambda: (1, gstr(r)), lambda: r.choice(TAGS), lambda: "json://" + gstr(r), lambda: gstr(r), lambda: True, lambda: 2.5])()
            m = r.choice(nodes)
            n.tab[k] = r.choice([lambda: m, lambda: m, lambda: [m], lambda: m.__dict__.get("tab"), lambda: {"in": m}, lambda: {3: m}, lambda: gatom(r)])()
    x = r.choice([nodes[0], nodes])
    t.note([(type(n).__name__, {k: type(v).__name__ for k, v in n.tab.items()}) for n in nodes])
    y, s = trip(x)
    same(x, y)


def same_ids(x, y, s):
    """Content plus identity of IdKey objects and lists at every position."""
    pairs = {}

    def walk(a, b, p):
        if type(a) is not type(b):
            raise Bad(f"type differs at {p}", original=a, result=b, text=s)
        if isinstance(a, (C.IdKey, list, dict)):
            if id(a) in pairs:
                if pairs[id(a)] is not b:
                    raise Bad(f"identity lost at {p}", text=s)
                return
            if any(v is b for v in pairs.values()):
                raise Bad(f"objects merged at {p}", text=s)
            pairs[id(a)] = b
        if isinstance(a, C.IdKey):
            if a.__dict__ != b.__dict__:
                raise Bad(f"attributes differ at {p}", text=s)
        elif isinstance(a, dict):
            if len(a) != len(b):
                raise Bad(f"size differs at {p}", original=a, result=b, text=s)
            for (k, v), (k2, v2) in match(a, b, p, s):
                walk(k, k2, f"{p}.key")
                walk(v, v2, f"{p}[{short(k, 20)}]")
        elif isinstance(a, (list, tuple)):
            if len(a) != len(b):
                raise Bad(f"length differs at {p}", text=s)
            for i, (u, v) in enumerate(zip(a, b)):
                walk(u, v, f"{p}[{i}]")
        else:
            same(a, b, ids=False, path=p)

    def match(a, b, p, s):
        out = []
        rest = list(b.items())
        for k, v in a.items():
            for j, (k2, v2) in enumerate(rest):
                if alike(k, k2):
                    out.append(((k, v), (k2, v2)))
                    del rest[j]
                    break
            else:
                raise Bad(f"key lost at {p}: {short(k, 50)}", original=a, result=b, text=s)
        return out

    def alike(k, k2):
        if type(k) is not type(k2):
            return False
        if isinstance(k, C.IdKey):
            return k.n == k2.n
        if isinstance(k, tuple):
            return len(k) == len(k2) and all(map(alike, k, k2))
        return key_like(k, k2)
    walk(x, y, "$")


@fixed("C05")
def each_key():
    out = []
    keys = [None, True, False, 0, 1, -1, 1.5, 2**70, "", "a", b"", b"k", (), (1,), (1, "a"), ((1,), (2,)), (None,), C.Key(1), C.Color.RED,
            C.NT3(1, 2, 3), C.Frozen(1), datetime.date(2000, 1, 1), frozenset([1]), 1 + 1j] + TAGS + \
        ["json://", "json://1", "json://json://1", "json://\"x\"", "json://{\"py/tuple\": []}"] + STRS

    for k in keys:
        def thunk(k=k):
            for v in (1, [1], {"a": 1}, (k,), None):
                x = {k: v}
                y, s = trip(x)
                same(x, y, ids=False)
                x = {"first": [k], k: v, "last": v}
                y, s = trip(x)
                same(x, y, ids=False)
                x = {k: v, (k, 2): v, "z": v}
                y, s = trip(x)
                same(x, y, ids=False)
        out.append((f"key {short(k, 40)}", thunk))

    for k, want in [(None, "null"), (1, "1"), (-1, "-1"), (1.5, "1.5"), (True, "True"), (False, "False"), ((1, 2), "(1, 2)"), (b"a", "b'a'"),
                    ("s", "s"), ("", ""), (C.Key(3), "Key(3)"), ("null", "null"), (C.Color.RED, repr(C.Color.RED)), ((), "()")] + [(s, s) for s in STRS]:
        def thunk(k=k, want=want):
            for x, get in (({k: [1]}, lambda y: y), ([{k: [1]}], lambda y: y[0]), ({"o": {k: [1], "zz": 1}}, lambda y: {a: b for a, b in y["o"].items() if a != "zz"})):
                y = get(jsonpickle.decode(jsonpickle.encode(x)))
                if y != {want: [1]}:
                    raise Bad(f"key {k!r} became {list(y)!r}, not {want!r}")
            j = jsonpickle.pickler.Pickler().flatten({k: 1})
            if list(j) != [want]:
                raise Bad(f"flattened key of {k!r} is {list(j)!r}")
        out.append((f"keys off {short(k, 40)}", thunk))

    def containers():
        """Key encoding also inside dict subclasses and attributes."""
        d = C.MyDict({(1, 2): [3], 4: 5, "s": 6})
        o = C.Plain.__new__(C.Plain)
        o.d = {(1,): 2, None: 3}
        x = [d, o, collections.OrderedDict([((1,), 1), (2, 2)])]
        y, s = trip(x)
        same(x, y, ids=False)
    out.append(("dict subclass", containers))

    def values_after_keys():
        """References after a dict with encoded keys."""
        a, b = [1], [2]
        k = C.IdKey()
        k.n = 1
        for x in ([{(1, 2): a, "json://x": b}, a, b], [{k: a}, k, a], [{"z": a, k: b, "a": k}, b, a, k],
                  [{"py/id": a, (3,): b, "q": [a]}, a, b], [{"json://1": a, "py/tuple": b, 5: a}, b, a]):
            y, s = trip(x)
            same_ids(x, y, s)
    out.append(("references after encoded keys", values_after_keys))
    return out


@suite("C05", 600)
def keys_off(r, t):
    """String keys unchanged, the others as documented; values untouched."""
    d = {}
    for _ in range(r.randint(0, 5)):
        k = r.choice([lambda: gkey(r), lambda: gint(r), lambda: None, lambda: gfloat(r), lambda: (gint(r),), lambda: C.Key(gint(r)), lambda: gbytes(r)])()
        d[k] = gplain(r, 1, key=gkey)
    t.note(d)
    want = {}
    for k, v in d.items():
        want["null" if k is None else k if isinstance(k, str) else repr(k)] = v
    y = jsonpickle.decode(jsonpickle.encode(d))
    if set(y) != set(want):
        raise Bad(f"keys {list(want)} became {list(y)}")
    if len(want) == len(d):
        same(want, y, ids=False)
