from .lib import *
from . import classes as C
from .c06 import gcontainer
from . import c04
import collections
import copy
import datetime
import json
import random
import re
import uuid
import jsonpickle
import jsonpickle.handlers as H
import jsonpickle.pickler
import jsonpickle.unpickler

P, U = jsonpickle.pickler.Pickler, jsonpickle.unpickler.Unpickler


class Fails:
    def __getstate__(self):
        raise ValueError("fails")


class FailsLoad:
    def __init__(self):
        self.a = 1

    def __getstate__(self):
        return {"a": 1}

    def __setstate__(self, s):
        raise ValueError("fails")


class Red:
    def __init__(self, *a):
        self.a = list(a)

    def __reduce__(self):
        return (Red, tuple(self.a), {"a": self.a, "z": 1})


class St:
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"v": self.v}

    def __setstate__(self, s):
        self.v = s["v"]


def ggraph(r):
    """A graph with shared parts; calling twice with equal generators gives
    isomorphic graphs."""
    pool = [[1], {"k": [2]}]

    def v(d):
        k = r.randrange(16)
        if k < 3: return r.choice(pool)
        if d <= 0 or k < 6: return gatom(r)
        n = r.choice([0, 1, 2, 3])
        if k < 8: x = [v(d - 1) for _ in range(n)]
        elif k == 8: x = {gkey(r): v(d - 1) for _ in range(n)}
        elif k == 9: return tuple(v(d - 1) for _ in range(n))
        elif k == 10: x = gcontainer(r, 1)
        elif k == 11:
            x = r.choice([C.Plain, C.Slots, C.Excl])
            x = x.__new__(x)
            for a in "abc"[:n]:
                setattr(x, a, v(d - 1))
        elif k == 12: x = St(v(d - 1))
        elif k == 13: return r.choice([datetime.datetime(2020, 1, 1), uuid.UUID(int=3), C.Color.RED, C.Plain, len, 1j, C.NT1(v(d - 1)), C.Frozen(v(d - 1))])
        elif k == 14: x = collections.defaultdict(r.choice([list, C.Plain, int]), {gkey(r): v(d - 1)})
        else: x = {r.choice([lambda: gkey(r), lambda: gint(r), lambda: (1, 2), lambda: None])(): v(d - 1) for _ in range(n)}
        pool.append(x)
        return x
    x = [v(3) for _ in range(r.randint(1, 4))]
    if r.random() < 0.2:
        x.append(x)
    return x


def twins(r):
    s = r.randrange(1 << 60)
    return ggraph(random.Random(s)), ggraph(random.Random(s))


OPTS = [{}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}, {"max_depth": 2}, {"use_base85": True}, {"max_depth": 1, "keys": True}, {"warn": False}, {"fail_safe": lambda e: 1}]


def cyclic(x):
    return x and x[-1] is x


@suite("C11", 2000)
def encode_is_pure(r, t):
    x, twin = twins(r)
    o = r.choice(OPTS)
    if cyclic(x) and o.get("unpicklable") is False:
        x.pop(), twin.pop()
    t.note((o, x))
    before = orders(x)
    s = jsonpickle.encode(x, **o)
    same(twin, x)
    if orders(x) != before:
        raise Bad("the order of attributes or items changed")
    if "object at 0x" not in s and jsonpickle.encode(x, **o) != s:
        raise Bad("second encoding differs", first=s)


def orders(x):
    seen, out, stack = set(), [], [x]
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, (type, str, bytes)):
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            out.append(tuple(map(repr, x)))
            stack += x.values()
        elif isinstance(x, (list, tuple)):
            stack += x
        d = attrs_of(x)
        out.append(tuple(d))
        stack += d.values()
    return out


def tagged(r, d=3):
    """A parsed document with tags in random places."""
    k = r.randrange(18)
    n = r.randint(0, 3)

    def v():
        return tagged(r, d - 1)
    if d <= 0 or k < 4: return r.choice([None, 1, "x", True, 1.5, [], {}])
    if k < 6: return [v() for _ in range(n)]
    if k < 8: return {gkey(r): v() for _ in range(n)}
    return r.choice([
        lambda: {"py/tuple": [v() for _ in range(n)]}, lambda: {"py/set": [1, "a"]}, lambda: {"py/id": r.randint(0, 6)}, lambda: {"py/b64": "YQ=="},
        lambda: {"py/object": "bounded.classes.Plain", "a": v(), "b": v()}, lambda: {"py/object": "bounded.classes.MyList", "py/seq": [v()], "z": v()},
        lambda: {"py/object": "no.such.Class", "a": v()}, lambda: {"py/object": "collections.defaultdict", "k": v(), "default_factory": {"py/type": "builtins.list"}},
        lambda: {"py/object": "collections.defaultdict", "default_factory": v(), "py/default_factory": {"py/type": "builtins.int"}},
        lambda: {"py/object": "collections.defaultdict", "k": v(), "py/default_factory": {"py/type": "builtins.int"}},
        lambda: {"py/object": "bounded.c11.St", "py/state": {"v": v()}}, lambda: {"py/reduce": [{"py/type": "bounded.c11.Red"}, {"py/tuple": [v()]}, {"q": v()}]},
        lambda: {"py/object": "bounded.classes.MyDict", "a": v(), "__dict__": {"b": v()}}, lambda: {"py/object": "bounded.classes.NT1", "py/newargs": {"py/tuple": [v()]}, "py/seq": [v()]},
        lambda: {"py/iterator": [1, 2]}, lambda: {"py/type": "builtins.int"}, lambda: {"py/function": "bounded.classes.function"}, lambda: {"py/object": "datetime.date", "__reduce__": [{"py/type": "datetime.date"}, ["B+QBAQ=="]]},
        lambda: {"py/mod": "json/json"}, lambda: {"py/type": "no.such"}, lambda: {"py/object": "uuid.UUID", "hex": "0" * 32}, lambda: {"json://1": v(), "x": v()},
    ])()


def noiter(y):
    return y


@suite("C11", 2000)
def decode_is_pure(r, t):
    """Restoring a parsed structure leaves it alone, so it gives the same
    result each time."""
    j = tagged(r, 4)
    keep = copy.deepcopy(j)
    t.note(j)
    o = r.choice([{}, {"keys": True}])
    try:
        y = U(**o).restore(j)
        err = None
    except Exception as e:
        y, err = None, e
    if j != keep:
        raise Bad("restoring changed the document", before=keep, after=j)
    try:
        y2 = U(**o).restore(copy.deepcopy(keep))
        err2 = None
    except Exception as e:
        y2, err2 = None, e
    if (err is None) != (err2 is None):
        raise Bad("the second time the outcome differs", first=err, second=err2)
    if err is None:
        same(y2, y, ids=False) if not has_iter(y) else None


def has_iter(y):
    seen, stack = set(), [y]
    while stack:
        y = stack.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if type(y).__name__ == "list_iterator":
            return True
        if isinstance(y, dict): stack += list(y.values()) + list(y)
        elif isinstance(y, (list, tuple, set)): stack += list(y)
        if not isinstance(y, type): stack += attrs_of(y).values()
    return False


def cyc():
    d = {}
    d["d"] = [d]
    return d


BAD_J = [{"py/object": "bounded.c11.FailsLoad", "py/state": {"a": [1]}}, [[{"py/object": "bounded.c11.FailsLoad", "py/state": [1]}]],
         {"a": {"b": {"py/object": 5}}}, [1, {"k": {"py/function": 3}}]]


@suite("C11", 1200)
def reuse(r, t):
    """A reused Pickler/Unpickler behaves like a fresh one after any history."""
    o = dict(r.choice(OPTS))
    keys = bool(o.get("keys"))
    p, u = P(**o), U(keys=keys)
    hist = []
    for _ in range(r.randint(1, 6)):
        k = r.randrange(6)
        if k == 0:
            hist.append("failing encode")
            try:
                p.flatten(r.choice([lambda: Fails(), lambda: [Fails()], lambda: [[1, [Fails()]], [2]], lambda: [[1, {"a": Fails()}], [2]], lambda: St(Fails()), lambda: {"a": St([Fails()])}])())
            except ValueError:
                pass
        elif k == 1:
            hist.append("failing decode")
            try:
                u.restore(copy.deepcopy(r.choice(BAD_J)))
            except Exception:
                pass
        elif k == 2:
            hist.append("classes")
            u.restore({"py/object": "gone.Away", "a": [1]}, classes=r.choice([{"gone.Away": C.Plain, "bounded.classes.Other": C.Falsy}, [C.Plain], C.Slots]))
        elif k == 3:
            hist.append("scalar")
            p.flatten(1), u.restore("x"), p.flatten([]), u.restore([])
        else:
            hist.append("use")
            x = ggraph(r)
            if cyclic(x):
                x.pop()
            p.flatten(x)
            u.restore(P(keys=keys).flatten(x))
    x = ggraph(r)
    if cyclic(x) and o.get("unpicklable") is False:
        x.pop()
    t.note((o, hist, x))
    j, w = p.flatten(x), P(**o).flatten(x)
    if json.dumps(j) != json.dumps(w):
        raise Bad("a reused pickler gives another result", result=j, fresh=w)
    j = P(keys=keys).flatten(x)
    y = u.restore(copy.deepcopy(j))
    same(U(keys=keys).restore(copy.deepcopy(j)), y)
    y = u.restore([{"py/object": "gone.Away", "a": 1}, {"py/object": "bounded.classes.Other", "a": 1}])
    if y[0] != {"py/object": "gone.Away", "a": 1} or type(y[1]) is not C.Other:
        raise Bad("classes given to an earlier call are still in use", result=y)


@fixed("C11")
def details():
    out = []

    def case(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    @case("short-lived objects")
    def _():
        """Values made on the fly by properties, items or state hooks."""
        class Fresh:
            def __getstate__(self):
                return {"a": [1], "b": {"x": [2]}, "c": St([3])}
        for o in ({}, {"unpicklable": False}, {"make_refs": False}):
            want = None
            for n in (1, 5, 50):
                j = P(**o).flatten([Fresh() for _ in range(n)])
                tail = j if o else j
                for e in tail:
                    e = e.get("py/state", e)
                    if e["a"] != [1] or e["b"] != {"x": [2]}:
                        raise Bad("an entry was replaced by that of another object", result=e)

    @case("temporaries in generators")
    def _():
        for o in ({}, {"unpicklable": False}, {"make_refs": False}):
            j = P(**o).flatten(([i] for i in range(200)))
            if list(j.values())[-1] != [[i] for i in range(200)]:
                raise Bad("items merged", result=j)
            j = P(**o).flatten([({"i": i} for i in range(50)), ([i] for i in range(50))])
            if list(j[0].values())[-1] != [{"i": i} for i in range(50)]:
                raise Bad("items merged", result=j)

    @case("decode twice from the same parsed structure")
    def _():
        x = [collections.defaultdict(list, a=[1]), collections.OrderedDict(a=1), C.NT3(1, [2], 3), St([1]), Red([1]), collections.defaultdict(C.factory_list), C.Color.RED, C.MyDict(a=1),
             C.MyList([1]), re.compile("a"), datetime.datetime(2020, 1, 1), frozenset([1]), {"a": {1}}]
        j = P().flatten(x)
        keep = copy.deepcopy(j)
        y1 = U().restore(j)
        if j != keep:
            raise Bad("document changed")
        y2 = U().restore(j)
        same(y1, y2)
        if y1[0] is y2[0] or y1[0]["a"] is y2[0]["a"]:
            raise Bad("two decodes share an object")

    @case("mutating a result does not affect a later decode")
    def _():
        j = P().flatten({"a": [1, {"b": [2]}], "o": C.Frozen([1])})
        y = U().restore(j)
        y["a"].append(5)
        y["a"][1]["b"].append(6)
        y["o"].a.append(7)
        z = U().restore(j)
        if z["a"] != [1, {"b": [2]}] or z["o"].a != [1]:
            raise Bad("later decode sees the mutation", result=z)

    @case("encode result does not share lists with the object")
    def _():
        x = {"a": [1, 2], "t": (1,)}
        for o in ({}, {"unpicklable": False}, {"make_refs": False}):
            j = P(**o).flatten(x)
            j["a"].append(3)
            if x != {"a": [1, 2], "t": (1,)}:
                raise Bad("flattened output shares a list with the object")

    @case("encode and decode with a supplied context")
    def _():
        p, u = P(), U()
        a = [1]
        for _ in range(3):
            s = jsonpickle.encode([a, a], context=p)
            if s != jsonpickle.encode([a, a]):
                raise Bad("differs", result=s)
            y = jsonpickle.decode(s, context=u)
            if y[0] is not y[1]:
                raise Bad("sharing lost")
            try:
                jsonpickle.encode([[Fails()]], context=p)
            except ValueError:
                pass

    @case("module-level calls do not influence each other")
    def _():
        a = [1]
        first = jsonpickle.encode({"a": a, "b": a, (1,): 2}, keys=True)
        for o in OPTS:
            jsonpickle.encode([a, {1: a}, St(2)], **o)
            try:
                jsonpickle.encode([Fails()], **{k: v for k, v in o.items() if k != "fail_safe"})
            except ValueError:
                pass
        if jsonpickle.encode({"a": a, "b": a, (1,): 2}, keys=True) != first:
            raise Bad("differs")

    @case("arguments are not modified")
    def _():
        cl = {"gone.A": C.Plain}
        jsonpickle.decode('{"py/object": "gone.A"}', classes=cl)
        ls = [C.Plain]
        jsonpickle.decode("[]", classes=ls)
        if cl != {"gone.A": C.Plain} or ls != [C.Plain]:
            raise Bad("classes argument modified")
    return out
