from .lib import *
from . import classes as C
import json
import math
import jsonpickle
import jsonpickle.unpickler

U = jsonpickle.unpickler.Unpickler
SCALARS = [None, True, False, 0, 1, -1, 3, 10**30, 1.5, -0.0]
NOTSTR = SCALARS + [[], [1], {}, {"a": 1}, [[1]], {"py/tuple": []}]
BADTEXT = ["é", "\ud800", "YQ=", "YQ", "Y", "=", "====", "a=b=", "!!", "日本", "\x00", "~~~~~~", "{{{{{{{", "|||||", "A", "AAAAA=", " ", "\n", "YQ==YQ==", "}}}}}", "\x7f", "z"]
EMPTY = {"py/tuple": (), "py/set": set(), "py/iterator": "iter", "py/b64": b"", "py/b85": b"", "py/bytea": bytearray(), "py/id": None, "py/reduce": []}


def empty(y, tag, j):
    w = EMPTY[tag]
    if w == "iter":
        if not hasattr(y, "__next__") or list(y) != []:
            raise Bad(f"{j} became {y!r}, not an empty iterator")
    elif type(y) is not type(w) or y != w:
        raise Bad(f"{j} became {y!r}, not {w!r}")


# bad payloads that must give the empty value
def certain():
    for t in ("py/tuple", "py/set", "py/iterator", "py/reduce"):
        for v in SCALARS:
            yield t, v
    for t in ("py/b64", "py/b85"):
        for v in NOTSTR + ["\ud800"]:
            yield t, v
    for v in SCALARS + ["", "YQ==", [], [1], {}, {"a": 1}, {"py/b64": 5}, {"py/b64": None}, {"py/b85": []}, {"py/b64": "\ud800"}, {"py/tuple": [1]}]:
        yield "py/bytea", v
    for v in ["0", "", "x", None, 1.5, [], {}, [0], {"a": 1}, 1000, 10**6, 2**40, -1000, -2**40, -1, -2, -3, True, False]:
        yield "py/id", v
    for v in ([1], ["x"], [None, 1], [{"py/tuple": []}, 2], [1, {"py/tuple": []}], [{"py/function": "no.such"}, {"py/tuple": []}], [{"a": 1}, []], [[], []], [{"py/type": "no.such.T"}, {"py/tuple": []}, {"s": 1}], []):
        yield "py/reduce", v


def anything():
    for t in ("py/b64", "py/b85"):
        for s in BADTEXT:
            yield t, s
            yield "py/bytea", {t: s}
    for t in ("py/tuple", "py/set", "py/iterator"):
        for v in ["", "abc", "é", {}, {"a": 1}, {"py/id": 3}, [{}], [[1]], [[], {}], [{"py/tuple": 3}], [None]]:
            yield t, v
    for v in (0, 1, 2):
        yield "py/id", v
    for t in ("py/reduce",):
        for v in ("", "abc", {}, {"a": 1}):
            yield t, v


WRAPS = {
    "root": (lambda v: v, lambda y: y),
    "list": (lambda v: [v], lambda y: y[0]),
    "list middle": (lambda v: [[1], v, {"k": [2]}], lambda y: (y[0] == [1] and y[2] == {"k": [2]}) or fail(y), ),
    "dict": (lambda v: {"a": v, "b": [1]}, lambda y: y["a"] if y["b"] == [1] else fail(y)),
    "tuple": (lambda v: {"py/tuple": [0, v]}, lambda y: y[1] if type(y) is tuple and y[0] == 0 else fail(y)),
    "attr": (lambda v: {"py/object": "bounded.classes.Plain", "x": v, "y": [5]}, lambda y: y.x if type(y) is C.Plain and y.y == [5] else fail(y)),
    "slots": (lambda v: {"py/object": "bounded.classes.Slots", "a": v, "b": 2}, lambda y: y.a if type(y) is C.Slots and y.b == 2 else fail(y)),
    "seq": (lambda v: {"py/object": "bounded.classes.MyList", "py/seq": [3, v]}, lambda y: y[1] if type(y) is C.MyList and y[0] == 3 else fail(y)),
    "item": (lambda v: {"py/object": "bounded.classes.MyDict", "k": v, "l": 1}, lambda y: y["k"] if type(y) is C.MyDict and y["l"] == 1 else fail(y)),
    "deep": (lambda v: {"a": [{"b": {"py/tuple": [[v], 1]}}]}, lambda y: y["a"][0]["b"][0][0]),
}


def fail(y):
    raise Bad("the rest of the document is wrong", result=y)


def run(j, **o):
    try:
        return jsonpickle.decode(json.dumps(j), **o)
    except Exception as e:
        raise Bad(f"decoding raised {type(e).__name__}: {e}", document=json.dumps(j))


@fixed("C13")
def malformed():
    out = []
    for tag, v in certain():
        def thunk(tag=tag, v=v):
            j = {tag: v}
            for n, (w, get) in WRAPS.items():
                if tag == "py/id" and type(v) is int and v > 0 and n in ("tuple",):
                    continue        # a late reference inside a tuple
                if tag == "py/id" and n == "seq" and type(v) is int and v > 0:
                    continue
                for o in ({}, {"keys": True}):
                    if n == "list middle":
                        run(w(j), **o)
                        y = run(w(j), **o)
                        get(y)
                        y = y[1]
                    else:
                        y = get(run(w(j), **o))
                    empty(y, tag, json.dumps(j))
                y = U().restore(w(json.loads(json.dumps(j))))
        out.append((f"{tag} {short(v, 40)}", thunk))
    for tag, v in anything():
        def thunk(tag=tag, v=v):
            j = {tag: v}
            for n, (w, get) in WRAPS.items():
                for o in ({}, {"keys": True}):
                    y = run(w(j), **o)
                    if n == "list middle":
                        get(y)
        out.append((f"no exception {tag} {short(v, 40)}", thunk))

    def refs_after():
        """References after a malformed entry still resolve.  Only a reduce
        or iterator entry takes a reference number, as its valid form does."""
        for tag, v in certain():
            if tag in ("py/id", "py/reduce", "py/iterator"):
                continue
            y = run([{"q": [1]}, {tag: v}, {"r": 2}, {"py/id": 1}, {"py/id": 2}, {"py/id": 3}])
            if not (y[3] is y[0] and y[4] is y[0]["q"] and y[5] is y[2]):
                raise Bad(f"references after {tag} {v!r} are wrong", result=y)
        for v in SCALARS + [[1], [None, 1]]:
            y = run([{"q": [1]}, {"py/reduce": v}, {"r": 2}, {"py/id": 1}, {"py/id": 3}, {"py/id": 4}])
            if not (y[3] is y[0] and y[4] is y[1] and y[5] is y[2]):
                raise Bad(f"references after a reduce entry {v!r} are wrong", result=y)
    out.append(("references after malformed entries", refs_after))

    def good():
        """Well-formed entries are not affected."""
        for j, w in (({"py/tuple": [1, 2]}, (1, 2)), ({"py/set": [1]}, {1}), ({"py/b64": "YQ=="}, b"a"), ({"py/b85": "VPO"}, b"aa"), ({"py/bytea": {"py/b64": "YQ=="}}, bytearray(b"a")),
                     ({"py/reduce": [{"py/type": "builtins.int"}, {"py/tuple": ["5"]}]}, 5), ({"py/tuple": []}, ()), ({"py/b64": ""}, b"")):
            y = run(j)
            if type(y) is not type(w) or y != w:
                raise Bad(f"{j} became {y!r}")
    out.append(("well-formed entries", good))
    return out


@suite("C13", 3000)
def random_malformed(r, t):
    cert, anyt = list(certain()), list(anything())

    def doc(d):
        k = r.randrange(8)
        if k < 2:
            return dict([r.choice(cert + anyt)])
        if d <= 0 or k == 2:
            return r.choice([None, 1, "x", [], {}])
        n = r.randint(1, 3)
        if k == 3: return [doc(d - 1) for _ in range(n)]
        if k == 4: return {gkey(r): doc(d - 1) for _ in range(n)}
        if k == 5: return {"py/tuple": [doc(d - 1) for _ in range(n)]}
        if k == 6: return {"py/object": "bounded.classes.Plain", "a": doc(d - 1), "b": doc(d - 1)}
        return {"py/set": [doc(d - 1) for _ in range(n)]} if r.random() < 0.5 else {"py/iterator": [doc(d - 1)]}
    j = doc(4)
    t.note(j)
    run(j, **r.choice([{}, {"keys": True}, {"v1_decode": True}]))


# what a malformed entry stands for, as a well-formed one
FINE = {"py/tuple": {"py/tuple": []}, "py/set": {"py/set": []}, "py/b64": {"py/b64": ""}, "py/b85": {"py/b85": ""}, "py/bytea": {"py/bytea": {"py/b64": ""}},
        "py/id": None, "py/reduce": {"py/reduce": [{"py/type": "builtins.list"}, {"py/tuple": []}]}}


def flat(v):
    return v is None or not isinstance(v, (list, dict)) or (isinstance(v, list) and all(type(x) in (int, str, type(None)) for x in v))


def placeholder(v):
    todo, seen = [v], {}
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen[id(v)] = v
        if type(v).__module__.startswith("jsonpickle"):
            return True
        if isinstance(v, (list, tuple, set)):
            todo.extend(v)
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, C.Plain):
            todo.extend(v.__dict__.values())
    return False


@suite("C13", 1500)
def like_well_formed(r, t):
    """A document with malformed entries and references to anything is
    restored like the one with well-formed empty entries in their place."""
    cert = [(a, v) for a, v in certain() if a in FINE and flat(v) and not (a == "py/id" and type(v) is int and v >= 0)]

    def pair(d):
        k = r.randrange(9)
        if k < 3:
            a, v = r.choice(cert)
            return {a: v}, FINE[a]
        if k == 3:
            n = r.randrange(8)
            return {"py/id": n}, {"py/id": n}
        if d <= 0:
            v = r.choice([None, 1, "x", [], {}])
            return v, v
        xs = [pair(d - 1) for _ in range(r.randint(1, 3))]
        ys = tuple([x[i] for x in xs] for i in (0, 1))
        if k == 4 or k == 8:
            return ys
        if k == 5:
            names = [f"k{i}" for i in range(len(xs))]
            return tuple(dict(zip(names, y)) for y in ys)
        if k == 6:
            return tuple({"py/tuple": y} for y in ys)
        return tuple(dict({"py/object": "bounded.classes.Plain"}, **{f"a{i}": v for i, v in enumerate(y)}) for y in ys)
    xs = [pair(3) for _ in range(r.randint(1, 5))]
    bad, fine = [x[0] for x in xs], [x[1] for x in xs]
    t.note(bad)
    o = r.choice([{}, {"keys": True}])
    try:
        want = jsonpickle.decode(json.dumps(fine), **o)
    except Exception:
        return      # the references themselves are impossible
    if placeholder(want):
        return      # a reference from inside a tuple to a later object
    try:
        same(want, run(bad, **o))
    except Bad as e:
        raise Bad(f"not restored like the document with empty entries: {e}", document=json.dumps(bad), well_formed=json.dumps(fine))
