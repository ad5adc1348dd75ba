from .lib import *
import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler


def ordered_same(a, b, path="$"):
    """Member order of dicts."""
    if isinstance(a, dict):
        if list(a) != list(b):
            raise Bad(f"member order differs at {path}", original=list(a), result=list(b))
        for k in a:
            ordered_same(a[k], b[k], f"{path}.{k}")
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            ordered_same(x, y, f"{path}[{i}]")


OPTS = [dict(keys=k, use_base85=b) for k in (False, True) for b in (False, True)]


def trip(x, keys=False, use_base85=False, **kw):
    s = jsonpickle.encode(x, keys=keys, use_base85=use_base85, **kw)
    if type(s) is not str:
        raise Bad("encode did not return a str", result=s)
    y = jsonpickle.decode(s, keys=keys)
    same(x, y, ids=False)
    ordered_same(x, y)
    return s


@suite("C01", 2500)
def random_tree(r, t):
    x = t.note(gplain(r, r.choice([1, 2, 3, 4])))
    trip(x, **r.choice(OPTS))


@fixed("C01")
def every_nesting():
    """Every pair of kinds: a in b, empty and filled, each option set."""
    atoms = [None, True, False, 0, 1, -1, 2**70, 0.0, -0.0, 1.5, "", "s", "py/", "json:/", b"", b"\x00\xff", bytearray(b""), bytearray(b"ab")]
    wraps = {"list": lambda *v: list(v), "tuple": lambda *v: tuple(v), "dict": lambda *v: {str(i): x for i, x in enumerate(v)},
             "set": lambda *v: set(v)}
    out = []

    def add(name, x):
        def thunk():
            for o in OPTS:
                trip(x, **o)
            for sep in (None, 2):
                trip(x, indent=sep)
        out.append((name, thunk))
    for a in atoms:
        add(f"{a!r}", a)
        for n, w in wraps.items():
            if n == "set" and isinstance(a, bytearray):
                continue
            add(f"{n} of {a!r}", w(a))
            for n2, w2 in wraps.items():
                if n2 == "set" and (n in ("list", "dict", "set") or isinstance(a, bytearray)):
                    continue
                if n == "set" and n2 == "set":
                    continue
                add(f"{n2} of {n} of {a!r}", w2(w(a)))
                add(f"{n2} of {n} of {a!r} twice", w2(w(a, 5), 6, w(a)) if n2 != "set" else w2(w(a), 7))
    for n, w in wraps.items():
        add(f"empty {n}", w())
        for n2, w2 in wraps.items():
            if n2 == "set" and n != "tuple":
                continue
            add(f"{n2} of empty {n}", w2(w()))
    for s in STRS:
        add(f"str {s!r}", s)
        add(f"key {s!r}", {s: 1, "other": [s]})
    return out


@suite("C01", 150)
def wide_and_deep(r, t):
    n = r.choice([10, 50, 90, 300])
    k = r.randrange(5)
    if k == 0:
        x = [gatom(r) for _ in range(n)]
    elif k == 1:
        x = {f"k{i}": gatom(r) for i in range(n)}
    elif k == 2:
        x = {gint(r) for i in range(n)} | {gstr(r) for i in range(5)}
    else:
        x = gatom(r)
        for i in range(min(n, 60)):
            x = r.choice([lambda v: [v], lambda v: (v,), lambda v: {"k": v}, lambda v: [1, v, "z"], lambda v: {"a": 1, "b": v}])(x)
    t.note(x)
    trip(x, **r.choice(OPTS))


@suite("C01", 200)
def objects_of_the_library(r, t):
    """Pickler/Unpickler used directly, without JSON text."""
    x = t.note(gplain(r, 3))
    o = r.choice(OPTS)
    j = Pickler(**o).flatten(x)
    y = Unpickler(keys=o["keys"]).restore(j)
    same(x, y, ids=False)


@suite("C01", 100)
def repeated_values(r, t):
    """The same atom object many times (small ints, interned strings, one
    bytes object) is not mistaken for a shared reference."""
    a = gatom(r)
    x = [a, [a, {"k": a}], (a, a), a, {"a": a, "b": [a]}]
    t.note(x)
    trip(x, **r.choice(OPTS))


@suite("C01", 150)
def no_references(r, t):
    """make_refs=False on a tree gives the same result."""
    x = t.note(gplain(r, 3))
    s = jsonpickle.encode(x, make_refs=False)
    same(x, jsonpickle.decode(s), ids=False)
