from .lib import *
from . import classes as C
import builtins
import json
import os.path
import jsonpickle
import jsonpickle.unpickler

U = jsonpickle.unpickler.Unpickler
FLAG = []


def touch(*a):
    """Called only if text from a document is evaluated."""
    FLAG.append(a)
    return "evaluated"


class St:
    def __setstate__(self, s):
        self.s = s


class New:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.a, o.k = a, k
        return o


def make(*a, **k):
    return [a, k]


EVIL = ["bounded.c12/bounded.c12.touch()", "bounded.c12/bounded.c12.touch(1)", "bounded.c12/__import__('bounded.c12').c12.touch()",
        "builtins/__import__('bounded.c12').c12.touch()", "os/__import__('bounded.c12').c12.touch(2)", "bounded.c12/[bounded.c12.touch() for x in (1,)]",
        "bounded.c12/bounded.c12.touch(*[1,2])", "bounded.c12/(lambda: bounded.c12.touch())()", "json/__import__('bounded').c12.touch()",
        "bounded.c12/bounded.c12.c12.touch()", "bounded.c12/bounded.c12.touch.__call__()", "sys/sys.modules['bounded.c12'].touch()"]

WRAPS = {
    "root": lambda v: v,
    "list": lambda v: [1, v],
    "dict": lambda v: {"a": v},
    "tuple": lambda v: {"py/tuple": [v, 1]},
    "set": lambda v: {"py/set": [1, v]},
    "iterator": lambda v: {"py/iterator": [v]},
    "attribute": lambda v: {"py/object": "bounded.classes.Plain", "a": v},
    "item of dict subclass": lambda v: {"py/object": "bounded.classes.MyDict", "a": v},
    "dict of dict subclass": lambda v: {"py/object": "bounded.classes.MyDict", "__dict__": {"b": v}},
    "seq": lambda v: {"py/object": "bounded.classes.MyList", "py/seq": [v]},
    "state": lambda v: {"py/object": "bounded.c12.St", "py/state": v},
    "state dict": lambda v: {"py/object": "bounded.classes.Plain", "py/state": {"k": v}},
    "newargs": lambda v: {"py/object": "bounded.c12.New", "py/newargs": {"py/tuple": [v]}},
    "newargsex": lambda v: {"py/object": "bounded.c12.New", "py/newargsex": [{"py/tuple": [v]}, {"k": v}]},
    "initargs": lambda v: {"py/object": "bounded.c12.New", "py/initargs": [v]},
    "factory": lambda v: {"py/object": "collections.defaultdict", "default_factory": v},
    "tagged factory": lambda v: {"py/object": "collections.defaultdict", "py/default_factory": v, "default_factory": 1},
    "reduce args": lambda v: {"py/reduce": [{"py/function": "bounded.c12.make"}, {"py/tuple": [v]}]},
    "reduce state": lambda v: {"py/reduce": [{"py/type": "bounded.c12.New"}, {"py/tuple": []}, {"z": v}]},
    "reduce items": lambda v: {"py/reduce": [{"py/type": "collections.deque"}, {"py/tuple": []}, None, {"py/tuple": [v]}]},
    "value of encoded key": lambda v: {"json://1": v},
    "slots": lambda v: {"py/object": "bounded.classes.Slots", "a": v},
    "missing class": lambda v: {"py/object": "no.such.Cls", "a": v},
    "handled": lambda v: {"py/object": "uuid.UUID", "hex": "0" * 32, "x": v},
}
KEYED = {
    "encoded key": lambda v: {"json://" + json.dumps({"py/tuple": [v]}): 1},
    "key itself": lambda v: {"json://" + json.dumps(v): 1},
    "key in key": lambda v: {"json://" + json.dumps({"py/reduce": [{"py/type": "bounded.classes.Key"}, {"py/tuple": [{"py/tuple": [v]}]}]}): 1},
    "key of dict subclass": lambda v: {"py/object": "bounded.classes.MyDict", "json://" + json.dumps(v): 2},
    "key of state": lambda v: {"py/object": "bounded.c12.St", "py/state": {"json://" + json.dumps(v): 2}},
    "nested in two keys": lambda v: {"json://" + json.dumps({"py/reduce": [{"py/type": "bounded.classes.Key"}, {"py/tuple": [{"json://" + json.dumps(v): 2}]}]}): 1},
}


class Watch:
    """Fails when eval, exec or compile is called by the library."""

    def __enter__(self):
        import sys
        self.hits = []
        self.saved = {n: getattr(builtins, n) for n in ("eval", "exec", "compile")}

        def spy(n):
            f = self.saved[n]

            def g(*a, **k):
                caller = sys._getframe(1).f_globals.get("__name__", "")
                if caller.startswith("jsonpickle"):
                    self.hits.append((n, a[:1]))
                return f(*a, **k)
            return g
        for n in self.saved:
            setattr(builtins, n, spy(n))
        FLAG.clear()
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(builtins, n, f)


def safe_run(j, how):
    with Watch() as w:
        try:
            how(j)
        except Exception:
            pass
    if FLAG:
        raise Bad("text of a repr entry was evaluated", document=json.dumps(j))
    if w.hits:
        raise Bad(f"{w.hits[0][0]} was called on {short(w.hits[0][1], 80)}", document=json.dumps(j))


HOWS = {
    "decode": lambda j: jsonpickle.decode(json.dumps(j)),
    "loads": lambda j: jsonpickle.loads(json.dumps(j)),
    "safe=True": lambda j: jsonpickle.decode(json.dumps(j), safe=True),
    "Unpickler": lambda j: U().restore(j),
    "context": lambda j: jsonpickle.decode(json.dumps(j), context=U()),
    "v1": lambda j: jsonpickle.decode(json.dumps(j), v1_decode=True),
    "warn": lambda j: jsonpickle.decode(json.dumps(j), on_missing="ignore", handle_readonly=True),
}
KEYHOWS = {
    "decode keys": lambda j: jsonpickle.decode(json.dumps(j), keys=True),
    "Unpickler keys": lambda j: U(keys=True).restore(j),
    "context keys": lambda j: jsonpickle.decode(json.dumps(j), keys=True, context=U(keys=True)),
    "safe keys": lambda j: jsonpickle.decode(json.dumps(j), keys=True, safe=True),
}


@fixed("C12")
def every_position():
    out = []
    for name, w in {**WRAPS, **KEYED}.items():
        def thunk(w=w, name=name):
            for e in EVIL:
                v = {"py/repr": e}
                hows = {**(HOWS if name not in KEYED else {}), **KEYHOWS}
                for h in hows.values():
                    safe_run(w(v), h)
                    safe_run([w(v), w(v)], h)
        out.append((f"safe {name}", thunk))

    positions = [n for n in WRAPS if n not in ("missing class", "handled", "set")]
    for name in positions + list(KEYED):
        def thunk(name=name):
            """With safe=False the entry is evaluated wherever it is."""
            w = {**WRAPS, **KEYED}[name]
            j = w({"py/repr": "bounded.c12/bounded.c12.touch(7)"})
            k = name in KEYED or name == "value of encoded key"
            for h in (lambda: jsonpickle.decode(json.dumps(j), safe=False, keys=k), lambda: U(safe=False, keys=k).restore(json.loads(json.dumps(j))),
                      lambda: jsonpickle.decode(json.dumps(j), keys=k, context=U(safe=False, keys=k))):
                FLAG.clear()
                try:
                    h()
                except TypeError:
                    pass
                if (7,) not in FLAG:
                    raise Bad("the caller's safe=False does not reach this position", document=json.dumps(j))
            FLAG.clear()
            jsonpickle.decode(json.dumps(j), keys=k)
            if FLAG:
                raise Bad("evaluated although safe", document=json.dumps(j))
        out.append((f"unsafe {name}", thunk))

    def legacy():
        """A repr entry names an attribute of a module."""
        for text, want in (("json/json.dumps", json.dumps), ("os.path/os.path", os.path), ("os.path/os.path.join", os.path.join), ("json/json", json), ("builtins/builtins.int", int)):
            y = jsonpickle.decode(json.dumps([{"py/repr": text}]))
            if y != [want]:
                raise Bad(f"{text} gave {y!r}")
        for text in ("json/json.nothing", "no.such.module/no.such.module.x", "json/os.path", "json/jso.dumps"):
            y = jsonpickle.decode(json.dumps([{"py/repr": text}]))
            if y != [None]:
                raise Bad(f"{text} gave {y!r}")
    out.append(("legacy names", legacy))

    def falsy_safe():
        """Only the caller decides: a document cannot turn safe mode off."""
        for j in ({"safe": False, "x": {"py/repr": EVIL[0]}}, [{"py/object": "jsonpickle.unpickler.Unpickler", "safe": False}, {"py/repr": EVIL[0]}]):
            for h in HOWS.values():
                safe_run(j, h)
    out.append(("document cannot switch", falsy_safe))

    def history():
        """An unsafe decode does not make a later one unsafe."""
        j = {"a": {"py/repr": EVIL[0]}}
        u = U()
        u2 = U(safe=False)
        for _ in range(2):
            u2.restore(j)
            jsonpickle.decode(json.dumps(j), safe=False)
            for h in HOWS.values():
                safe_run(j, h)
            safe_run(j, u.restore)
    out.append(("history", history))
    return out


@suite("C12", 2500)
def random_documents(r, t):
    def doc(d):
        k = r.randrange(4)
        if d <= 0 or k == 0:
            return {"py/repr": r.choice(EVIL)}
        if k == 1:
            return r.choice([1, "x", None, [], {}])
        v = doc(d - 1)
        if r.random() < 0.3:
            return r.choice(list(KEYED.values()))(v)
        w = r.choice(list(WRAPS.values()))(v)
        if r.random() < 0.3 and isinstance(w, dict):
            v = json.loads(json.dumps(v))
            w[r.choice(TAGS + ["k"])] = r.choice([v, 1, "bounded.classes.Plain", EVIL[0], [v]])
        return w
    j = doc(4)
    t.note(j)
    safe_run(j, r.choice(list(HOWS.values()) + list(KEYHOWS.values()) * 2))
