from .lib import *
from . import classes as C
import builtins
import collections
import datetime
import importlib
import json
import sys
import types
import jsonpickle
import jsonpickle.util as util
import jsonpickle.unpickler as unpickler

STD = ["json", "json.decoder", "json.encoder", "collections", "collections.abc", "os", "os.path", "datetime", "decimal", "fractions", "math", "re", "string", "itertools", "functools", "operator", "email.message", "xml.etree.ElementTree",
       "logging", "logging.handlers", "unittest.mock", "urllib.parse", "types", "enum", "uuid", "random", "pathlib", "io", "asyncio", "concurrent.futures", "importlib.machinery", "builtins", "sys", "bounded.classes"]


def values():
    seen, out = set(), []
    for m in STD:
        mod = importlib.import_module(m)
        for n, v in sorted(vars(mod).items()):
            if id(v) in seen or n.startswith("__"):
                continue
            if isinstance(v, type):
                if own(v):
                    seen.add(id(v)), out.append(v)
            elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
                if own(v) and v.__name__ != "<lambda>":
                    seen.add(id(v)), out.append(v)
    return out


def own(v):
    """The qualified name identifies the value (a fact about Python, not about the code under test)."""
    m, q = getattr(v, "__module__", None), getattr(v, "__qualname__", None)
    if not m or not q or "<" in q:
        return False
    o = sys.modules.get(m)
    for p in q.split("."):
        o = getattr(o, p, None)
    return o is v


VALUES = None


def trip(x, **kw):
    return jsonpickle.decode(jsonpickle.encode(x, **kw), keys=kw.get("keys", False))


def wrap(r, v, kw):
    k = r.randrange(6)
    if k == 0: return trip(v, **kw)
    if k == 1: return trip([v, 1], **kw)[0]
    if k == 2: return trip({"a": v}, **kw)["a"]
    if k == 3: return trip((0, v), **kw)[1]
    if k == 4:
        o = C.Plain.__new__(C.Plain)
        o.f = v
        return trip(o, **kw).f
    y = trip([[1], v, [2], v, v], **kw)
    if y[0] != [1] or y[2] != [2] or y[3] is not y[1] or y[4] is not y[1]:
        raise Bad("neighbours differ", result=y)
    return y[1]


@suite("C21", 2500)
def references(r, t):
    global VALUES
    VALUES = VALUES or values()
    v = r.choice(VALUES)
    kw = r.choice([{}, {}, {"keys": True}, {"make_refs": False}, {"warn": True}])
    t.note((v, kw))
    y = wrap(r, v, kw)
    if y is not v:
        raise Bad("not the identical object", original=v, result=y, document=jsonpickle.encode(v))


@suite("C21", 400)
def modules(r, t):
    m = sys.modules[importlib.import_module(r.choice(STD)).__name__]
    t.note(m.__name__)
    y = wrap(r, m, {})
    if y is not m:
        raise Bad("not the identical module", original=m, result=y)


WORDS = ["a", "b", "Cls", "mod", "x1", "_p", "Inner", "é"]


class layout:
    """Temporary modules with nested classes and functions, all names distinct along a path."""

    def __init__(self, r):
        self.r, self.names, self.values = r, [], []
        n = r.randint(1, 4)
        words = r.sample(WORDS, len(WORDS))
        path = "vq_" + words[0]
        for i in range(n):
            m = types.ModuleType(path)
            if i < n - 1:
                m.__path__ = []
            sys.modules[path] = m
            if i:
                parent, _, leaf = path.rpartition(".")
                # a package may well use the name of a submodule for something else
                setattr(sys.modules[parent], leaf, m if r.random() < 0.7 else r.choice([len, 1, type("Shadow", (), {})]))
            self.names.append(path)
            for j in range(r.randint(0, 2)):
                self.klass(m, path, f"K{i}{j}", "", r.randint(0, 3))
            if r.random() < 0.5:
                exec(f"def fn{i}(): return {i}", m.__dict__)
                m.__dict__[f"fn{i}"].__module__ = path
                self.values.append(m.__dict__[f"fn{i}"])
            path += "." + words[i + 1] + str(i)
        if not self.values:
            self.klass(sys.modules[self.names[-1]], self.names[-1], "Last", "", 1)

    def klass(self, holder, mod, name, prefix, depth):
        c = type(name, (), {"__module__": mod, "__qualname__": prefix + name})
        setattr(holder, name, c)
        self.values.append(c)
        if depth:
            self.klass(c, mod, name + "i", prefix + name + ".", depth - 1)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in self.names:
            sys.modules.pop(n, None)


@suite("C21", 1500)
def layouts(r, t):
    with layout(r) as L:
        v = r.choice(L.values)
        t.note((L.names, v.__module__, v.__qualname__))
        if wrap(r, v, {}) is not v:
            raise Bad("not the identical object", document=jsonpickle.encode(v))
        if util.loadclass(util.importable_name(v)) is not v:
            raise Bad("loading its name gives something else", name=util.importable_name(v))
        if isinstance(v, type):
            o = v()
            o.q = 1
            d = json.loads(jsonpickle.encode(o))
            y = jsonpickle.decode(json.dumps(d))
            if type(y) is not v or y.q != 1:
                raise Bad("instance restored as another class", document=d, result=y)
            if util.loadclass(d["py/object"]) is not v:
                raise Bad("the entry names another class", document=d)
        m = sys.modules[r.choice(L.names)]
        if wrap(r, m, {}) is not m:
            raise Bad("not the identical module", module=m.__name__)
        # names that do not exist
        full = v.__module__ + "." + v.__qualname__
        for bad in (full + ".zzz", full + "zzz", v.__module__ + ".zzz", v.__module__ + ".zzz." + v.__name__, "zzz." + full, full + ".", "." + full, full.replace(".", "..", 1)):
            got = util.loadclass(bad)
            if got is not None:
                raise Bad("a name that does not exist loads an object", name=bad, result=got)


@suite("C21", 600)
def missing(r, t):
    parts = [r.choice(["json", "decoder", "JSONDecoder", "nope", "os", "path", "collections", "OrderedDict", "builtins", "int", "Nope", "x", "", "bounded", "classes", "Outer", "Inner", "é", "__class__x"]) for _ in range(r.randint(1, 5))]
    name = ".".join(parts)
    t.note(name)
    got = util.loadclass(name)
    exists = False
    for i in range(1, len(parts)):
        try:
            o = importlib.import_module(".".join(parts[:i])) if parts[0] else None
        except (ImportError, ValueError, TypeError):
            continue
        for p in parts[i:]:
            o = getattr(o, p, None)
            if o is None:
                break
        else:
            exists = exists or o is got
    if got is not None and not exists:
        raise Bad("a name that does not exist loads an object", result=got)


@fixed("C21")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @case("types without an importable name of their own")
    def _():
        for v in (type(None), type(lambda: 0), types.ModuleType, type(len), type(C.Plain.__init__), types.MethodType, types.GeneratorType, types.CodeType, types.SimpleNamespace, types.MappingProxyType, types.CoroutineType, types.BuiltinFunctionType,
                  type(object().__str__), type([].append), type(int.__add__), types.TracebackType, types.FrameType, types.CellType):
            if trip([v])[0] is not v:
                raise Bad("not the identical type", original=v, document=jsonpickle.encode(v))

    @case("builtin functions and constructors")
    def _():
        for v in (len, print, max, sorted, isinstance, getattr, int, str, dict, object, Exception, KeyError, type, NotImplementedError, range, slice, memoryview, property, super):
            if trip({"f": v})["f"] is not v:
                raise Bad("not identical", original=v)

    @case("nested classes as values and instances")
    def _():
        for v in (C.Outer, C.Outer.Inner, C.Outer.Inner.Innermost, C.Outer.InnerSlots, collections.OrderedDict, datetime.datetime, jsonpickle.pickler.Pickler):
            if trip([v, {"k": v}])[1]["k"] is not v or trip(v) is not v:
                raise Bad("not identical", original=v)

    @case("legacy module names")
    def _():
        for n, v in (("__builtin__.int", int), ("exceptions.KeyError", KeyError), ("__builtin__.dict", dict)):
            if util.loadclass(n) is not v:
                raise Bad("legacy name is not loaded", name=n, result=util.loadclass(n))
            if jsonpickle.decode(json.dumps({"py/type": n})) is not v:
                raise Bad("legacy type reference is not loaded", name=n)

    @case("missing type and function references")
    def _():
        d = {"py/type": "no.such.Thing"}
        if jsonpickle.decode(json.dumps(d)) != d:
            raise Bad("missing type reference")
        if jsonpickle.decode(json.dumps({"py/function": "no.such.fn"})) is not None:
            raise Bad("missing function reference")
        for n in ("NoneType", "builtins.NoneTypes", "int", "json", "C", ""):
            if util.loadclass(n) is not None:
                raise Bad("loads an object", name=n)
        if util.loadclass("builtins.NoneType") is not type(None):
            raise Bad("NoneType")
        for s in ("nosuch/nosuch", "json/other", "json/json.nope", "json/json.decoder.nope"):
            if unpickler._loadmodule(s) is not None:
                raise Bad("a missing module entry loads an object", entry=s)
            if jsonpickle.decode(json.dumps([{"py/mod": s}, [1]])) != [None, [1]]:
                raise Bad("a missing module entry loads an object", entry=s)
    return out
