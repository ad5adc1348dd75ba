from .lib import *
from . import classes as C
import json
import warnings
import jsonpickle
import jsonpickle.errors
import jsonpickle.unpickler
import jsonpickle.util

U = jsonpickle.unpickler.Unpickler
MISSING = ["no.such.Cls", "bounded.classes.Gone", "bounded.classes.Outer.Gone", "NoModule", "json.Nope", "bounded.classes.Plain.nothing.at.all", "x.y.z.W", "", ".", "a..b", "builtins.nothing", "no_such_module_xyz.C"]


class A:
    pass


class B:
    pass


class Local1:
    pass


def entry(name, **kw):
    return dict({"py/object": name}, **kw)


def gdoc(r, names, log, depth=3):
    """A document with entries; log gets the missing names in order."""
    def v(d):
        k = r.randrange(9)
        if k < 3 and d < 3:
            n = r.choice(names)
            log.append(n)
            e = entry(n)
            for a in "ab"[:r.randint(0, 2)]:
                e[a] = r.choice([1, "x", [1], {"z": 2}])
            return e
        if d <= 0 or k == 3:
            return r.choice([1, "s", None, True])
        n = r.randint(1, 3)
        if k < 6: return [v(d - 1) for _ in range(n)]
        if k < 8: return {c: v(d - 1) for c in "abc"[:n]}
        return entry("bounded.classes.Plain", x=v(d - 1), y=v(d - 1))
    return [v(depth) for _ in range(r.randint(1, 3))]


def plain(y):
    """Result with Plain instances turned back into entries."""
    if type(y) is list: return [plain(v) for v in y]
    if type(y) is dict: return {k: plain(v) for k, v in y.items()}
    if type(y) is C.Plain: return entry("bounded.classes.Plain", **{k: plain(v) for k, v in y.__dict__.items()})
    if y is None or type(y) in (int, str, bool): return y
    raise Bad(f"unexpected {type(y).__name__} in the result")


@suite("C14", 2000)
def reactions(r, t):
    log = []
    j = gdoc(r, MISSING, log)
    mode = r.choice(["ignore", "warn", "error", "fn", "IGNORE", "Warn", "ERROR", "default"])
    t.note((mode, j))
    s = json.dumps(j)
    got = []

    def cb(name):
        got.append(name)
        return r.choice([None, C.Plain, 1])
    o = {} if mode == "default" else {"on_missing": cb if mode == "fn" else mode}
    via = r.randrange(3)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            if via == 0 or mode in ("IGNORE", "Warn", "ERROR"):
                y = jsonpickle.decode(s, **o)
            elif via == 1:
                y = U(**o).restore(json.loads(s))
            else:
                y = jsonpickle.decode(s, context=U(**o))
            err = None
        except jsonpickle.errors.ClassNotFoundError as e:
            err = e
    warned = [str(x.message) for x in w]
    m = mode.lower()
    if m == "error" and log:
        if err is None:
            raise Bad("no ClassNotFoundError")
        if log[0] not in str(err):
            raise Bad(f"the error {err} does not name the first missing class {log[0]!r}")
        if warned:
            raise Bad("also warned")
        return
    if err is not None:
        raise Bad(f"raised {err!r} with on_missing={mode}")
    if plain(y) != j:
        raise Bad("the result is not the document's dict", result=y)
    if m == "warn":
        if len(warned) != len(log) or any(n not in s for n, s in zip(log, warned)):
            raise Bad(f"{len(warned)} warnings for {len(log)} missing entries", warnings=warned)
    elif warned:
        raise Bad("unexpected warnings", warnings=warned)
    if m == "fn":
        if got != log:
            raise Bad("callback calls differ", got=got, expected=log)
    elif got:
        raise Bad("callback called")


FORMS = {
    "single": lambda c: c,
    "list": lambda c: [c],
    "tuple": lambda c: (c,),
    "set": lambda c: {c},
    "nested": lambda c: [B, (A, [c])],
    "dict name": lambda c: {name(c): c},
    "dict class": lambda c: {c: c},
    "list of many": lambda c: [A, B, c],
}


def name(c):
    return c.__module__ + "." + c.__qualname__


def local():
    class Hidden:
        pass
    return Hidden


def shadow():
    """A class with the same qualified name as an importable one."""
    c = type("Plain", (), {"__module__": "bounded.classes", "__qualname__": "Plain"})
    return c


@suite("C14", 1200)
def given_classes(r, t):
    c = r.choice([local, shadow, lambda: type("Fresh", (C.Plain,), {"__module__": "far.away", "__qualname__": "Fresh"})])()
    form = r.choice(list(FORMS))
    t.note((name(c), form))
    o = c()
    o.a, o.b = gplain(r, 1), [1]
    arg = FORMS[form](c)
    s = json.dumps([entry(name(c), a=1, b=[1]), entry("bounded.classes.Other", z=2), {"k": entry(name(c))}])
    u = U()
    y = r.choice([lambda: jsonpickle.decode(s, classes=arg), lambda: jsonpickle.decode(s, classes=arg, on_missing="error"), lambda: u.restore(json.loads(s), classes=arg),
                  lambda: jsonpickle.decode(s, classes=arg, context=u), lambda: jsonpickle.loads(s, classes=arg)])()
    if type(y[0]) is not c or type(y[2]["k"]) is not c:
        raise Bad(f"the given class was not used: {type(y[0])}")
    if y[0].__dict__ != {"a": 1, "b": [1]} or type(y[1]) is not C.Other or y[1].z != 2:
        raise Bad("rest differs", result=y)
    # real round trip
    z = jsonpickle.decode(jsonpickle.encode([o, o]), classes=arg)
    if type(z[0]) is not c or z[0] is not z[1]:
        raise Bad("round trip with classes differs")
    same(o.a, z[0].a, ids=False)
    # only for that call
    for y in (jsonpickle.decode(s), u.restore(json.loads(s)), jsonpickle.decode(s, context=u), jsonpickle.decode(s, classes=A)):
        if type(y[0]) is c:
            raise Bad("the class is still used by a later call")


@fixed("C14")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @case("dict maps names to other classes")
    def _():
        s = jsonpickle.encode([C.Plain(), C.Other()])
        y = jsonpickle.decode(s, classes={"bounded.classes.Plain": A, "bounded.classes.Other": B})
        if [type(v) for v in y] != [A, B]:
            raise Bad("mapping ignored", result=y)
        y = jsonpickle.decode(s, classes={C.Plain: B})
        if [type(v) for v in y] != [B, C.Other]:
            raise Bad("mapping by class ignored", result=y)
        y = jsonpickle.decode(json.dumps(entry("old.path.Thing", a=1)), classes={"old.path.Thing": A})
        if type(y) is not A or y.a != 1:
            raise Bad("renamed class ignored", result=y)

    @case("several classes at once")
    def _():
        s = json.dumps([entry("q.A"), entry("q.B"), entry(name(A)), entry("q.C")])
        y = jsonpickle.decode(s, classes={"q.A": B, "q.B": A})
        if [type(v) for v in y] != [B, A, A, dict]:
            raise Bad("wrong classes", result=y)

    @case("types, functions and reduce use the given classes")
    def _():
        L = local()
        n = name(L)
        y = jsonpickle.decode(json.dumps([{"py/type": n}, {"py/reduce": [{"py/type": n}, {"py/tuple": []}]}]), classes=[L])
        if y[0] is not L or type(y[1]) is not L:
            raise Bad("given class not used for type references", result=y)

    @case("given class inside encoded keys")
    def _():
        L = type("K", (), {"__module__": "far.away", "__qualname__": "K", "__hash__": lambda s: 1, "__eq__": lambda a, b: type(a) is type(b)})
        o = L()
        o.n = 1
        s = jsonpickle.encode({o: [1]}, keys=True)
        y = jsonpickle.decode(s, keys=True, classes=L)
        if type(list(y)[0]) is not L or list(y)[0].n != 1:
            raise Bad("given class not used inside a key", result=y)

    @case("named tuples of given classes")
    def _():
        N = collections.namedtuple("N", ["a", "b"], module="far.away")
        y = jsonpickle.decode(jsonpickle.encode([N(1, [2])]), classes=[N])
        if type(y[0]) is not N or y[0] != N(1, [2]):
            raise Bad("named tuple of a given class lost", result=y)

    @case("missing entries keep their reference number")
    def _():
        j = [entry("no.such.C", a=1), [2], {"py/id": 1}, {"py/id": 2}]
        for o in ({}, {"on_missing": lambda n: None}):
            y = jsonpickle.decode(json.dumps(j), **o)
            if y[2] is not y[0] or y[3] is not y[1]:
                raise Bad("references differ", result=y)

    @case("a falsy or odd on_missing warns and is ignored")
    def _():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            y = jsonpickle.decode(json.dumps(entry("no.such.C", a=1)), on_missing=None)
        if y != entry("no.such.C", a=1):
            raise Bad("result differs", result=y)

    @case("an exception of the callback propagates")
    def _():
        def cb(n):
            raise KeyError(n)
        try:
            jsonpickle.decode(json.dumps([entry("no.such.C")]), on_missing=cb)
        except KeyError as e:
            if e.args != ("no.such.C",):
                raise Bad("other argument")
        else:
            raise Bad("the exception disappeared")

    @case("a class that exists never triggers a reaction")
    def _():
        got = []
        for o in ({"on_missing": "error"}, {"on_missing": got.append if False else (lambda n: got.append(n))}):
            for x in (C.Plain(), [C.Other()], C.NT1(1), collections.OrderedDict(a=1), C.Color.RED, C.Frozen(1)):
                jsonpickle.decode(jsonpickle.encode(x), **o)
        if got:
            raise Bad("callback called for existing classes", got=got)

    @case("many occurrences of the same name")
    def _():
        for n in (1, 2, 5):
            got = []
            jsonpickle.decode(json.dumps([entry("no.such.C")] * n), on_missing=lambda x: got.append(x))
            if got != ["no.such.C"] * n:
                raise Bad(f"{len(got)} calls for {n} occurrences")
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                jsonpickle.decode(json.dumps([entry("no.such.C")] * n), on_missing="warn")
            if len(w) != n:
                raise Bad(f"{len(w)} warnings for {n} occurrences")
    return out
