from .lib import *
from . import classes as C
import collections
import json
import jsonpickle
import jsonpickle.handlers as H
import jsonpickle.pickler


class Boom(Exception):
    pass


class BadState:
    def __init__(self, e):
        self.e = e

    def __getstate__(self):
        raise self.e


class BadReduce:
    def __init__(self, e):
        self.e = e

    def __reduce__(self):
        raise self.e


class BadSlot:
    __slots__ = ("e", "x")

    def __init__(self, e):
        self.e = e

    def __getattribute__(self, n):
        if n == "e":
            raise object.__getattribute__(self, "e")
        return object.__getattribute__(self, n)


class BadSlotValue:
    """A slot value that fails inside; the value fails, not the owner."""
    __slots__ = ("a",)


class BadNewArgs:
    def __init__(self, e):
        self.e = e

    def __getnewargs__(self):
        raise self.e


class BadDict(dict):
    def __init__(self, e):
        self.e = e

    def items(self):
        raise self.e


class BadList(list):
    def __init__(self, e):
        self.e = e

    def __iter__(self):
        raise self.e


class Handled:
    def __init__(self, e):
        self.e = e


class BadHandler(H.BaseHandler):
    def flatten(self, obj, data):
        raise obj.e

    def restore(self, data):
        return None


H.register(Handled, BadHandler)


def badgen(e, items=()):
    yield from items
    raise e


class StateThenFail:
    """Fails only after a part of it has been flattened."""

    def __init__(self, parts, e):
        self.parts, self.e = parts, e

    def __getnewargs__(self):
        return tuple(self.parts)

    def __getstate__(self):
        raise self.e


FAILING = [BadState, BadReduce, BadNewArgs, BadDict, BadList, Handled, BadSlot]


class Marker:
    """Stands for a failing object in the comparison graph."""


def gexc(r):
    return r.choice([Boom("x"), ValueError(1), KeyError("k"), RuntimeError(), ZeroDivisionError(), IndexError(3), OSError(2, "m"), StopIteration() if False else Boom(), LookupError(), AssertionError("a"),
                     NotImplementedError(), UnicodeError("u"), RecursionError("r"), MemoryError() if False else Boom("m")])


def gfail(r, shared):
    e = gexc(r)
    k = r.randrange(len(FAILING) + 2)
    if k < len(FAILING):
        return FAILING[k](e), e
    if k == len(FAILING):
        return badgen(e, [r.choice(shared) for _ in range(r.randint(0, 3))] if shared else []), e
    return StateThenFail([r.choice(shared) for _ in range(r.randint(0, 3))] if shared else [], e), e


def ggraph(r, fails, repl):
    """Two copies of one graph: with failing objects, and with their
    replacement value."""
    shared = []

    def pair(depth):
        k = r.randrange(11)
        if shared and k == 0:
            return r.choice(shared)
        if k == 1 or (k == 2 and depth > 2):
            f, e = gfail(r, [s[0] for s in shared])
            fails.append((f, e))
            return f, repl
        if depth <= 0 or k < 4:
            a = gatom(r)
            return a, a
        n = r.choice([1, 2, 3])
        if k < 6:
            x, y = [], []
            for _ in range(n):
                a, b = pair(depth - 1)
                x.append(a)
                y.append(b)
        elif k < 8:
            x, y = {}, {}
            for _ in range(n):
                kk = gkey(r)
                if kk in x:
                    continue
                a, b = pair(depth - 1)
                x[kk], y[kk] = a, b
        elif k == 8:
            ps = [pair(depth - 1) for _ in range(n)]
            return tuple(p[0] for p in ps), tuple(p[1] for p in ps)
        elif k == 9:
            x, y = C.Plain.__new__(C.Plain), C.Plain.__new__(C.Plain)
            for nm in "abc"[:n]:
                a, b = pair(depth - 1)
                setattr(x, nm, a)
                setattr(y, nm, b)
        else:
            x, y = C.Slots.__new__(C.Slots), C.Slots.__new__(C.Slots)
            for nm in "abc"[:n]:
                a, b = pair(depth - 1)
                setattr(x, nm, a)
                setattr(y, nm, b)
        shared.append((x, y))
        return x, y
    xs, ys = [], []
    for _ in range(r.randint(1, 5)):
        a, b = pair(3)
        xs.append(a)
        ys.append(b)
    return xs, ys


def used(x, fails):
    """The failing objects reachable from x (those in a replaced graph only)."""
    return fails


@suite("C10", 2500)
def replaced(r, t):
    repl = r.choice([None, "failed", 0, False, "", 7.5])
    fails = []
    x, y = ggraph(r, fails, repl)
    t.note((repl, x))
    seen = []

    def safe(e):
        seen.append(e)
        return repl
    o = {}
    if r.random() < 0.3: o["keys"] = True
    if r.random() < 0.2: o["use_base85"] = True
    s = jsonpickle.encode(x, fail_safe=safe, **o)
    w = jsonpickle.encode(y, **o)
    if s != w:
        raise Bad("the rest of the document differs from one with the failing objects replaced", encoded=s, expected=w)
    if len(seen) != len(fails) or {id(e) for e in seen} != {id(e) for _, e in fails}:
        raise Bad(f"fail_safe called {len(seen)} times for {len(fails)} failing objects", got=seen, expected=fails)
    # the graph without failing objects is not touched by the option
    if jsonpickle.encode(y, fail_safe=safe, **o) != w:
        raise Bad("fail_safe changes a graph without failures")


@fixed("C10")
def details():
    out = []

    def case(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    def calls(f):
        def g(e):
            g.n += 1
            return f(e)
        g.n = 0
        return g
    for F in FAILING + [badgen]:
        def propagate(F=F):
            for e in (Boom("a"), ValueError("v"), KeyError("q"), RuntimeError("r"), IndexError(1), OSError(1), ArithmeticError()):
                for wrap in (lambda v: v, lambda v: [v], lambda v: {"k": v}, lambda v: (v,), lambda v: C.Frozen(v), lambda v: C.NT1(v), lambda v: C.MyList([v]), lambda v: slot(v), lambda v: {"a": {"b": [v]}}):
                    try:
                        jsonpickle.encode(wrap(F(e)))
                    except Exception as e2:
                        if e2 is not e:
                            raise Bad(f"{e!r} came out as {e2!r}")
                    else:
                        raise Bad(f"{e!r} disappeared")
        out.append((f"propagate {F.__name__}", propagate))

        def stop(F=F):
            for e in (KeyboardInterrupt(), SystemExit(3)):
                for wrap in (lambda v: v, lambda v: [v], lambda v: {"k": v}, lambda v: (v,), lambda v: C.Frozen(v), lambda v: slot(v)):
                    safe = calls(lambda e: "no")
                    for o in ({}, {"fail_safe": safe}, {"fail_safe": safe, "unpicklable": False}):
                        x = F(e)
                        if o.get("unpicklable") is False and F is BadReduce:
                            continue
                        try:
                            jsonpickle.encode(wrap(x), **o)
                        except (KeyboardInterrupt, SystemExit) as e2:
                            if e2 is not e:
                                raise Bad(f"{e!r} came out as {e2!r}")
                        else:
                            raise Bad(f"{e!r} did not propagate with {list(o)}")
                    if safe.n:
                        raise Bad(f"fail_safe called for {e!r}")
        out.append((f"interrupt {F.__name__}", stop))

        def inner(F=F):
            """Only the failing object is replaced."""
            for wrap, want in ((lambda v: v, "R"), (lambda v: [1, v, 2], [1, "R", 2]), (lambda v: {"k": v, "z": 1}, {"k": "R", "z": 1}), (lambda v: [[v], [v]], [["R"], ["R"]] if F is not badgen else None),
                               (lambda v: {"a": {"b": [v, 1]}}, {"a": {"b": ["R", 1]}})):
                if want is None:
                    continue
                x = wrap(F(Boom("q")))
                j = json.loads(jsonpickle.encode(x, fail_safe=lambda e: "R"))
                if j != want:
                    raise Bad("wrong replacement", result=j, expected=want)
                if F is BadReduce:
                    continue
                x = wrap(F(Boom("q")))
                j = json.loads(jsonpickle.encode(x, fail_safe=lambda e: "R", unpicklable=False))
                if j != want:
                    raise Bad("wrong replacement with unpicklable=False", result=j, expected=want)
        out.append((f"inner {F.__name__}", inner))

    def slot(v):
        o = BadSlotValue()
        o.a = v
        return o

    @case("owner of a failing slot or attribute value is kept")
    def _():
        for mk in (slot, lambda v: attr(v)):
            y = jsonpickle.decode(jsonpickle.encode([mk(BadState(AttributeError("q"))), mk(BadState(Boom()))], fail_safe=lambda e: "R"))
            if [getattr(v, "a", None) for v in y] != ["R", "R"]:
                raise Bad("the owner was changed", result=[v.__dict__ if hasattr(v, "__dict__") else v for v in y])
            for e in (AttributeError("q"), KeyError("k"), TypeError("t") if False else ValueError()):
                try:
                    jsonpickle.encode(mk(BadNewArgs(e)))
                except Exception as e2:
                    if e2 is not e:
                        raise Bad("another exception came out")
                else:
                    raise Bad(f"{e!r} disappeared")

    def attr(v):
        o = C.Plain.__new__(C.Plain)
        o.a = v
        return o

    @case("falsy fail_safe results and repeated failures")
    def _():
        for v in (None, 0, "", False):
            n = []
            j = json.loads(jsonpickle.encode([BadState(Boom(i)) for i in range(4)], fail_safe=lambda e: (n.append(e.args), v)[1]))
            if j != [v] * 4 or n != [(0,), (1,), (2,), (3,)]:
                raise Bad("wrong results", result=j, calls=n)

    @case("references after a failure")
    def _():
        a, b = [1], {"k": 2}
        o = attr(3)
        for f in (BadState(Boom()), BadNewArgs(Boom()), Handled(Boom()), StateThenFail([a, o], Boom()), badgen(Boom(), [b, a]), BadList(Boom()), BadDict(Boom())):
            y = jsonpickle.decode(jsonpickle.encode([f, a, b, o, a, b, o, [a]], fail_safe=lambda e: "R"))
            if y[0] != "R" or y[1] != [1] or y[2] != {"k": 2} or y[3].a != 3:
                raise Bad("contents differ", result=y)
            if not (y[1] is y[4] and y[2] is y[5] and y[3] is y[6] and y[7][0] is y[1]):
                raise Bad("references differ", result=y)

    @case("other settings of the pickler survive a failure")
    def _():
        p = jsonpickle.pickler.Pickler(fail_safe=lambda e: "R", max_depth=2)
        for _ in range(3):
            j = p.flatten([BadState(Boom()), [[1]], BadState(Boom()), [[2]]])
            if j != ["R", ["[1]"], "R", ["[2]"]]:
                raise Bad("depth off after a failure", result=j)

    @case("without fail_safe a pickler can be used again")
    def _():
        p = jsonpickle.pickler.Pickler()
        for _ in range(2):
            try:
                p.flatten([[BadState(Boom())]])
            except Boom:
                pass
            a = [1]
            if p.flatten([a, a]) != jsonpickle.pickler.Pickler().flatten([a, a]):
                raise Bad("state left behind by a failure")

    @case("max_iter and failing generators")
    def _():
        j = json.loads(jsonpickle.encode([badgen(Boom(), [1, 2, 3])], max_iter=3, fail_safe=lambda e: "R"))
        y = jsonpickle.decode(jsonpickle.encode([badgen(Boom(), [1, 2, 3])], max_iter=3))
        if list(y[0]) != [1, 2, 3] or j == ["R"]:
            raise Bad("failure beyond the limit was reached", result=j)
    return out
