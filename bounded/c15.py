from .lib import *
from . import classes as C
import json
import jsonpickle
import jsonpickle.handlers as H

class R0: pass
class R1(R0): pass
class R2(R1): pass
class R3(R1): pass
class R4(R2, R3): pass
class Q0: pass
class Q1(Q0): pass
class Mixed(R0, Q0): pass
class M(type): pass
class WM(metaclass=M): pass


POOL = [R0, R1, R2, R3, R4, Q0, Q1, Mixed, WM, C.Outer.Inner, C.Plain, C.Other]


def name(c):
    return c.__module__ + "." + c.__qualname__


class H1(H.BaseHandler):
    tag = "h1"

    def flatten(self, obj, data):
        data["by"] = self.tag
        return data

    def restore(self, data):
        return (self.tag, data["by"])


class H2(H1):
    tag = "h2"


class H3(H1):
    tag = "h3"


class H4(H1):
    tag = "h4"


HS = [H1, H2, H3, H4]


class Model:
    def __init__(self):
        self.direct, self.base = {}, {}

    def allowed(self, key, default):
        """The set of acceptable answers."""
        if isinstance(key, str):
            for c, h in self.direct.items():
                if name(c) == key:
                    return [h]
            return [default]
        if key in self.direct:
            return [self.direct[key]]
        hs = [h for c, h in self.base.items() if issubclass(key, c)]
        return hs or [default]


@suite("C15", 3000)
def histories(r, t):
    reg, m = H.Registry(), Model()
    pool = r.sample(POOL, r.randint(2, len(POOL)))
    ops = []
    t_ops = []
    for _ in range(r.randint(1, 14)):
        k = r.randrange(8)
        c = r.choice(pool)
        h = r.choice(HS)
        if k < 3:
            b = r.random() < 0.5
            how = r.randrange(4)
            if how == 0: got = reg.register(c, h, base=b)
            elif how == 1: got = reg.register(c, handler=h, base=b)
            elif how == 2: got = reg.register(c, h, b)
            else:
                got = reg.register(c, base=b)(h)
                if got is not h:
                    raise Bad("the decorator does not return the handler class")
            m.direct[c] = h
            if b:
                m.base[c] = h
            ops.append(("register", c.__name__, h.tag, b, how))
        elif k < 5:
            reg.unregister(c)
            m.direct.pop(c, None)
            m.base.pop(c, None)
            ops.append(("unregister", c.__name__))
        elif k == 5:
            bad = r.choice([1, "x", None, len, C.Plain(), "bounded.c15.R0", [R0]])
            try:
                reg.register(bad, h)
            except TypeError:
                pass
            else:
                raise Bad(f"registering {bad!r} did not raise TypeError")
            ops.append(("bad", repr(bad)))
        t_ops = ops
        for q in POOL:
            for d in (None, 0, "dflt"):
                for key in (q, name(q)):
                    got = reg.get(key, d) if d is not None else reg.get(key)
                    if not any(got is a or got == a for a in m.allowed(key, d)):
                        raise Bad(f"get({key!r}, {d!r}) gave {got!r}", operations=ops, allowed=m.allowed(key, d))
    t.note(t_ops)


class Own:
    def __init__(self):
        self.a = 1


class OwnSub(Own):
    pass


class OwnSubSub(OwnSub):
    __slots__ = ()


class Taken:
    """Has pickling hooks of its own; a handler goes first."""

    def __reduce__(self):
        return (list, ())

    def __getstate__(self):
        return {"x": 1}


class DictSub(dict):
    pass


class ListSub(list):
    pass


SUBJECTS = [Own, OwnSub, OwnSubSub, Taken, DictSub, ListSub, C.NT1, C.Color, C.Frozen, C.Slots]


def make(c):
    if c is C.NT1: return c(1)
    if c is C.Color: return c.RED
    if c is C.Frozen: return c(1)
    return c()


@suite("C15", 600)
def dispatch(r, t):
    """encode and decode go to the handler found for the class, at any depth
    and for any number of objects."""
    regs = []
    try:
        ops = []
        m = Model()
        for _ in range(r.randint(1, 4)):
            c, h, b = r.choice(SUBJECTS), r.choice(HS), r.random() < 0.5
            H.register(c, h, base=b)
            regs.append(c)
            m.direct[c] = h
            if b:
                m.base[c] = h
            ops.append((c.__name__, h.tag, b))
        if r.random() < 0.4:
            c = r.choice(regs)
            H.unregister(c)
            m.direct.pop(c, None)
            m.base.pop(c, None)
            ops.append(("unregister", c.__name__))
        t.note(ops)
        for c in SUBJECTS:
            o = make(c)
            ok = [h for h in m.allowed(c, None) if h is not None]
            s = jsonpickle.encode([o, {"k": o}])
            y = jsonpickle.decode(s)
            if not ok:
                if '"by"' in s:
                    raise Bad(f"a handler was used for {c.__name__}", operations=ops, text=s)
                continue
            j = json.loads(s)
            if j[0].get("by") not in [h.tag for h in ok]:
                raise Bad(f"{c.__name__} was not encoded by its handler", operations=ops, text=s)
            if j[0].get("py/object") != name(c):
                raise Bad("the entry does not name the class", text=s)
            if type(y[0]) is not tuple or y[0][0] not in [h.tag for h in ok] or y[1]["k"] != y[0]:
                raise Bad(f"{c.__name__} was not decoded by its handler", operations=ops, result=y)
    finally:
        for c in regs:
            H.unregister(c)


@fixed("C15")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @case("handles decorator and handler instances")
    def _():
        class D:
            pass
        try:
            if H1.handles(D) is not D:
                raise Bad("handles does not return the class")
            if H.get(D) is not H1:
                raise Bad("handles did not register")
            inst = H2(None)
            H.register(D, inst)
            if H.get(D) is not inst:
                raise Bad("instance not registered")
            j = jsonpickle.pickler.Pickler().flatten(D())
            if j.get("by") != "h2":
                raise Bad("handler instance not used", result=j)
        finally:
            H.unregister(D)
        if H.get(D) is not None:
            raise Bad("unregister left something")

    @case("unregister of an unknown class")
    def _():
        reg = H.Registry()
        reg.unregister(R0)
        reg.register(R1, H1, base=True)
        reg.unregister(R0)
        reg.unregister(R2)
        if reg.get(R1) is not H1 or reg.get(R2) is not H1 or reg.get(name(R1)) is not H1:
            raise Bad("unregistering another class had an effect")

    @case("handler result None")
    def _():
        class N(H1):
            def flatten(self, obj, data):
                return None
        try:
            H.register(Own, N)
            if jsonpickle.encode([Own(), 1]) != "[null, 1]":
                raise Bad("a handler returning None does not give null", result=jsonpickle.encode([Own(), 1]))
        finally:
            H.unregister(Own)

    @case("registrations on separate registries are separate")
    def _():
        a, b = H.Registry(), H.Registry()
        a.register(R0, H1, base=True)
        if b.get(R0) is not None or b.get(R1) is not None or H.get(R0) is not None:
            raise Bad("registries share state")

    @case("default handlers are found")
    def _():
        import array, datetime, queue, re, threading, uuid, io
        for c in (array.array, datetime.datetime, datetime.date, datetime.time, type(re.compile("")), queue.Queue, uuid.UUID, type(threading.Lock()), io.TextIOWrapper):
            if H.get(c) is None or H.get(jsonpickle.util.importable_name(c)) is not H.get(c):
                raise Bad(f"no handler for {c}")

    @case("module functions act on one registry")
    def _():
        try:
            jsonpickle.register(Own, H3, base=True) if hasattr(jsonpickle, "register") else H.register(Own, H3, base=True)
            if H.registry.get(Own) is not H3 or H.get(OwnSub) is not H3:
                raise Bad("not registered")
        finally:
            jsonpickle.unregister(Own) if hasattr(jsonpickle, "unregister") else H.unregister(Own)
        if H.registry.get(Own) is not None or H.get(OwnSub) is not None or H.get(name(Own)) is not None:
            raise Bad("still registered")

    @case("references and handled objects")
    def _():
        class Wrap(H.BaseHandler):
            def flatten(self, obj, data):
                data["a"] = self.context.flatten(obj.a, reset=False)
                return data

            def restore(self, data):
                o = Own.__new__(Own)
                o.a = self.context.restore(data["a"], reset=False)
                return o
        try:
            H.register(Own, Wrap)
            sh = [1]
            o, p = Own(), Own()
            o.a, p.a = sh, [sh]
            x = [o, o, p, sh, {"k": p}]
            y = jsonpickle.decode(jsonpickle.encode(x))
            same(x, y)
        finally:
            H.unregister(Own)
    return out
