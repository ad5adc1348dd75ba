from .lib import *
from . import classes as C
import jsonpickle


OPTS = [{}, {}, {"keys": True}, {"use_base85": True}, {"max_depth": 60}, {"keys": True, "warn": True}]


def trip(x, **kw):
    n = len(C.CALLS)
    s = jsonpickle.encode(x, **kw)
    y = jsonpickle.decode(s, keys=kw.get("keys", False))
    if len(C.CALLS) != n:
        raise Bad("a constructor was run", calls=C.CALLS[n:])
    return y


def fill(r, o, names, vals=None):
    for k in names:
        object.__setattr__(o, k, gplain(r, 2))
    return o


def expected(o, excl=()):
    return {k: v for k, v in attrs_of(o).items() if k not in excl}


def check(o, y, excl=()):
    if type(y) is not type(o):
        raise Bad(f"class {type(o).__name__} became {type(y).__name__}", result=y)
    a, b = expected(o, excl), attrs_of(y)
    if set(a) != set(b):
        raise Bad(f"attributes {sorted(a)} became {sorted(b)}")
    for k in a:
        same(a[k], b[k], ids=False, path=f"$.{k}")


@suite("C03", 1200)
def dict_instances(r, t):
    c = r.choice(C.PLAIN + [C.Node, C.Key, C.NoEq, C.IdKey])
    o = c.__new__(c)
    names = r.sample(C.NAMES, r.randint(0, 6))
    fill(r, o, names)
    kw = r.choice(OPTS)
    t.note((c.__name__, attrs_of(o), kw))
    wrap = r.randrange(4)
    if wrap == 0:
        check(o, trip(o, **kw))
    elif wrap == 1:
        check(o, trip([1, o], **kw)[1])
    elif wrap == 2:
        check(o, trip({"k": o}, **kw)["k"])
    else:
        p = C.Plain.__new__(C.Plain)
        p.child = o
        p.z = 1
        y = trip(p, **kw)
        check(o, y.child)
        if attrs_of(y).keys() != {"child", "z"}:
            raise Bad("attributes of the parent differ", result=attrs_of(y))


@suite("C03", 800)
def slot_instances(r, t):
    c = r.choice([C.Slots, C.SlotsChild, C.SlotsGrand, C.SlotStr, C.SlotsList, C.Outer.InnerSlots, C.DCS])
    o = c.__new__(c)
    names = [n for n in slots_of(o) if r.random() < 0.7]
    fill(r, o, names)
    kw = r.choice(OPTS)
    t.note((c.__name__, attrs_of(o), kw))
    y = trip([o], **kw)[0]
    check(o, y)


@suite("C03", 500)
def dataclass_instances(r, t):
    c = r.choice([C.DC, C.Frozen, C.FrozenChild, C.DCS])
    o = c.__new__(c)
    for n in c.__dataclass_fields__:
        object.__setattr__(o, n, gplain(r, 2))
    kw = r.choice(OPTS)
    t.note((c.__name__, attrs_of(o), kw))
    y = trip(o, **kw)
    check(o, y)


@suite("C03", 500)
def excluded(r, t):
    c = r.choice([C.Excl, C.ExclSet, C.ExclChild, C.SlotsExclude])
    o = c.__new__(c)
    if c is C.SlotsExclude:
        fill(r, o, r.sample(["a", "b", "c"], r.randint(0, 3)))
    else:
        fill(r, o, r.sample(["secret", "cache", "a", "b", "secret2", "x"], r.randint(0, 6)))
    excl = set(c._jsonpickle_exclude)
    if c is C.SlotsExclude and set(attrs_of(o)) <= {"b"}:
        return
    kw = r.choice(OPTS)
    t.note((c.__name__, attrs_of(o), kw))
    y = trip([o, o], **kw)
    if y[0] is not y[1]:
        raise Bad("sharing lost")
    check(o, y[0], excl)
    # the exclusion of one instance does not affect another class
    p = C.Plain.__new__(C.Plain)
    p.secret, p.a, p.b, p.cache = 1, 2, 3, 4
    z = trip([o, p], **kw)
    check(p, z[1])
    check(o, z[0], excl)


@fixed("C03")
def names():
    """One attribute with every name, next to others."""
    out = []
    for n in C.NAMES + ["default", "kind", "prop_", "x_y", "a_", "__class_x__"[2:], "Δ", "i" * 60]:
        def thunk(n=n):
            o = C.Plain.__new__(C.Plain)
            o.__dict__[n] = [1, n]
            o.__dict__["zz"] = {"k": n}
            check(o, trip(o))
            check(o, trip({"a": o})["a"])
        out.append((n, thunk))

    def private():
        o = C.Node.__new__(C.Node)
        o._Node__secret = 5
        check(o, trip(o))
    out.append(("private name", private))

    def private_slot():
        o = C.SlotsPrivate.__new__(C.SlotsPrivate).put([3])
        o.a = 1
        y = trip(o)
        if y._SlotsPrivate__hidden != [3] or y.a != 1:
            raise Bad("private slot differs")
    out.append(("private slot", private_slot))
    for v in (None, 0, "", [], {}, False, (), 0.0, set()):
        def falsy(v=v):
            o = C.Plain.__new__(C.Plain)
            o.a, o.b = v, 1
            check(o, trip(o))
            s = C.Slots.__new__(C.Slots)
            s.a, s.c = v, 1
            check(s, trip(s))
            f = C.Frozen(v, v)
            check(f, trip(f))
        out.append((f"falsy attribute {v!r}", falsy))

    def empty():
        for c in C.PLAIN + [C.Slots, C.Excl]:
            o = c.__new__(c)
            check(o, trip([o])[0])
    out.append(("no attributes", empty))

    def keys_on():
        o = C.Plain.__new__(C.Plain)
        o.a = {1: 2, "x": 3}
        y = jsonpickle.decode(jsonpickle.encode(o, keys=True), keys=True)
        check(o, y)
    out.append(("keys=True", keys_on))
    return out


@suite("C03", 300)
def generated_classes(r, t):
    """Classes made on the fly with random slot layouts over an inheritance
    chain, some levels with a dict."""
    import sys
    base = object
    mod = sys.modules[__name__]
    allslots = []
    for lvl in range(r.randint(1, 4)):
        k = r.random()
        ns = {"__module__": __name__, "__qualname__": f"Gen{lvl}"}
        if k < 0.7:
            sl = tuple(f"s{lvl}_{i}" for i in range(r.randint(0, 3)))
            ns["__slots__"] = sl if r.random() < 0.7 or len(sl) != 1 else sl[0]
            allslots += sl
        base = type(f"Gen{lvl}", (base,), ns)
        setattr(mod, f"Gen{lvl}", base)
    o = base.__new__(base)
    has_dict = hasattr(o, "__dict__")
    t.note(([getattr(c, "__slots__", None) for c in base.__mro__], has_dict))
    if has_dict:
        # state in the dict only: slots beside a dict are outside the claim
        for i in range(r.randint(0, 3)):
            setattr(o, f"d{i}", gplain(r, 1))
    else:
        for s in allslots:
            if r.random() < 0.7:
                setattr(o, s, gplain(r, 1))
    check(o, trip([o])[0])
