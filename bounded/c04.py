from .lib import *
import copyreg
import jsonpickle

LOG = []


class Rec:
    """Rebuilt through reduce; records what is done to it."""

    def __init__(self, *args):
        LOG.append(("new", args))
        self.args = args

    def __reduce_ex__(self, protocol):
        return HOOK["value"]

    def append(self, x):
        LOG.append(("item", x))

    def extend(self, xs):
        for x in xs:
            LOG.append(("item", x))

    def __setitem__(self, k, v):
        LOG.append(("set", k, v))


class RecState(Rec):
    def __setstate__(self, s):
        LOG.append(("state", s))


class RecReduce:
    """The same through __reduce__ and without list behaviour."""

    def __init__(self, *args):
        LOG.append(("new", args))

    def __reduce__(self):
        return HOOK["value"]

    def append(self, x):
        LOG.append(("item", x))

    def __setitem__(self, k, v):
        LOG.append(("set", k, v))


class RecReduceState(RecReduce):
    def __setstate__(self, s):
        LOG.append(("state", s))


class Getter(RecReduce):
    """A state getter beside the reduce hook: the reduce hook decides."""

    def __getstate__(self):
        return {"from": "getter"}


class GetterState(RecReduceState):
    def __getstate__(self):
        return {"from": "getter"}


class NewOnly:
    def __new__(cls, *a, **k):
        LOG.append(("__new__", a, k))
        return object.__new__(cls)

    def __init__(self, *a, **k):
        LOG.append(("__init__", a, k))

    def __reduce__(self):
        return HOOK["value"]


HOOK = {}


def make(*args):
    LOG.append(("make", args))
    o = RecReduceState.__new__(RecReduceState)
    return o


def make_plain(*args):
    LOG.append(("make", args))
    return RecReduce.__new__(RecReduce)


def setter(obj, state):
    LOG.append(("setter", type(obj).__name__, state))


def gargs(r):
    return tuple(gplain(r, 2) for _ in range(r.randint(0, 3)))


def gstate(r):
    return r.choice([{"a": 1, "b": [gatom(r)]}, {gkey(r) or "k": gplain(r, 1)}, [1, 2], (1,), "s", 5, (None, {"x": 1}), ({"d": 1}, {"x": 2})])


def norm(v):
    return v


def same_log(want, got, text):
    if [w[0] for w in want] != [g[0] for g in got]:
        raise Bad("calls made while restoring differ", expected=want, made=got, text=text)
    for i, (w, g) in enumerate(zip(want, got)):
        try:
            same(w, g, ids=False, path=f"call{i}:{w[0]}")
        except Bad as e:
            raise Bad(f"arguments of call {i} ({w[0]}) differ: {e}", expected=w, made=g, text=text)


def restore(o, wrap=True, **kw):
    text = jsonpickle.encode([o, o] if wrap else o, **kw)
    LOG.clear()
    y = jsonpickle.decode(text, keys=kw.get("keys", False))
    made = list(LOG)
    if wrap:
        if y[0] is not y[1]:
            raise Bad("the two occurrences are not the same object", text=text)
        y = y[0]
    return y, made, text


@suite("C04", 1500)
def reduce_tuples(r, t):
    cls = r.choice([Rec, RecState, RecReduce, RecReduceState, Getter, GetterState])
    has_state = issubclass(cls, (RecState, RecReduceState))
    n = r.randint(2, 6)
    factory = r.choice([cls, make if has_state else make_plain])
    if cls not in (RecReduce, RecReduceState):
        factory = cls
    args = gargs(r)
    state = gstate(r) if n > 2 and r.random() < 0.7 else None
    if state is not None and not has_state and n < 6:
        state = {"p": gplain(r, 1), "q": 2}
    items = [gplain(r, 1) for _ in range(r.randint(0, 3))] if n > 3 and r.random() < 0.7 else None
    pairs = [(gkey(r), gplain(r, 1)) for _ in range(r.randint(0, 3))] if n > 4 and r.random() < 0.7 else None
    st = setter if n > 5 and r.random() < 0.6 else None
    if st is None and state is not None and not has_state and not isinstance(state, dict):
        state = {"p": 1}
    v = [factory, args, state, iter(items) if items is not None else None,
         iter(pairs) if pairs is not None else None, st][:n]
    t.note((cls.__name__, factory.__name__, n, args, state, items, pairs, st is not None))
    o = cls.__new__(cls)

    def value():
        return (factory, args, state, iter(items) if items is not None else None,
                iter(pairs) if pairs is not None else None, st)[:n]
    HOOK["value"] = value()
    y, made, text = restore(o)
    want = [("new" if isinstance(factory, type) else "make", args)]
    if state is not None:
        if st is not None:
            want.append(("setter", cls.__name__, state))
        elif has_state:
            want.append(("state", state))
    if n > 3 and items:
        want += [("item", x) for x in items]
    if n > 4 and pairs:
        want += [("set", k, x) for k, x in pairs]
    same_log(want, made, text)
    if type(y) is not (cls if isinstance(factory, type) else type(y)):
        raise Bad("class differs", result=y)
    if state is not None and st is None and not has_state:
        got = dict(y.__dict__)
        if cls is Rec:
            got.pop("args", None)
        same(state, got, ids=False)


class S:
    """State hooks in all forms; STATE decides."""

    def __getstate__(self):
        return HOOK["state"]


class SS(S):
    def __setstate__(self, s):
        LOG.append(("state", s))


class SSlots:
    __slots__ = ("x", "y")

    def __getstate__(self):
        return HOOK["state"]


class SDictSlots:
    __slots__ = ("x", "y", "__dict__")

    def __getstate__(self):
        return HOOK["state"]


class N1:
    def __new__(cls, *a, **k):
        LOG.append(("__new__", a, k))
        return object.__new__(cls)

    def __init__(self, *a, **k):
        LOG.append(("__init__", a, k))

    def __getnewargs__(self):
        return HOOK["args"]


class N2(N1):
    def __getnewargs_ex__(self):
        return HOOK["args"], HOOK["kwargs"]


class N1S(N1):
    def __getstate__(self):
        return HOOK["state"]

    def __setstate__(self, s):
        LOG.append(("state", s))


class N2S(N2):
    def __getstate__(self):
        return HOOK["state"]

    def __setstate__(self, s):
        LOG.append(("state", s))


@suite("C04", 800)
def state_hooks(r, t):
    c = r.choice([S, SS, SSlots, SDictSlots])
    o = c.__new__(c)
    if c is SS:
        st = gstate(r)
    elif c is S:
        st = {k: gplain(r, 2) for k in r.sample(["a", "b", "c", "_d"], r.randint(1, 4))}
    elif c is SSlots:
        d = {k: gplain(r, 2) for k in r.sample(["x", "y"], r.randint(1, 2))}
        st = r.choice([d, (None, d)])
    else:
        d = {k: gplain(r, 2) for k in r.sample(["x", "y"], r.randint(1, 2))}
        st = r.choice([(None, d), ({"q": gplain(r, 1)}, d), ({}, d)])
    kw = r.choice([{}, {"keys": True}])
    if kw:      # values that look like entries of the format stay as they are
        d = st if isinstance(st, dict) else st[1] if isinstance(st, tuple) and len(st) == 2 else {}
        for k in list(d):
            if r.random() < 0.3:
                d[k] = r.choice([{"py/tuple": [1, 2]}, {"py/id": 1}, [{"py/set": [3]}], {1: {"py/b64": "YQ=="}}])
    HOOK["state"] = st
    t.note((c.__name__, st, kw))
    y, made, text = restore(o, **kw)
    if type(y) is not c:
        raise Bad(f"class became {type(y).__name__}", text=text)
    if c is SS:
        same_log([("state", st)], made, text)
        return
    same_log([], made, text)
    want = {}
    for part in (st if isinstance(st, tuple) else (st,)):
        want.update(part or {})
    same(want, attrs_of(y), ids=False)


@suite("C04", 800)
def new_hooks(r, t):
    c = r.choice([N1, N2, N1S, N2S])
    o = object.__new__(c)
    if not issubclass(c, (N1S, N2S)):
        for k in r.sample(["a", "b", "c"], r.randint(0, 3)):
            setattr(o, k, gplain(r, 1))
    HOOK["args"] = gargs(r)
    HOOK["kwargs"] = {k: gplain(r, 1) for k in r.sample(["p", "q"], r.randint(0, 2))}
    HOOK["state"] = gstate(r)
    t.note((c.__name__, HOOK["args"], HOOK["kwargs"], HOOK["state"], attrs_of(o)))
    y, made, text = restore(o)
    want = [("__new__", HOOK["args"], HOOK["kwargs"] if issubclass(c, N2) else {})]
    if issubclass(c, (N1S, N2S)):
        want.append(("state", HOOK["state"]))
    same_log(want, made, text)
    if type(y) is not c:
        raise Bad("class differs")
    if not issubclass(c, (N1S, N2S)):
        same(attrs_of(o), attrs_of(y), ids=False)


class StdReduce:
    """Uses copyreg.__newobj__ like protocol 2."""

    def __new__(cls, *a):
        LOG.append(("__new__", a))
        return object.__new__(cls)

    def __init__(self, *a):
        LOG.append(("__init__", a))

    def __reduce__(self):
        return (copyreg.__newobj__, (StdReduce,) + HOOK["args"], HOOK["state"])


class NeedsArgs(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b

    def __reduce__(self):
        return (NeedsArgs, (self.args[0], self.b), {"extra": self.extra})


@suite("C04", 300)
def newobj(r, t):
    HOOK["args"] = gargs(r)
    HOOK["state"] = {k: gplain(r, 1) for k in r.sample(["a", "b", "c"], r.randint(1, 3))}
    t.note((HOOK["args"], HOOK["state"]))
    o = object.__new__(StdReduce)
    y, made, text = restore(o)
    same_log([("__new__", HOOK["args"])], made, text)
    same(HOOK["state"], y.__dict__, ids=False)


class RSlots:
    __slots__ = ("x", "y")

    def __reduce__(self):
        return (HOOK["factory"], (type(self),), HOOK["state"])


class RDictSlots(RSlots):
    """Has a dict as well as slots."""


def blank(cls):
    return object.__new__(cls)


def blank_with(cls):
    o = object.__new__(cls)
    o.kept, o.q = 1, 2
    return o


@suite("C04", 300)
def reduce_default_state(r, t):
    """State of a reduce tuple for a class without __setstate__."""
    c = r.choice([RSlots, RDictSlots])
    d = {k: gplain(r, 1) for k in r.sample(["x", "y"], r.randint(1, 2))}
    e = {k: gplain(r, 1) for k in r.sample(["p", "q"], r.randint(1, 2))}
    if c is RSlots:
        st = (None, d)
        HOOK["factory"] = blank
    else:
        st = r.choice([(None, d), (e, d), (e, None), e])
        HOOK["factory"] = r.choice([blank, blank_with])
    HOOK["state"] = st
    t.note((c.__name__, HOOK["factory"].__name__, st))
    y, made, text = restore(object.__new__(c))
    if type(y) is not c:
        raise Bad(f"class became {type(y).__name__}", text=text)
    want = {"kept": 1, "q": 2} if HOOK["factory"] is blank_with else {}
    for part in (st if isinstance(st, tuple) else (st,)):
        want.update(part or {})
    same(want, attrs_of(y), ids=False)


@suite("C04", 150)
def exceptions(r, t):
    e = NeedsArgs(gatom(r), gplain(r, 1))
    e.extra = gplain(r, 1)
    t.note((e.args, e.b, e.extra))
    y, _, text = restore(e)
    if type(y) is not NeedsArgs:
        raise Bad("class differs", text=text)
    same((e.args, e.b, e.extra), (y.args, y.b, y.extra), ids=False)
    v = ValueError(*gargs(r))
    y, _, text = restore(v)
    same(v.args, y.args, ids=False)


@fixed("C04")
def details():
    out = []

    def both_hooks():
        """__reduce_ex__ wins over __reduce__; protocol 2 is asked for."""
        BothHooks.seen = []
        o = BothHooks.__new__(BothHooks)
        y, made, text = restore(o)
        same_log([("make", (2,))], made, text)
    out.append(("reduce_ex preferred", both_hooks))

    def nested():
        a = RecReduceState.__new__(RecReduceState)
        b = object.__new__(N1)
        b.k = 1
        HOOK["value"] = (RecReduceState, ([b], b), {"z": b})
        HOOK["args"] = (5,)
        text = jsonpickle.encode([a, b])
        LOG.clear()
        y = jsonpickle.decode(text)
        news = [x for x in LOG if x[0] == "new"]
        st = [x for x in LOG if x[0] == "state"]
        if len(news) != 1 or len(st) != 1:
            raise Bad("calls differ", made=LOG, text=text)
        if not (news[0][1][0][0] is news[0][1][1] is st[0][1]["z"] is y[1]):
            raise Bad("sharing between reduce parts lost", text=text)
    out.append(("sharing between reduce parts", nested))

    def order_new_before_state():
        o = object.__new__(N2S)
        HOOK.update(args=(1,), kwargs={"k": 2}, state={"s": 1})
        y, made, text = restore(o, wrap=False)
        same_log([("__new__", (1,), {"k": 2}), ("state", {"s": 1})], made, text)
    out.append(("constructor before state", order_new_before_state))

    def dict_state_defaults():
        """Attributes set by the factory survive unless the state has them."""
        o = Dflt.__new__(Dflt)
        y, made, text = restore(o)
        same({"a": 1, "b": [2], "c": 3}, y.__dict__, ids=False)
    out.append(("state merges over factory attributes", dict_state_defaults))
    return out


class BothHooks:
    def __reduce__(self):
        return (make, ("reduce",))

    def __reduce_ex__(self, p):
        return (make, (p,))


class Dflt:
    def __init__(self):
        self.a, self.b = 1, 99

    def __reduce__(self):
        return (Dflt, (), {"b": [2], "c": 3})
