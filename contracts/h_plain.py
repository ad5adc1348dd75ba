"""Output with unpicklable=False: attributes and elements only, no markers."""
import array as arr
import queue
import re
import threading
import uuid
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, plain_key, item, options
from .h_inst import instance, attr_items, name_sets
from .h_cont import elements
from .h_slots import isset, slotval, slot_names
from .h_handler import use, accepts
from .h_std import handled, method

PLAIN = {"C08": None, "C11": ("input-not-mutated",), "C07": ("output-is-json",)}
cached = z3.Function("cached", V, z3.BoolSort())


class Cache(V_.Val):
    """Finished results by id, with unknown prior content: the result stored
    for an object is its own, and what was met before on a finished branch is
    stored.  (What is met on the present branch is no part of an acyclic
    graph again.)"""

    def __init__(self, prior=cached):
        self.segs = ()
        self.born = serial()
        self.prior = prior

    def op_contains(self, cx, k):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("cache lookup by non-id")
        for s in reversed(self.segs):
            if isinstance(s, One) and cx.prove(s.val[0] == t):
                return True
        if cx.L.is_new(t):
            return False
        return self.prior(t)

    def op_getitem(self, cx, k):
        if not cx.decide(zb(self.op_contains(cx, k))):
            raise PyExc(ExcV(KeyError, [k]))
        t = ident_arg(k)
        for s in reversed(self.segs):
            if isinstance(s, One) and cx.prove(s.val[0] == t):
                return s.val[1]
        return JTok(t)

    def m_get(self, cx, k, default=None):
        if cx.decide(zb(self.op_contains(cx, k))):
            return self.op_getitem(cx, k)
        return default or K(None)

    def op_setitem(self, cx, k, v):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("cache store by non-id")
        if cx.L.is_new(t):
            kept = cx.ghost["world"].P.fields["_seen"].segs
            cx.oblige("cache-holds-new-objects", any(isinstance(s, One) and s.val.term(cx).eq(t) for s in kept), lambda: f"{t} is stored by id but may be freed")
        cx.set(self, "segs", self.segs + (One((t, v)),))

    def op_type(self, cx): return K(dict)
    def op_truth(self, cx): raise Unsupported("truth of the cache")


def world(cx, **more):
    o = dict(options("keys", "use_base85", "warn", "make_refs", "numeric_keys"), unpicklable=K(False), **more)
    w = World(cx, o, options("keys"))
    if "_flattened" not in w.P.fields:
        raise Unsupported("the state has no field _flattened any more")
    w.P.fields["_flattened"] = Cache()
    name_sets(cx)
    return w


def flat(cx, w, x):
    """The output for x, or None when it was finished before."""
    cx.assume(z3.Implies(seen0(x.t), cached(x.t)))
    j = w.flatten(x)
    if isinstance(j, JTok):
        cx.oblige("cached-result-is-its-own", z3.And(cached(x.t), j.t == x.t), lambda: f"{j!r}")
        return None
    cx.oblige("cache-used", z3.Not(cached(x.t)))
    # what is met is also stored, under the right object
    cache = w.P.fields["_flattened"]
    for s in cache.segs:
        if isinstance(s, One):
            t, v = s.val
            cx.oblige("cache-own-result", z3.Implies(t == x.t, v is j), lambda: f"{v!r} for {x!r}")
    met = [s.val[1].t for s in w.plog.segs if isinstance(s, One) and s.val[0] == "REG"]
    for t in met:
        cx.oblige("cache-covers-met", z3.Or(*[s.val[0] == t for s in cache.segs if isinstance(s, One)]) if cache.segs else False, lambda: f"{t} is met but not stored")
    for s in nonempty_segs(cx, w.plog.segs):
        if isinstance(s, Bulk) and any(e[0] == "REG" for _, es in s.alts for e in es if type(e) is tuple):
            raise Unsupported("registration in a loop")
    return jsoncopy(cx, j)


def is_flat(v, t):
    return v.t == t if isinstance(v, JTok) else V_.zb(z3.And(v.t == t)) if isinstance(v, Sym) else False


def array(cx, j, src, name="elements"):
    if not cx.oblige("no-markers", isinstance(j, ListV), lambda: f"{j!r}"):
        return
    segs = nonempty_segs(cx, j.segs)
    if not segs:
        cx.oblige(name, z3.Not(z3.And(*cx.src_facts(src))), "empty result")
        return
    if not cx.oblige(name, len(segs) == 1 and isinstance(segs[0], Bulk) and segs[0].src is src, lambda: f"{segs}"):
        return
    each(cx, segs[0], lambda es: cx.oblige(name, zand(len(es) == 1, is_flat(es[0], src.gens[0]) if es else False), lambda: f"{es}"))


def obj(cx, j, src, name="attributes", skip=None):
    if not cx.oblige("no-markers", isinstance(j, DictV), lambda: f"{j!r}"):
        return
    map_same(cx, j.segs, src, name, val_ok=lambda v: is_flat(v, src.gens[1]), skip=skip)


def decoded(cx, w, j, kind):
    """Decoding gives a plain list or dict of what the parts decode to."""
    r = w.restore(j)
    w.swap()
    cx.oblige("decodes-plain", isinstance(r, kind) and r.pytype is (list if kind is ListV else dict), lambda: f"{r!r}")


def builtin(cls):
    def h(cx):
        w = world(cx)
        x = item(cx, cls=cls)
        j = flat(cx, w, x)
        if j is None:
            return
        array(cx, j, cx.src("elems", x.t))
        decoded(cx, w, j, ListV)
    return h


for c in (list, tuple, set):
    harness(f"plain.{c.__name__}", PLAIN)(builtin(c))


@harness("plain.dict", PLAIN)
def dict_(cx):
    w = world(cx)
    x = item(cx)
    cx.hooks["itemfacts"] = lambda g: data_value(cx, g[1]) + plain_key(cx, g[0])
    set_exact(cx, x, dict)
    j = flat(cx, w, x)
    if j is None:
        return
    obj(cx, j, cx.src("items", x.t, 2), "items")
    decoded(cx, w, j, DictV)


def inst(exclude, reduce=(False, False)):
    def h(cx):
        w = world(cx)
        attr_items(cx)
        x, d, sp, inst = instance(cx, exclude=exclude, reduce=reduce)
        j = flat(cx, w, x)
        if j is None:
            return
        src = cx.src("items", d.t, 2)
        obj(cx, j, src, skip=z3.Function("excluded", V, z3.BoolSort())(src.gens[0]) if exclude else None)
        decoded(cx, w, j, DictV)
    return h


harness("plain.inst", PLAIN)(inst(False))
harness("plain.inst.exclude", PLAIN)(inst(True))
harness("plain.inst.reduce", PLAIN)(inst(False, (True, False)))
harness("plain.inst.reduce-ex", PLAIN)(inst(False, (False, True)))


@harness("plain.state", PLAIN)
def state(cx):
    """An own state stands for the object, whatever it is."""
    w = world(cx)
    attr_items(cx)
    x, d, sp, inst = instance(cx)
    st = Sym(z3.Const("state", V))
    cx.assume(alloc(st.t) <= 0)
    cx.assume(truthy(st.t))
    cx.assume(st.t != x.t)
    own = ModelFn("__getstate__", lambda cx, a, k: st)
    sp.attrs["__getstate__"] = own
    x.spec.attrs["__getstate__"] = ModelFn("__getstate__", lambda cx, a, k: st)
    cx.assume(z3.Implies(seen0(x.t), cached(x.t)))
    j = w.flatten(x)
    if isinstance(j, JTok) and cx.prove(cached(x.t)) and cx.prove(j.t == x.t):
        return
    cx.oblige("state-stands-for-the-object", isinstance(j, JTok) and j.t == st.t, lambda: f"{j!r}")


def sequence(base, has_dict, methods=()):
    def h(cx):
        w = world(cx)
        attr_items(cx)
        x, d, sp, inst = instance(cx, base=base, has_dict=has_dict, methods=methods)
        src = elements(cx, x)
        if methods:
            x.spec.attrs["__getnewargs__"] = ModelFn("__getnewargs__", lambda cx, a, k: TupV(x.spec.iter(cx)))
        j = flat(cx, w, x)
        if j is None:
            return
        array(cx, j, src)
        decoded(cx, w, j, ListV)
    return h


for b in (list, set, tuple):
    harness(f"plain.{b.__name__}-subclass", PLAIN)(sequence(b, True))
    harness(f"plain.{b.__name__}-subclass.no-dict", PLAIN)(sequence(b, False))
harness("plain.namedtuple", PLAIN)(sequence(tuple, False, ("__getnewargs__",)))


def mapping(has_dict):
    def h(cx):
        w = world(cx)
        attr_items(cx)
        x, d, sp, inst = instance(cx, base=dict, has_dict=has_dict)
        items = cx.src("items", x.t, 2, lambda g: data_value(cx, g[1]) + plain_key(cx, g[0]) + [str_of(g[0]) != strs.sval("default_factory"), str_of(g[0]) != strs.sval("__dict__")])
        pairs = ListV([Bulk(items, [(z3.BoolVal(True), (TupV([One(Sym(items.gens[0])), One(Sym(items.gens[1]))]),))])])
        x.spec.attrs["items"] = ModelFn("items", lambda cx, a, k: pairs)
        j = flat(cx, w, x)
        if j is None:
            return
        obj(cx, j, items, "items")
        decoded(cx, w, j, DictV)
    return h


harness("plain.dict-subclass", PLAIN)(mapping(True))
harness("plain.dict-subclass.no-dict", PLAIN)(mapping(False))


@harness("plain.slots", PLAIN)
def slots(cx):
    w = world(cx)
    x, _, sp, inst = instance(cx, has_dict=False)
    src = cx.src("slots", z3.Const("C", V), 1, lambda g: slot_names(cx, g[0], 1, False) + data_value(cx, slotval(str_of(g[0]))) + [alloc(slotval(str_of(g[0]))) <= 0])
    n0 = Sym(z3.Const("n0", V))
    v0 = slotval(str_of(n0.t))
    for f in slot_names(cx, n0.t, 0, False) + data_value(cx, v0) + [alloc(v0) <= 0, isset(str_of(n0.t))]:
        cx.assume(f)
    t = typeof(x.t)
    C = TypeV(t, sp)
    sp.attrs["__slots__"] = TupV([One(n0), Bulk(src, [(z3.BoolVal(True), (Sym(src.gens[0]),))])])
    sp.attrs["mro"] = ModelFn("mro", lambda cx, a, k: ListV([One(C), One(K(object))]))
    x.spec.attrs["__slots__"] = sp.attrs["__slots__"]
    x.spec.attrs["__class__"] = C

    def getattr_sym(cx, n, *d):
        s = V_.as_str(cx, n)
        if cx.decide(isset(s)):
            return Sym(slotval(s))
        if d:
            return d[0]
        raise_py(cx, AttributeError, "slot")
    x.spec.extra["getattr_sym"] = getattr_sym
    j = flat(cx, w, x)
    if j is None:
        return
    if not cx.oblige("no-markers", isinstance(j, DictV), lambda: f"{j!r}"):
        return
    segs = list(nonempty_segs(cx, V_.norm_dict(cx, j.segs)))
    ones = [s for s in segs if isinstance(s, One)]
    if cx.oblige("slots", len(ones) == 1, lambda: f"{segs}"):
        k, v = ones[0].val
        cx.oblige("slots-key", V_.as_str(cx, k) == str_of(n0.t), lambda: f"{k!r}")
        cx.oblige("slots-value", is_flat(v, v0), lambda: f"{v!r}")
    g = src.gens[0]
    map_same(cx, [s for s in segs if s not in ones], src, "slots", key_ok=lambda k: V_.as_str(cx, k) == str_of(g),
             val_ok=lambda v: is_flat(v, slotval(str_of(g))), skip=z3.Not(isset(str_of(g))))
    decoded(cx, w, j, DictV)


@harness("plain.handler", PLAIN)
def handler(cx):
    """A handler is given a dict without a marker, and what it makes of it
    stands for the object."""
    w = world(cx)
    attr_items(cx)
    x, d, sp, inst = instance(cx)
    bc, bn = z3.Bool("by_class"), z3.Bool("by_name")
    cx.assume(z3.Or(bc, bn))
    hc, hn = use(cx, w, x, bc, bn)
    accepts(cx, {f"{n}.{m}": z3.Bool(f"accepts:{n}.{m}") for n in ("of-class", "of-name") for m in ("flatten", "restore")})
    j = flat(cx, w, x)
    if j is None:
        return
    used = hc if cx.decide(bc) else hn
    if not cx.oblige("handler-called", len(used.calls) == 1, lambda: f"{used.calls}"):
        return
    if cx.oblige("no-markers", isinstance(j, DictV), lambda: f"{j!r}"):
        segs = nonempty_segs(cx, V_.norm_dict(cx, j.segs))
        cx.oblige("no-markers", len(segs) == 1 and isinstance(segs[0], One) and segs[0].val[0].conc() == "payload", lambda: f"{segs}")


def scalar(cx, v):
    """No part of the value is an object with a marker."""
    if isinstance(v, (SStr, SInt, SBool, JTok)):
        return True
    if isinstance(v, K):
        return isinstance(v.v, (str, int, float, type(None)))
    if isinstance(v, Sym):
        return z3.Or(*[typeof(v.t) == cx.L.tconst(c) for c in (str, int, float, bool, type(None))])
    return False


def library(cls, attrs):
    def h(cx):
        w, h, x = handled(cx, cls, {"unpicklable": K(False)})
        w.P.fields["_flattened"] = Cache()
        x.spec.attrs.update(attrs(cx, x))
        inst = interp.construct(cx, h, [w.P], {})
        data = DictV()
        j = interp.call(cx, inst.op_getattr(cx, "flatten"), [x, data])
        j = jsoncopy(cx, j)
        if not cx.oblige("no-markers", isinstance(j, DictV), lambda: f"{j!r}"):
            return
        for s in nonempty_segs(cx, V_.norm_dict(cx, j.segs)):
            if not cx.oblige("no-markers", isinstance(s, One) and isinstance(s.val[0].conc(), str) and s.val[0].conc() not in tags.RESERVED, lambda: f"{s}"):
                continue
            v = s.val[1]
            if isinstance(v, ListV):
                for b in nonempty_segs(cx, v.segs):
                    if isinstance(b, One):
                        cx.oblige("no-markers", zb(scalar(cx, b.val)), lambda: f"{b.val!r}")
                    else:
                        each(cx, b, lambda es: cx.oblige("no-markers", zand(*[scalar(cx, e) for e in es]), lambda: f"{es}"))
            else:
                cx.oblige("no-markers", zb(scalar(cx, v)), lambda: f"{v!r}")
    return h


def numbers(cx, x):
    src = cx.src("values", x.t, 1, lambda g: [z3.Or(*[typeof(g[0]) == cx.L.tconst(c) for c in (int, float, str)])])
    return {"typecode": SStr(z3.Const("typecode", smt.S)), "tolist": method("tolist", ListV([Bulk(src, [(BT, (Sym(src.gens[0]),))])]))}


harness("plain.uuid", PLAIN)(library(uuid.UUID, lambda cx, x: {"hex": SStr(z3.Const("hex", smt.S))}))
harness("plain.regex", PLAIN)(library(re.Pattern, lambda cx, x: {"pattern": item(cx, "pattern", str), "flags": SInt(z3.Int("flags"))}))
harness("plain.queue", PLAIN)(library(queue.Queue, lambda cx, x: {}))
harness("plain.lock", PLAIN)(library(type(threading.Lock()), lambda cx, x: {"locked": method("locked", SBool(z3.Bool("held")))}))
harness("plain.array", PLAIN)(library(arr.array, numbers))
