"""Round trip of instances whose attributes are in slots."""
import z3
from pyvc import smt, strs
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, both, trip, reference
from .h_inst import instance, attr_names, occupies, made, NameSet, name_sets

isset = z3.Function("slot_set", smt.S, z3.BoolSort())
slotval = z3.Function("slot_value", smt.S, V)
owner = z3.Function("slot_owner", smt.S, z3.IntSort())


def slot_names(cx, k, which, private):
    """Slot names: identifiers; private ones only where the class itself
    lists them (names mangled for another class are outside the claim)."""
    s = str_of(k)
    out = attr_names(cx, k) + [owner(s) == which]
    if private:
        # a private name starts with two underscores and does not end so
        out = [f for f in out if "prefix:'__'" not in str(f)]
    return out


def mangled(cx, t, s):
    """The attribute behind a slot name."""
    return z3.If(strs.prefix(strs.sval("__"), s), strs.cat(strs.sval("_"), smt.tsimple(t), s), s)


def slotted(exclude, private, one_string):
    def h(cx):
        # slots.public has the keys option symbolic
        w = both(cx) if not exclude and not private else both(cx, {"keys": K(False)}, {"keys": K(False)})
        name_sets(cx)
        x, _, sp, inst = instance(cx, has_dict=False, exclude=exclude)
        t = typeof(x.t)

        def values(s):
            v = slotval(s)
            return data_value(cx, v) + [alloc(v) <= 0]

        def facts(which, private):
            return lambda g: slot_names(cx, g[0], which, private) + values(mangled(cx, t, str_of(g[0])))
        n0 = Sym(z3.Const("n0", V))
        for f in slot_names(cx, n0.t, 0, private) + values(mangled(cx, t, str_of(n0.t))):
            cx.assume(f)
        cx.assume(isset(mangled(cx, t, str_of(n0.t))))
        if exclude:
            cx.assume(z3.Not(z3.Function("excluded", V, z3.BoolSort())(n0.t)))
        base = Spec()
        bt = z3.Const("B", T)
        B = TypeV(bt, base)
        C = TypeV(t, sp)
        srcs = []

        def bulk(name, which, private):
            src = cx.src("slots", z3.Const(name, V), 1, facts(which, private))
            srcs.append((src, which))
            return Bulk(src, [(z3.BoolVal(True), (Sym(src.gens[0]),))])
        if one_string:
            # the class names its only slot by a plain string
            sp.attrs["__slots__"] = Sym(n0.t)
        else:
            sp.attrs["__slots__"] = TupV([One(n0), bulk("C", 1, private)])
        base.attrs["__slots__"] = TupV([bulk("B", 2, False)] if not private or one_string else [])
        sp.attrs["mro"] = ModelFn("mro", lambda cx, a, k: ListV([One(C), One(B), One(K(object))]))
        x.spec.attrs["__slots__"] = sp.attrs["__slots__"]
        x.spec.attrs["__class__"] = C

        def getattr_sym(cx, n, *d):
            s = V_.as_str(cx, n)
            if cx.decide(isset(s)):
                return Sym(slotval(s))
            if d:
                return d[0]
            raise_py(cx, AttributeError, "slot")
        x.spec.extra["getattr_sym"] = getattr_sym
        j, r = trip(cx, w, x)
        if not made(cx, w, x, r):
            return
        cx.oblige("made-without-arguments", not r.args and not r.kwargs, lambda: f"{r.args}")
        segs = list(nonempty_segs(cx, V_.norm_dict(cx, r.attrs.segs)))
        ones = [s for s in segs if isinstance(s, One)]
        m0 = mangled(cx, t, str_of(n0.t))
        if cx.oblige("slots", len(ones) == 1, lambda: f"{segs}"):
            k, v = ones[0].val
            cx.oblige("slots-key", V_.as_str(cx, k) == m0, lambda: f"{k!r}")
            cx.oblige("slots-value", is_image(cx, v, slotval(m0)), lambda: f"{v!r}")
        segs = [s for s in segs if s not in ones]
        for src, which in srcs:
            mine = [s for s in segs if isinstance(s, Bulk) and s.src is src]
            segs = [s for s in segs if s not in mine]
            g = src.gens[0]
            m = mangled(cx, t, str_of(g))
            skip = z3.Not(isset(m))
            if exclude:
                skip = z3.Or(skip, z3.Function("excluded", V, z3.BoolSort())(g))
            map_same(cx, mine, src, "slots", key_ok=lambda k: V_.as_str(cx, k) == m, val_ok=lambda v: is_image(cx, v, slotval(m)), skip=skip)
        cx.oblige("slots", not segs, lambda: f"{segs}")
        cx.oblige("only-attributes-set", not nonempty_segs(cx, r.items.segs) and not nonempty_segs(cx, r.seq.segs))
        logs_agree(cx, w, lambda a, b: a.t == x.t if occupies(w, r) else False)
    return h


SL = {"C03": None, "C02": ("reference", "slots", "ids", "class"), "C07": ("output-is-json",), "C11": ("input-not-mutated",)}
harness("slots.public", SL)(slotted(False, False, False))
harness("slots.private", SL)(slotted(False, True, False))
harness("slots.exclude", {"C03": None})(slotted(True, False, False))
harness("slots.one-string", SL)(slotted(False, True, True))
