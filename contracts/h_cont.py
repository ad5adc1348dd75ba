"""Round trip of container subclasses: items, order, attributes, factories."""
import copy
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, plain_key, both, trip, reference
from .h_inst import instance, attr_names, attr_items, made, occupies

CONT = {"C06": None, "C02": ("reference", "attributes", "elements", "items", "class"), "C07": ("output-is-json",), "C11": ("input-not-mutated",)}


def record(name, f):
    return lambda cx, self: ModelFn(name, lambda cx, a, k: (f(cx, self, *a), K(None))[1])


def elements(cx, x):
    """Iterating a sequence or set gives its elements."""
    s = cx.src("elems", x.t, 1, cx.hooks.get("elemfacts"))
    x.spec.iter = lambda cx: [Bulk(s, [(z3.BoolVal(True), (Sym(s.gens[0]),))])]
    return s


def sequence(base, has_dict):
    def h(cx):
        w = both(cx)
        attr_items(cx)
        if base is set:
            # members of hashed containers are not placeholders
            cx.hooks["elemfacts"] = lambda g: [z3.Not(isproxy(g[0]))]
        x, d, sp, inst = instance(cx, base=base, has_dict=has_dict)
        src = elements(cx, x)
        inst.attrs["append"] = record("append", lambda cx, self, v: self.seq.m_append(cx, v)) if base is list else None
        inst.attrs["add"] = record("add", lambda cx, self, v: self.seq.m_append(cx, v)) if base is set else None
        if base is list:
            inst.extra["setitem"] = lambda cx, self, k, v: self.seq.op_setitem(cx, k, v)
        j, r = trip(cx, w, x)
        if not made(cx, w, x, r):
            return
        cx.oblige("made-without-arguments", not r.args and not r.kwargs, lambda: f"{r.args}")
        seq_same(cx, r.seq.segs, src, "elements")
        if has_dict:
            map_same(cx, r.attrs.segs, cx.src("items", d.t, 2), "attributes")
        else:
            cx.oblige("attributes", not nonempty_segs(cx, r.attrs.segs))
        cx.oblige("no-items", not nonempty_segs(cx, r.items.segs))
        logs_agree(cx, w, lambda a, b: a.t == x.t if occupies(w, r) else False)
    return h


for b in (list, set):
    harness(f"container.{b.__name__}", CONT)(sequence(b, True))
    harness(f"container.{b.__name__}.no-dict", CONT)(sequence(b, False))


class CopyV(V_.Val):
    """A new object equal to the given one (copy.copy, copy.deepcopy)."""

    def __init__(self, of): self.of = of
    def __repr__(self): return f"copy of {self.of!r}"


def copies(cx):
    for f in (copy.copy, copy.deepcopy):
        cx.hooks["models"][id(f)] = lambda cx, a, k: CopyV(a[0])


def mapping(has_dict, factory=None):
    def h(cx):
        w = both(cx)
        copies(cx)
        x, d, sp, inst = instance(cx, base=dict, has_dict=has_dict)
        items = cx.src("items", x.t, 2, lambda g: data_value(cx, g[1]) + plain_key(cx, g[0]) + [str_of(g[0]) != strs.sval("default_factory"), str_of(g[0]) != strs.sval("__dict__")])
        attr_items(cx)
        pairs = ListV([Bulk(items, [(z3.BoolVal(True), (TupV([One(Sym(items.gens[0])), One(Sym(items.gens[1]))]),))])])
        x.spec.attrs["items"] = ModelFn("items", lambda cx, a, k: pairs)
        if factory == "function":
            e = Sym(z3.Const("exemplar", V))
            cx.assume(alloc(e.t) <= 0)
            fn = Sym(z3.Const("factory", V), Spec())
            cx.assume(alloc(fn.t) <= 0)
            for f in data_value(cx, e.t):
                cx.assume(f)
            cx.assume(truthy(fn.t))
            fn.spec.call = lambda cx, a, k: e
            fn.spec.extra["callable"] = True
            cx.assume(z3.Not(cx.L.sub(typeof(fn.t), type)))
            x.spec.attrs["default_factory"] = fn
            del inst.attrs["default_factory"]
        elif factory:
            F = z3.Const("factory", T)
            sp2 = Spec()
            x.spec.attrs["default_factory"] = TypeV(F, sp2)
            add_class(cx, F, x.spec.attrs["default_factory"])
            del inst.attrs["default_factory"]
        j, r = trip(cx, w, x)
        if not made(cx, w, x, r):
            return
        if factory == "function":
            fac = a = r.args[0] if len(r.args) == 1 and not r.kwargs else None
            got = r.attrs.find(cx, K("default_factory"))
            if isinstance(a, (RTok, ImgV)):
                cx.oblige("made-with-factory", a.t == fn.t, lambda: f"{r.args}")
                cx.oblige("factory-restored", is_image(cx, got, fn.t), lambda: f"{got!r}")
            else:
                cx.oblige("factory-restored", got is a, lambda: f"{got!r}")
                two = [interp.call(cx, a, []) for _ in range(2)]
                for v in two:
                    cx.oblige("factory-gives-equal-fresh-values", isinstance(v, CopyV) and is_image(cx, v.of, e.t), lambda: f"{v!r}")
        elif factory:
            a = r.args[0] if len(r.args) == 1 else None
            cx.oblige("made-with-factory", isinstance(a, TypeV) and a.t == F and not r.kwargs, lambda: f"{r.args}")
            got = r.attrs.find(cx, K("default_factory"))
            cx.oblige("factory-restored", isinstance(got, TypeV) and got.t == F, lambda: f"{got!r}")
        else:
            cx.oblige("made-without-arguments", not r.args and not r.kwargs, lambda: f"{r.args}")
        map_same(cx, r.items.segs, items, "items")
        if has_dict:
            a = r.attrs.find(cx, K("__dict__"))
            if isinstance(a, (ImgV, RTok)):
                # the attribute dict itself was met before
                cx.oblige("attributes", is_image(cx, a, d.t), lambda: f"{r.attrs!r}")
            elif cx.oblige("attributes", isinstance(a, DictV), lambda: f"{r.attrs!r}"):
                map_same(cx, a.segs, cx.src("items", d.t, 2), "attributes")
        cx.oblige("nothing-appended", not nonempty_segs(cx, r.seq.segs))

        def reg(p, q):
            if p.t.eq(x.t):
                return occupies(w, r)
            if factory == "function" and p.t.eq(fn.t):
                return any(v is fac for i, v in w.list.entries)
            return has_dict and p.t.eq(d.t) and q is a
        logs_agree(cx, w, reg)
    return h


harness("container.dict", CONT)(mapping(True))
harness("container.dict.no-dict", CONT)(mapping(False))
harness("container.defaultdict.class-factory", CONT)(mapping(True, "class"))
harness("container.defaultdict.class-factory.no-dict", CONT)(mapping(False, "class"))
harness("container.defaultdict.function-factory", CONT, timeout=300, thorough=True)(mapping(True, "function"))
harness("container.defaultdict.function-factory.no-dict", CONT)(mapping(False, "function"))


@harness("container.namedtuple", {"C06": None, "C07": ("output-is-json",), "C11": ("input-not-mutated",)})
def namedtuple(cx):
    """The elements are the constructor arguments.  (They are flattened again
    as the sequence, which the decoder does not read: the second visit of a
    value only gives references.)"""
    w = both(cx)
    cx.hooks["elemfacts"] = lambda g: [z3.Not(isproxy(g[0]))]
    x, d, sp, inst = instance(cx, base=tuple, has_dict=False, methods=("__getnewargs__",))
    src = elements(cx, x)
    x.spec.attrs["__getnewargs__"] = ModelFn("__getnewargs__", lambda cx, a, k: TupV(x.spec.iter(cx)))
    j, r = trip(cx, w, x)
    if not made(cx, w, x, r):
        return
    if not cx.oblige("made-with-elements", not r.kwargs and len(r.args) <= 1 and all(isinstance(a, interp.StarV) for a in r.args), lambda: f"{r!r}"):
        return
    seq_same(cx, [s for a in r.args for s in a.segs], src, "elements")
    cx.oblige("nothing-else", not nonempty_segs(cx, r.seq.segs) and not nonempty_segs(cx, r.attrs.segs) and not nonempty_segs(cx, r.items.segs))
