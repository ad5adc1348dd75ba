"""Round trip of instances."""
import collections.abc
import enum
import io
import time
import types
import z3
from pyvc import smt, strs, models
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, options, popts, both, trip, reference

NOT = (list, tuple, set, dict, frozenset, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType,
       enum.Enum, collections.abc.Iterator, time.struct_time, str, int, float, bytes, bytearray, type(None), bool)


def user_class(cx, t, base=None, **attrs):
    """Facts about an arbitrary class with no special protocol; base is the
    builtin it derives from."""
    for c in NOT:
        if base is None or not issubclass(base, c):
            cx.assume(z3.Not(cx.L.sub(t, c)))
    if base is not None:
        cx.assume(cx.L.sub(t, base))
        cx.assume(t != cx.L.tconst(base))
    sp = Spec()
    sp.attrs = {"__getstate__": K(object.__getstate__), "_fields": None, "__meta__": None}
    inst = Spec()
    inst.attrs = {n: None for n in ("__setstate__", "__getnewargs__", "__getnewargs_ex__", "append", "add", "default_factory")}
    sp.attrs.update(attrs)
    sp.extra["instance"] = inst
    return sp, inst


class NameSet(Val):
    """An unknown set of attribute names."""

    def __init__(self, name):
        self.p = z3.Function(name, V, z3.BoolSort())
        self.some = z3.Bool(f"nonempty:{name}")

    def __repr__(self): return f"names:{self.p}"
    def op_type(self, cx): return K(set)
    def op_contains(self, cx, k): return self.p(k.term(cx))

    def op_truth(self, cx):
        return self.some


def name_sets(cx):
    """set(names) of an unknown set of names is the same set of names."""
    for f in (set, frozenset):
        base = models.TABLE[id(f)][1]
        cx.hooks["models"][id(f)] = lambda cx, a, k, base=base: a[0] if a and isinstance(a[0], NameSet) else base(cx, a, k)


def instance(cx, base=None, has_dict=True, methods=(), reduce=(False, False), exclude=False, **cls_attrs):
    """An arbitrary instance of an arbitrary class; add_class so that the
    decoder finds the class under its name."""
    x = Sym(z3.Const("x", V), Spec())
    cx.assume(alloc(x.t) <= 0)
    cx.assume(x.t != NONE)
    t = typeof(x.t)
    sp, inst = user_class(cx, t, base, **cls_attrs)
    x.spec.cls = sp
    x.spec.attrs = {n: None for n in ("__slots__", "__setstate__", "_", "_jsonpickle_exclude", "default_factory", "__getitem__", "append", "add",
                                      "__getnewargs__", "__getnewargs_ex__", "__getinitargs__")}
    x.spec.extra["methods"] = methods
    x.spec.extra["reduce"] = reduce
    x.spec.extra["callable"] = False
    if has_dict:
        d = Sym(z3.Const("x.__dict__", V))
        cx.assume(alloc(d.t) <= 0)
        cx.assume(d.t != x.t)
        set_exact(cx, d, dict)
        x.spec.attrs["__dict__"] = d
        inst.attrs["__dict__"] = None
        del inst.attrs["__dict__"]
    else:
        d = None
        x.spec.attrs["__dict__"] = None
    if exclude:
        x.spec.attrs["_jsonpickle_exclude"] = NameSet("excluded")
    add_class(cx, t, TypeV(t, sp))
    return x, d, sp, inst


def attr_names(cx, k):
    """Attribute names: strings, no tag, not mangled, not the one the default
    factory protocol uses."""
    return [typeof(k) == cx.L.tconst(str), z3.Not(isproxy(k)),
            z3.And(*[str_of(k) != strs.sval(t) for t in sorted(tags.RESERVED)]),
            str_of(k) != strs.sval("default_factory"),
            z3.Not(strs.prefix(strs.sval("__"), str_of(k))), z3.Not(strs.prefix(strs.sval(tags.JSON_KEY), str_of(k)))]


def attr_items(cx):
    cx.hooks["itemfacts"] = lambda g: data_value(cx, g[1]) + attr_names(cx, g[0])


def made(cx, w, x, r):
    """r is a new instance of x's class made without arguments."""
    if isinstance(r, RTok):
        reference(cx, w, x, r)
        return False
    cx.oblige("reference-iff-met-before", z3.Not(seen0(x.t)))
    if not cx.oblige("class", isinstance(r, NewObj) and isinstance(r.cls, TypeV) and r.cls.t == typeof(x.t), lambda: f"{r!r}"):
        return False
    return True


def occupies(w, r):
    return bool(w.list.entries) and w.list.entries[0][1] is r


def plain(exclude):
    def h(cx):
        w = both(cx)
        name_sets(cx)
        attr_items(cx)
        x, d, sp, inst = instance(cx, exclude=exclude)
        j, r = trip(cx, w, x)
        if not made(cx, w, x, r):
            return
        cx.oblige("made-without-arguments", not r.args and not r.kwargs, lambda: f"{r.args}")
        src = cx.src("items", d.t, 2)
        skip = z3.Function("excluded", V, z3.BoolSort())(src.gens[0]) if exclude else None
        map_same(cx, r.attrs.segs, src, "attributes", skip=skip)
        cx.oblige("only-attributes-set", not nonempty_segs(cx, r.items.segs) and not nonempty_segs(cx, r.seq.segs))
        logs_agree(cx, w, lambda a, b: a.t == x.t if occupies(w, r) else False)
    return h


INST = {"C03": None, "C02": ("reference", "attributes", "ids", "class"), "C07": ("output-is-json",), "C11": ("input-not-mutated",)}
harness("inst.plain", INST)(plain(False))
harness("inst.exclude", {"C03": None})(plain(True))
