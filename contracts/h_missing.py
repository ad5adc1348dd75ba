"""Classes that cannot be loaded, and classes the caller gives."""
import builtins
import types
import z3
from pyvc import smt, strs, interp, models
from .reg import harness
from .rt import *
from .h_core import item
from .h_doc import Doc
from .h_entry import called
from jsonpickle import errors


def entry(cx, name):
    """An object entry with any members besides its class name."""
    d = Sym(z3.Const("members", V))
    cx.hooks["itemfacts"] = lambda g: [typeof(g[0]) == cx.L.tconst(str), str_of(g[0]) != strs.sval(tags.OBJECT),
                                       *[str_of(g[0]) != strs.sval(t) for t in sorted(tags.RESERVED)]]
    set_exact(cx, d, dict)
    return DictV([One((K(tags.OBJECT), name))] + [map_seg_of(cx, d)])


def map_seg_of(cx, d):
    s = cx.src("items", d.t, 2, cx.hooks["itemfacts"])
    return Bulk(s, [(z3.BoolVal(True), ((Sym(s.gens[0]), Sym(s.gens[1])),))])


def reaction(cx):
    kind = cx.pick("on_missing", ["ignore", "warn", "error", "function", "other"])
    calls = []
    if kind == "function":
        om = Sym(z3.Const("on_missing", V), Spec())
        set_exact(cx, om, cx.pick("function type", [types.FunctionType, types.MethodType, types.BuiltinFunctionType]))
        om.spec.call = lambda cx, a, k: (calls.append((a, k)), Sym(cx.fresh("ignored", V)))[1]
    elif kind == "other":
        om = K(cx.pick("other", [None, "nothing"]))
    else:
        om = K(kind)
    d = Doc(cx, on_missing=om)
    warned = cx.ghost["warnings"] = ListV()
    cx.contracts["jsonpickle.util.loadclass"] = lambda cx, a, k: K(None)
    name = item(cx, "class name", str)
    j = entry(cx, name)
    before = tuple(j.segs)
    raised = None
    try:
        r = d.restore(j)
    except PyExc as e:
        raised = e.exc
    if kind == "error":
        cx.oblige("raises-class-not-found", raised is not None and cx.prove(interp_exc(cx, raised, errors.ClassNotFoundError)), lambda: f"{raised!r}")
        return
    if not cx.oblige("raises-nothing", raised is None, lambda: f"{raised!r}"):
        return
    cx.oblige("returned-as-its-dict", r is j and len(before) == len(j.segs) and all(a is b for a, b in zip(before, j.segs)), lambda: f"{r!r}")
    n = len(warned.segs)
    cx.oblige("one-warning", n == (1 if kind == "warn" else 0), lambda: f"{n} warnings")
    if kind == "function":
        ok = len(calls) == 1 and len(calls[0][0]) == 1 and not calls[0][1]
        if cx.oblige("function-called-once", ok, lambda: f"{calls}"):
            cx.oblige("function-gets-the-name", cx_is(cx, calls[0][0][0], name), lambda: f"{calls}")


def interp_exc(cx, e, cls):
    r = interp.exc_is(cx, e, K(cls))
    return z3.BoolVal(r) if isinstance(r, bool) else r


harness("missing.reaction", {"C14": None})(reaction)


def no_import(cx):
    def imp(cx, a, k):
        cx.oblige("given-class-preferred", False, "a module is imported")
        raise Infeasible()
    cx.hooks["models"][id(builtins.__import__)] = imp
    cx.hooks["str_split"] = lambda cx, s, a: imp(cx, a, {})
    cx.hooks["str_rsplit"] = lambda cx, s, a: (cx.oblige("given-class-used", False, "the given class is not found by its name"), imp(cx, a, {}))
    del cx.contracts["jsonpickle.util.loadclass"]


def cls(cx, n):
    t = z3.Const(n, T)
    return TypeV(t, Spec())


def lookup(cx, d, name, want):
    """What the decoder uses for an entry of that class name."""
    got = interp.call(cx, K(util.loadclass), [SStr(name)], {"classes": d.U.fields["_classes"]})
    cx.oblige("given-class-used", cx_is(cx, got, want), lambda: f"{got!r} instead of {want!r}")


def given(kind):
    def h(cx):
        d = Doc(cx)
        if "_classes" not in d.U.fields:
            raise Unsupported("no field _classes")
        no_import(cx)
        if kind == "single":
            c = cls(cx, "C")
            arg, want = c, [(tname(c.t), c)]
        elif kind == "dict":
            a, b, c = cls(cx, "A"), cls(cx, "B"), cls(cx, "C")
            s = SStr(z3.Const("name", smt.S))
            cx.assume(s.s != tname(a.t))
            arg = DictV([One((a, b)), One((s, c))])
            want = [(tname(a.t), b), (s.s, c)]
        interp.call(cx, d.U.op_getattr(cx, "register_classes"), [arg])
        for name, c in want:
            lookup(cx, d, name, c)
    return h


def given_any(kind):
    """A collection of any number of classes: each is found by its name."""
    def h(cx):
        d = Doc(cx)
        if "_classes" not in d.U.fields:
            raise Unsupported("no field _classes")
        no_import(cx)
        fname = z3.Function("fname", V, smt.S)
        src = cx.src("elems", z3.Const("given", V), 1, lambda g: [cx.L.sub(typeof(g[0]), type), *[z3.Not(cx.L.sub(typeof(g[0]), c)) for c in (list, tuple, set, dict)]])
        arg = {"list": ListV, "tuple": TupV, "set": SetV}[kind]([Bulk(src, [(z3.BoolVal(True), (Sym(src.gens[0]),))])])
        interp.call(cx, d.U.op_getattr(cx, "register_classes"), [arg])
        c = cx.witness(src)[0][1]
        # different classes have different names
        cx.add_forall(src, z3.Implies(fname(src.gens[0]) == fname(c), src.gens[0] == c))
        lookup(cx, d, fname(c), Sym(c))
    return h


for k in ("list", "tuple", "set"):
    harness(f"missing.given-any.{k}", {"C14": None})(given_any(k))
for k in ("single", "dict"):
    harness(f"missing.given.{k}", {"C14": None})(given(k))


@harness("missing.entry-uses-given", {"C14": None})
def uses_given(cx):
    """An object entry, a class or function entry and a named tuple entry all
    look the name up among the given classes."""
    d = Doc(cx)
    tab = d.U.fields.get("_classes")
    if tab is None:
        raise Unsupported("no field _classes")
    log = []

    def load(cx, a, k):
        log.append((a, k))
        return K(None)
    cx.contracts["jsonpickle.util.loadclass"] = load
    name = item(cx, "name", str)
    tag = cx.pick("tag", [tags.OBJECT, tags.TYPE, tags.FUNCTION])
    d.restore(DictV([One((K(tag), name))]))
    called(log)
    for a, k in log:
        c = k.get("classes", a[1] if len(a) > 1 else K(None))
        cx.oblige("looks-up-the-name", cx_is(cx, a[0], name), lambda: f"{a}")
        cx.oblige("looks-among-given", c is tab, lambda: f"{c!r}")
