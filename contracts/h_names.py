"""Names of classes, functions and modules: written, and loaded again."""
import builtins
import importlib
import sys
import types
import z3
from pyvc import smt, strs, interp, models
from .reg import harness
from .rt import *
from .h_core import seen0, item, both, trip

S, BOOL, INT = smt.S, z3.BoolSort(), z3.IntSort()
head = z3.Function("head", INT, S)              # first i parts of the name, joined again
imports = z3.Function("imports", S, BOOL)       # the module can be imported
badname = z3.Function("badname", S, BOOL)       # importing it gives ValueError
module = z3.Function("module", S, V)
resolves = z3.Function("resolves", INT, BOOL)   # the other parts are attributes, one of the other
walked = z3.Function("walked", INT, V)
LOAD = "jsonpickle.util.loadclass"


class Slice(V_.Val):
    """names[:i] or names[i:]"""

    def __init__(self, names, i, first):
        self.names, self.i, self.first = names, i, first

    def __repr__(self): return f"names[:{self.i}]" if self.first else f"names[{self.i}:]"
    def op_type(self, cx): return K(list)

    def joined(self, cx, sep):
        if not self.first or sep.conc() != "." and not cx.prove(sep.s == strs.sval(".")):
            raise Unsupported("join")
        return SStr(head(self.i))

    def op_iter(self, cx):
        if self.first:
            raise Unsupported("iteration over the parts of the module name")
        return self.names.rest(cx, self.i)


class Names(V_.Val):
    """The parts of a dotted name, at least one."""

    def __init__(self, cx, rest):
        self.n = z3.Int("parts")
        cx.assume(self.n >= 1)
        self.rest = rest

    def __repr__(self): return "names"
    def op_type(self, cx): return K(list)
    def op_len(self, cx): return SInt(self.n)

    def op_getitem(self, cx, k):
        if isinstance(k, V_.SliceV) and k.step is None and (k.lo is None) != (k.hi is None):
            return Slice(self, V_.as_int(cx, k.hi if k.lo is None else k.lo), k.lo is None)
        raise Unsupported(f"names[{k!r}]")


class Modules(V_.Val):
    """sys.modules: has what was imported."""
    def __init__(self, found): self.found = found
    def op_getitem(self, cx, k): return self.found(cx, V_.as_str(cx, k))
    def op_type(self, cx): return K(dict)


def world(cx, rest, splits, found):
    """The name under study, and what Python says about it."""
    name = z3.Const("name", S)
    names = Names(cx, rest)

    def split(cx, s, a):
        if not a or a[0].conc() != "." or not cx.prove(V_.as_str(cx, s) == name) or len(a) > 1:
            raise Unsupported("split")
        return names

    def imp(cx, a, k):
        s = V_.as_str(cx, a[0])
        if cx.decide(imports(s)):
            return Sym(z3.Function("top", S, V)(s))
        raise_py(cx, ValueError if cx.decide(badname(s)) else ImportError, "import")
    spec = Spec()
    spec.attrs["modules"] = Modules(found)
    m = cx.hooks.setdefault("models", {})
    m[id(builtins.__import__)] = imp
    m[id(range)] = lambda cx, a, k: splits(cx, names, a)
    m[id(reversed)] = lambda cx, a, k: a[0].reversed(cx) if isinstance(a[0], Range) else models.m_reversed(cx, a, k)
    cx.hooks["str_split"] = split
    cx.globals_over[("jsonpickle.util", "sys")] = Sym(z3.Const("sys", V), spec)
    return name, names


def legacy(s):
    """Module names of Python 2 are translated."""
    return z3.If(z3.Or(s == strs.sval("__builtin__"), s == strs.sval("exceptions")), strs.sval("builtins"), s)


split_at = z3.Function("split_at", V, INT)


class Range(V_.Val):
    """The numbers from lo in steps of one, short of hi."""
    def __init__(self, lo, hi, st, segs): self.lo, self.hi, self.st, self.segs = lo, hi, st, segs
    def op_iter(self, cx): return self.segs(cx, self.lo, self.hi, self.st)
    def reversed(self, cx): return Range(self.hi - self.st, self.lo - self.st, -self.st, self.segs)
    def op_type(self, cx): return K(range)


class Attrs(V_.Val):
    """All the parts after a split, as one step."""
    def __init__(self, i): self.i = i
    def subst(self, m): return Attrs(z3.substitute(self.i, *m))
    def __repr__(self): return f"parts after {self.i}"


class Module(V_.Val):
    def __init__(self, s): self.s = s
    def __repr__(self): return f"module {self.s}"
    def subst(self, m): return Module(z3.substitute(self.s, *m))
    def term(self, cx): return module(self.s)

    def op_getattr_sym(self, cx, n, *d):
        if not isinstance(n, Attrs) or d:
            raise Unsupported("attribute of a module")
        cx.oblige("module-and-attributes-belong-together", self.s == legacy(head(n.i)), lambda: f"{n!r} of {self!r}")
        if cx.decide(resolves(n.i)):
            return Sym(walked(n.i))
        raise_py(cx, AttributeError, "no such attribute")


def order(classes):
    def h(cx):
        one_step = lambda cx, i: [One(Attrs(i))]

        def splits(cx, names, a):
            lo, hi, st = (K(0), a[0], K(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else K(1))
            lo, hi, st = V_.as_int(cx, lo), V_.as_int(cx, hi), st.conc()
            if st not in (1, -1):
                raise Unsupported("range step")
            return Range(lo, hi, st, numbers)

        def numbers(cx, lo, hi, st):
            def facts(g):
                j, i = split_at(g[0]), idx(g[0])
                return [j >= lo, j < hi, i == j - lo] if st == 1 else [j <= lo, j > hi, i == lo - j]
            idx = z3.Function("idx:splits(name!)", V, INT)
            src = cx.src("splits", z3.Const("name!", V), 1, facts)
            if not V_.idx_fn(src)(src.gens[0]).eq(idx(src.gens[0])):
                raise Unsupported("index")
            splits.bounds = (lo, hi) if st == 1 else (hi + 1, lo + 1)
            splits.src = src
            return [Bulk(src, [(BT, (SInt(split_at(src.gens[0])),))])]
        name, names = world(cx, one_step, splits, lambda cx, s: Module(s))
        works = lambda i: z3.And(imports(legacy(head(i))), resolves(i))

        full, last = z3.Bool("in classes"), z3.Bool("last part in classes")
        lastpart = z3.Const("last", S)
        args = [SStr(name)]
        given = []
        if classes:
            cl = Given(full, last, name, lastpart)
            cx.hooks["str_rsplit"] = lambda cx, s, a: rsplit(cx, s, a, name, lastpart)
            args.append(cl)
        elif cx.choose("none"):
            args.append(K(None))
        r = interp.call_repo(cx, util.loadclass, args, {})
        if classes:
            if cx.prove(full):
                cx.oblige("given-class-first", isinstance(r, Sym) and r.t == given_class(name), lambda: f"{r!r}")
                return
            if cx.prove(last):
                cx.oblige("given-class-by-last-part", isinstance(r, Sym) and r.t == given_class(lastpart), lambda: f"{r!r}")
                return
            cx.oblige("given-classes-considered", z3.Not(z3.Or(full, last)))
        src = getattr(splits, "src", None)
        if src is None:
            raise Unsupported("no splits")
        # k: any split that works; for each of them
        k = z3.Int("k")
        there = zand(k >= 1, k < names.n, works(k))
        m = len(cx.pc)
        cx.assume(there)
        lo, hi = splits.bounds
        cx.oblige("every-split-is-tried", zand(k >= lo, k < hi), lambda: f"{lo} to {hi}")
        wit = cx.witness(src)
        cx.assume(split_at(wit[0][1]) == k)
        for f in cx.src_facts(src):
            cx.assume(z3.substitute(f, *wit))
        if isinstance(r, K) and r.v is None:
            if cx.feasible():
                cx.oblige("found-if-any-split-works", False, "nothing found")
        elif isinstance(r, Sym) and not z3.is_const(r.t) and r.t.decl().name() == "walked":
            i = r.t.arg(0)
            cx.oblige("longest-module-that-works", i >= k, lambda: f"{r!r}")
        elif cx.feasible():
            cx.oblige("found-if-any-split-works", False, lambda: f"{r!r}")
        del cx.pc[m:]
        if isinstance(r, Sym) and r.t.decl().name() == "walked":
            cx.oblige("result-is-what-the-name-says", works(r.t.arg(0)), lambda: f"{r!r}")
        elif isinstance(r, K) and r.v is type(None):
            cx.oblige("nonetype-only-for-its-name", name == strs.sval("builtins.NoneType"))
        else:
            cx.oblige("nothing-else", isinstance(r, K) and r.v is None, lambda: f"{r!r}")
            cx.oblige("nonetype-found", name != strs.sval("builtins.NoneType"))
    return h


given_class = z3.Function("given class", S, V)


class Given(V_.Val):
    """The caller's classes: hold the whole name, its last part, or not."""

    def __init__(self, full, last, nm, lp):
        self.full, self.last, self.nm, self.lp = full, last, nm, lp

    def __repr__(self): return "given classes"
    def op_type(self, cx): return K(dict)
    def op_truth(self, cx): return z3.Or(self.full, self.last, z3.Bool("other classes"))

    def op_contains(self, cx, key):
        s = V_.as_str(cx, key)
        if cx.prove(s == self.nm):
            return self.full
        if cx.prove(s == self.lp):
            return self.last
        raise Unsupported(f"lookup of {key!r}")

    def op_getitem(self, cx, key):
        if cx.decide(self.op_contains(cx, key)):
            return Sym(given_class(V_.as_str(cx, key)))
        raise_py(cx, KeyError, "no such class")

    def m_get(self, cx, key, default=None):
        if cx.decide(self.op_contains(cx, key)):
            return Sym(given_class(V_.as_str(cx, key)))
        return default or K(None)


def rsplit(cx, s, a, name, lastpart):
    if len(a) != 2 or a[0].conc() != "." or a[1].conc() != 1 or not cx.prove(V_.as_str(cx, s) == name):
        raise Unsupported("rsplit")
    if cx.choose("dotted"):
        return ListV([One(SStr(cx.fresh("front", S))), One(SStr(lastpart))])
    cx.assume(lastpart == name)
    cx.assume(z3.Bool("in classes") == z3.Bool("last part in classes"))
    return ListV([One(SStr(lastpart))])


harness("names.loadclass", {"C21": None})(order(False))
harness("names.loadclass.classes", {"C21": None, "C14": ("given",)})(order(True))


class Walk(V_.Val):
    """What following the parts so far gives."""
    steps = True

    def __init__(self, st, at): self.st, self.at = st, at
    def __repr__(self): return f"walk:{self.at}"
    def subst(self, m): return self
    def term(self, cx): return z3.Const("walked so far", V)
    def widen(self, cx): return Walk(self.st, "prior")
    def covers(self, v): return isinstance(v, Walk) and v.at == "next"

    def op_getattr_sym(self, cx, name, *default):
        src = self.st["src"]
        first = isinstance(name, SStr) and name.s.eq(self.st["first"])
        if not first and not isinstance(name, Sym):
            raise Unsupported(f"attribute {name!r}")
        cx.oblige("each-part-of-the-one-before", self.at == "module" if first else self.at == "prior" or self.at == "first" , lambda: f"{name!r} of {self!r}")
        if default:
            raise Unsupported("getattr with a default")
        if cx.decide(z3.Function("missing", V, BOOL)(name.term(cx))):
            raise_py(cx, AttributeError, "no such attribute")
        return Walk(self.st, "first" if first else "next")


@harness("names.loadclass.walk", {"C21": None})
def walk(cx):
    """One split, any: each further part is looked up in what the parts
    before gave, and the last of them is the result."""
    i = z3.Int("i")
    st = {"src": None, "first": z3.Const("first", S)}

    def rest(cx, at):
        cx.oblige("walks-the-rest", at == i, lambda: f"{at}")
        st["src"] = cx.src("rest", z3.Const("rest", V), 1, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
        return [One(SStr(st["first"])), Bulk(st["src"], [(BT, (Sym(st["src"].gens[0]),))])]
    name, names = world(cx, rest, lambda cx, names, a: ListV([One(SInt(i))]),
                        lambda cx, s: (cx.oblige("starts-at-the-module", s == legacy(head(i)), lambda: f"{s}"), Walk(st, "module"))[1])
    cx.assume(z3.And(i >= 1, i < names.n))
    cx.assume(name != strs.sval("builtins.NoneType"))
    cx.assume(imports(legacy(head(i))))
    r = interp.call_repo(cx, util.loadclass, [SStr(name)], {})
    miss = z3.Function("missing", V, BOOL)
    if isinstance(r, Walk):
        cx.oblige("all-parts-followed", r.at != "module", lambda: f"{r!r}")
        cx.oblige("all-parts-followed", z3.Not(miss(SStr(st["first"]).term(cx))))
        src = st["src"]
        n = len(cx.pc)
        for f in cx.src_facts(src):
            cx.assume(f)
        if cx.feasible():
            cx.oblige("all-parts-followed", z3.Not(miss(src.gens[0])))
        del cx.pc[n:]
        return
    cx.oblige("result", isinstance(r, K) and r.v is None, lambda: f"{r!r}")
    # nothing found: some part was missing
    src = st["src"]
    ws = cx.forall.get(("witnesses", src.key), ()) if src is not None else ()
    cx.oblige("found-unless-a-part-is-missing", zor(miss(SStr(st["first"]).term(cx)), *[miss(m[0][1]) for m in ws]))


def qualified(cls):
    """The name written for a class or function: module and qualified name,
    the table of the types module first."""
    def h(cx):
        q, m = z3.Const("qualname", S), z3.Const("module name", S)
        sp = Spec()
        table = util.__dict__.get("_TYPES_IMPORTABLE_NAMES")
        if not isinstance(table, dict):
            raise Unsupported("no table of names for the types module")
        if cls is type:
            t = z3.Const("C", T)
            x = TypeV(t, sp)
            for c in table:
                if isinstance(c, type):
                    cx.assume(t != cx.L.tconst(c))
        else:
            x = item(cx, "f", cls)
            x.spec = sp
        sp.attrs.update({"__qualname__": SStr(q), "__name__": SStr(z3.Const("simple name", S)), "__module__": SStr(m)})
        # a module name is not empty
        cx.assume(z3.Not(m == strs.sval("")))
        r = interp.call_repo(cx, util.importable_name, [x], {})
        # the Python 2 names of the builtins are read as such, see DESIGN.md
        old = z3.Or(m == strs.sval("__builtin__"), m == strs.sval("exceptions"))
        got = V_.as_str(cx, r) if V_.is_strlike(cx, r, True) else None
        want = None if got is None else z3.Or(got == strs.cat(m, strs.sval("."), q), z3.And(old, got == strs.cat(strs.sval("builtins."), q)))
        cx.oblige("module-and-qualified-name", want if got is not None else False, lambda: f"{r!r}")
    return h


for _c in (type, types.FunctionType, types.BuiltinFunctionType):
    harness(f"names.written.{_c.__name__}", {"C21": None})(qualified(_c))


@harness("names.written.table", {"C21": None})
def table(cx):
    """The names with an entry of their own, all of them: each loads as the
    class it is written for.  (Evaluated, the table being finite.)"""
    tab = util.__dict__.get("_TYPES_IMPORTABLE_NAMES")
    if not isinstance(tab, dict):
        raise Unsupported("no table of names for the types module")
    cx.oblige("table-holds-names", bool(tab))
    for c in tab:
        n = util.importable_name(c)
        cx.oblige("table-entry-loads-itself", util.loadclass(n) is c, lambda: f"{c} is written {n!r}")


REF = {"C21": None, "C02": ("reference",), "C07": ("output-is-json",)}


def value(kind):
    """A class or function as a value: the very object comes back (what the
    name loads is names.loadclass), and no reference number is used."""
    def h(cx):
        w = both(cx)
        if kind is type:
            t = z3.Const("C", T)
            x = TypeV(t, Spec())
            add_class(cx, t, x)
        else:
            x = item(cx, "f", kind)
            x.spec = Spec()
            x.spec.attrs.update({"__name__": SStr(z3.Const("fn", S)), "__module__": SStr(z3.Const("fm", S))})
            cx.assume(z3.Const("fn", S) != strs.sval("<lambda>"))
            cx.ghost["classes"] = cx.ghost.get("classes", ()) + ((z3.Function("fname", V, S)(x.t), x),)
        j, r = trip(cx, w, x)
        cx.oblige("identical", r is x, lambda: f"{j!r} -> {r!r}")
        cx.oblige("reference-numbers-agree", not nonempty_segs(cx, w.plog.segs) and not nonempty_segs(cx, w.ulog.segs), lambda: f"{w.plog} {w.ulog}")
    return h


for _c in (type, types.FunctionType, types.BuiltinFunctionType):
    harness(f"names.value.{_c.__name__}", REF)(value(_c))


@harness("names.missing-type", {"C21": None})
def missing_type(cx):
    """A name that loads nothing leaves the entry as it is (type) or gives
    None (function)."""
    w = both(cx)
    n = SStr(z3.Const("unknown", S))
    cx.ghost["classes"] = ((n.s, K(None)),)
    tag = cx.pick("tag", [tags.TYPE, tags.FUNCTION])
    r = w.restore(DictV([One((K(tag), n))]))
    cx.oblige("nothing-for-an-unknown-name", isinstance(r, DictV) if tag == tags.TYPE else isinstance(r, K) and r.v is None, lambda: f"{r!r}")
    cx.oblige("reference-numbers-agree", not nonempty_segs(cx, w.ulog.segs))


MOD = "jsonpickle.unpickler._loadmodule"


@harness("names.module", dict(REF, C12=("only-imports",)))
def module_value(cx):
    """A module as a value: the very module of that name comes back."""
    w = both(cx)
    name = z3.Const("module name", S)
    first = z3.Const("package", S)
    x = item(cx, "x", types.ModuleType)
    x.spec = Spec()
    x.spec.attrs.update({"__name__": SStr(name), "__slots__": None, "__dict__": None, "_jsonpickle_exclude": None, "__setstate__": None,
                         "__getnewargs__": None, "__getnewargs_ex__": None, "__getinitargs__": None})
    x.spec.extra.update({"methods": (), "reduce": (False, False), "callable": False})
    st = {"src": None, "first": z3.Const("none", S)}
    slash = strs.cat(name, strs.sval("/"), name)
    # a module name has no slash, so its entry splits at the one written
    # and the first part of a dotted name is the name or a prefix up to a dot
    cx.assume(z3.Or(first == name, strs.prefix(strs.cat(first, strs.sval(".")), name)))

    def split(cx, s, a):
        t = V_.as_str(cx, s)
        sep = a[0].conc() if len(a) == 1 else None
        if sep == "/" and cx.prove(t == slash):
            return ListV([One(SStr(name)), One(SStr(name))])
        if sep == "." and cx.prove(t == name):
            st["src"] = cx.src("rest", z3.Const("rest", V), 1, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
            return ListV([One(SStr(first)), Bulk(st["src"], [(BT, (Sym(st["src"].gens[0]),))])])
        raise Unsupported("split")

    done = []

    def imp(cx, a, k):
        cx.oblige("imports-the-module", V_.as_str(cx, a[0]) == name, lambda: f"{a}")
        done.append(1)
        return Walk(st, "first")

    def imp_module(cx, a, k):
        imp(cx, a, k)
        return x

    def found(cx, s):
        if not done or not cx.prove(s == name):
            raise Unsupported(f"sys.modules[{s}]")
        return x
    spec = Spec()
    spec.attrs["modules"] = Modules(found)
    cx.hooks["models"][id(builtins.__import__)] = imp
    cx.hooks["models"][id(importlib.import_module)] = imp_module
    cx.globals_over[("jsonpickle.unpickler", "sys")] = Sym(z3.Const("sys", V), spec)
    cx.hooks["str_split"] = split
    cx.hooks["registered"] = lambda cx, t: seen0(x.t)
    j = w.flatten(x)
    jj = jsoncopy(cx, j)
    if cx.prove(seen0(x.t)):
        return
    if not cx.oblige("named", isinstance(jj, DictV), lambda: f"{jj!r}"):
        return
    r = w.restore(jj)
    # the attribute of a package need not be the submodule of that name, so
    # following names does not do
    if not cx.oblige("identical", r is x, lambda: f"{r!r}"):
        return
    logs_agree(cx, w, lambda a, b: a.t == x.t if b is r else False)
