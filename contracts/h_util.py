"""What the encoder asks about a class: has it a method, has it a reduce hook."""
import inspect
import types
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_inst import user_class

S, BOOL = smt.S, z3.BoolSort()
defines = z3.Function("class defines", V, S, BOOL)       # the name is in the dict of the class itself
defined = z3.Function("class attribute", V, S, V)
reducible = z3.Function("is_reducible(class)", V, BOOL)


class ClassDict(V_.Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"vars({self.t})"
    def subst(self, m): return ClassDict(z3.substitute(self.t, *m))
    def op_type(self, cx): return K(types.MappingProxyType)
    def op_truth(self, cx): return True
    def op_contains(self, cx, k): return defines(self.t, V_.as_str(cx, k))

    def op_getitem(self, cx, k):
        s = V_.as_str(cx, k)
        if not cx.decide(defines(self.t, s)):
            raise_py(cx, KeyError, "not defined here")
        return Original(defined(self.t, s))

    def m_get(self, cx, k, default=K(None)):
        s = V_.as_str(cx, k)
        return Original(defined(self.t, s)) if cx.decide(defines(self.t, s)) else default


class Base(V_.Val):
    """Any class of the MRO, object aside."""

    def __init__(self, t): self.t = t
    def __repr__(self): return f"base {self.t}"
    def subst(self, m): return Base(z3.substitute(self.t, *m))
    def term(self, cx): return self.t
    def op_type(self, cx): return K(type)
    def op_isinstance(self, cx, cls): return V_.isinstance_exact(type, cls)
    def op_truth(self, cx): return True
    def op_hasattr(self, cx, n): return True if n == "__dict__" else self._no("hasattr")

    def op_is(self, cx, o):
        return False if isinstance(o, K) else NotImplemented

    def op_getattr(self, cx, n):
        return ClassDict(self.t) if n == "__dict__" else self._no(n)


kind = z3.Function("kind of attribute", V, z3.IntSort())
FUNCTION, STATIC, CLASSM, BUILTIN, OTHER = range(5)


class Original(V_.Val):
    """What a class dict holds under a name; not None."""

    def __init__(self, t): self.t = t
    def __repr__(self): return f"{self.t}"
    def subst(self, m): return Original(z3.substitute(self.t, *m))
    def term(self, cx): return self.t
    def op_type(self, cx): self._no("type")
    def op_truth(self, cx): return True
    def op_is(self, cx, o): return False if isinstance(o, K) else NotImplemented

    def op_isinstance(self, cx, cls):
        if cls is staticmethod: return kind(self.t) == STATIC
        if cls is classmethod: return kind(self.t) == CLASSM
        self._no(f"isinstance {cls}")


class Found(V_.Val):
    """What attribute lookup gives for it."""

    def __init__(self, k, x, cls): self.k, self.x, self.cls = k, x, cls
    def __repr__(self): return f"attribute of kind {self.k}"
    def op_type(self, cx): self._no("type")
    def op_truth(self, cx): return True

    def op_isinstance(self, cx, cls):
        if cls in (types.BuiltinMethodType, types.BuiltinFunctionType): return self.k == BUILTIN
        if cls is types.MethodType: return self.k in (FUNCTION, CLASSM)
        if cls is types.FunctionType: return self.k == STATIC
        self._no(f"isinstance {cls}")

    def op_hasattr(self, cx, n):
        return self.k in (FUNCTION, CLASSM) if n in ("__self__", "__func__") else self._no(n)

    def op_getattr(self, cx, n):
        if n == "__self__" and self.k in (FUNCTION, CLASSM):
            return self.x if self.k == FUNCTION else self.cls
        self._no(n)


def subject(cx):
    """An object of any class, and the classes of its MRO."""
    x = Sym(z3.Const("x", V), Spec())
    cx.assume(alloc(x.t) <= 0)
    cx.assume(x.t != NONE)
    sp, _ = user_class(cx, typeof(x.t))
    cls = TypeV(typeof(x.t), sp)
    x.spec.cls = sp
    x.spec.attrs["__class__"] = cls
    x.spec.extra["callable"] = False
    x.spec.attrs["__getitem__"] = x.spec.attrs["append"] = None
    cx.assume(typeof(x.t) != cx.L.tconst(object))
    src = cx.src("mro", x.t, 1, lambda g: [])
    mro = TupV([Bulk(src, [(BT, (Base(src.gens[0]),))]), One(K(object))])
    sp.attrs["__mro__"] = mro
    sp.attrs["mro"] = ModelFn("mro", lambda cx, a, k: ListV(list(mro.segs)))
    base = cx.hooks.setdefault("models", {})
    base[id(inspect.getmro)] = lambda cx, a, k: mro if isinstance(a[0], TypeV) and a[0].spec is sp else NotImplemented
    return x, cls, sp, src


def method(name):
    def h(cx):
        x, cls, sp, src = subject(cx)
        s = strs.sval(name)
        idx = V_.idx_fn(src)
        if cx.choose("class has it"):
            # the first class of the MRO that has the name
            w = cx.witness(src)[0][1]
            cx.assume(defines(w, s))
            cx.add_forall(src, z3.Implies(idx(src.gens[0]) < idx(w), z3.Not(defines(src.gens[0], s))))
            cx.add_forall(src, z3.Implies(idx(src.gens[0]) == idx(w), src.gens[0] == w))
            k = cx.pick("kind", [FUNCTION, STATIC, CLASSM, BUILTIN, OTHER])
            cx.assume(kind(defined(w, s)) == k)
            x.spec.attrs[name] = Found(k, x, cls)
            want = k != OTHER
        else:
            cx.add_forall(src, z3.Not(defines(src.gens[0], s)))
            want = False
            # not a method: a function kept by the object itself
            x.spec.attrs[name] = Found(STATIC, x, cls) if cx.choose("object has it") else None
        r = interp.call_repo(cx, util.has_method, [x, K(name)], {})
        t = interp.truth(cx, r)
        cx.oblige("method-iff-the-class-defines-one", t == want, lambda: f"{r!r}, should be {want}")
    return h


for _n in ("__getnewargs__", "__getnewargs_ex__", "__getinitargs__"):
    harness("method." + _n.strip("_"), {"C04": None, "C03": None})(method(_n))


class OwnNames(V_.Val):
    """The instance dict or slots, as names."""

    def __init__(self, name):
        self.has = z3.Function(name, S, BOOL)
        self.some = z3.Bool(name + " not empty")
    def __repr__(self): return str(self.has)
    def op_type(self, cx): return K(dict)
    def op_truth(self, cx): return self.some
    def op_isinstance(self, cx, cls): return V_.isinstance_exact(dict, cls)

    def op_contains(self, cx, k):
        s = V_.as_str(cx, k)
        cx.assume(z3.Implies(self.has(s), self.some))
        return self.has(s)


@harness("method.reduce", {"C04": None, "C03": None})
def reduce_hooks(cx):
    x, cls, sp, src = subject(cx)
    cx.contracts["jsonpickle.util._is_reducible"] = lambda cx, a, k: SBool(reducible(a[0].t)) if isinstance(a[0], Base) else NotImplemented
    own = {}
    for n in ("__dict__", "__slots__"):
        own[n] = OwnNames("x." + n) if cx.choose(n) else None
        x.spec.attrs[n] = own[n]
    names = ("__reduce__", "__reduce_ex__")
    for n in names:
        def look(cx, n=n):
            w = cx.exists(src, defines(src.gens[0], strs.sval(n)))
            return Original(defined(w[0][1], strs.sval(n))) if w else K(getattr(object, n))
        sp.attrs[n] = look
    r = interp.call_repo(cx, util.has_reduce, [x], {})
    es = r.segs if isinstance(r, TupV) else ()
    if not cx.oblige("two-answers", len(es) == 2 and all(isinstance(e, One) for e in es), lambda: f"{r!r}"):
        return
    for e, n in zip(es, names):
        s = strs.sval(n)
        inst = []
        for o in own.values():
            if o is not None:
                cx.assume(z3.Implies(o.has(s), o.some))
                inst.append(o.has(s))
        if interp.truth(cx, e.val):
            ws = [m[0][1] for m in cx.forall.get(("witnesses", src.key), ())]
            cx.oblige("hook-only-if-there-is-one", zor(*inst, *[defines(w, s) for w in ws]), lambda: f"{n}: {e.val!r}")
        else:
            m = len(cx.pc)
            w = cx.witness(src)[0][1]
            cx.oblige("hook-found-if-there-is-one", z3.Not(zor(*inst, defines(w, s))), lambda: f"{n}: {e.val!r}")
            del cx.pc[m:]
