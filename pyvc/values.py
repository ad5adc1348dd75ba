"""Symbolic values and the semantics of operations on them."""
import builtins
import types
import z3
from . import smt, strs
from .smt import (V, T, typeof, int_of, str_of, truthy, ident, alloc, tval, pyeq,
                  repr_of, tname, tsimple, NONE, TRUE, FALSE)
from .core import (Unsupported, Infeasible, PyExc, One, Del, Bulk, Opaque, Src, Heap, serial)

BT = z3.BoolVal(True)
BF = z3.BoolVal(False)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zor(*xs):
    xs = [zb(x) for x in xs]
    return z3.simplify(z3.Or(*xs)) if xs else BF


def zand(*xs):
    xs = [zb(x) for x in xs]
    return z3.simplify(z3.And(*xs)) if xs else BT


def znot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def raise_py(cx, cls, *args):
    raise PyExc(ExcV(cls, [lift(a) for a in args]))


def lift(v):
    return v if isinstance(v, Val) else K(v)


_NOTCONC = object()


class Val:
    """Base: every operation defaults to Unsupported."""

    def _no(self, what):
        raise Unsupported(f"{what} on {type(self).__name__}: {self!r}")

    def term(self, cx): self._no("term")
    def op_type(self, cx): self._no("type()")
    def op_call(self, cx, args, kwargs): self._no("call")

    def op_truth(self, cx):
        t = self.op_type(cx)
        if not isinstance(t, K) or inst_hasattr(t.v, "__bool__") or inst_hasattr(t.v, "__len__"):
            self._no("truth")
        return True

    def op_iter(self, cx):
        t = self.op_type(cx)
        if not isinstance(t, K) or inst_hasattr(t.v, "__iter__") or inst_hasattr(t.v, "__getitem__"):
            self._no("iteration")
        raise_py(cx, TypeError, "not iterable")

    def op_getitem(self, cx, k): self._no("getitem")
    def op_setitem(self, cx, k, v): self._no("setitem")
    def op_delitem(self, cx, k): self._no("delitem")
    def op_contains(self, cx, k): self._no("contains")
    def op_len(self, cx): self._no("len")
    def op_setattr(self, cx, name, v): self._no(f"setattr {name}")
    def op_delattr(self, cx, name): self._no(f"delattr {name}")
    def subst(self, m): return self
    def conc(self): return _NOTCONC
    def op_repr(self, cx): return SStr(repr_of(self.term(cx)))

    def op_isinstance(self, cx, cls):
        t = self.op_type(cx)
        if isinstance(t, K):
            return isinstance_exact(t.v, cls)
        return cx.L.sub(t.t, cls)

    def op_getattr(self, cx, name):
        if name == "__class__":
            return self.op_type(cx)
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return MethV(self, name, m)
        t = self.op_type(cx)
        if isinstance(t, K):
            if not inst_hasattr(t.v, name):
                raise_py(cx, AttributeError, name)
        self._no(f"getattr {name}")

    def op_hasattr(self, cx, name):
        if name == "__class__":
            return True
        t = self.op_type(cx)
        if isinstance(t, K):
            return inst_hasattr(t.v, name)
        self._no(f"hasattr {name}")

    def op_eq(self, cx, other):
        return self is other or (self.term(cx) == other.term(cx))


def inst_hasattr(cls, name):
    """hasattr() of an instance of exactly this builtin class."""
    if name == "__dict__":
        return cls.__dictoffset__ != 0
    return any(name in vars(c) for c in cls.__mro__)


def isinstance_exact(t, cls):
    try:
        return issubclass(t, cls)
    except TypeError:
        raise Unsupported(f"issubclass({t},{cls})")


# ---------------------------------------------------------------------------
class K(Val):
    """A concrete Python object (constants, real classes, real functions)."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        r = repr(self.v)
        return r if len(r) < 60 else r[:57] + "..."

    def conc(self):
        return self.v

    def term(self, cx):
        v = self.v
        if v is None: return NONE
        if v is True: return TRUE
        if v is False: return FALSE
        if isinstance(v, type):
            return tval(cx.L.tconst(v))
        if type(v) in (int, float, str, bytes):
            key = ("lit", type(v).__name__, repr(v))
            c = z3.Const(f"lit:{type(v).__name__}:{v!r}", V)
            facts = [typeof(c) == cx.L.tconst(type(v)), alloc(c) == 0,
                     truthy(c) == z3.BoolVal(bool(v)), ident(c) > 0, smt.unident(ident(c)) == c]
            if type(v) is int: facts.append(int_of(c) == v)
            if type(v) is str: facts.append(str_of(c) == strs.sval(v))
            cx.L.bg(key, *facts)
            return c
        c = z3.Const(f"obj:{type(v).__name__}:{id(v)}", V)
        cx.L.bg(("obj", id(v)), typeof(c) == cx.L.tconst(type(v)), alloc(c) == 0, ident(c) > 0,
                smt.unident(ident(c)) == c)
        cx.hooks.setdefault("keepalive", []).append(v)
        return c

    def op_type(self, cx):
        return K(type(self.v))

    def op_truth(self, cx):
        return bool(self.v)

    def op_isinstance(self, cx, cls):
        return isinstance(self.v, cls)

    def op_hasattr(self, cx, name):
        return hasattr(self.v, name)

    def op_getattr(self, cx, name):
        v = self.v
        ov = cx.hooks.get("kattr")
        if ov is not None:
            r = ov(cx, v, name)
            if r is not None:
                return r
        from . import interp
        m = getattr(KMethods, name, None)
        if m is not None and isinstance(v, (list, tuple, dict, set, frozenset, str, bytes)):
            return MethV(self, name, lambda cx, *a, **k: m(cx, self, *a, **k))
        try:
            r = getattr(v, name)
        except AttributeError:
            raise_py(cx, AttributeError, name)
        if isinstance(r, types.MethodType) and interp.is_repo_function(r.__func__):
            return BoundV(K(r.__func__), K(r.__self__))
        return K(r)

    def op_setattr(self, cx, name, v):
        h = cx.hooks.get("ksetattr")
        if h is not None and h(cx, self.v, name, v):
            return
        self._no(f"setattr {name}")

    def op_iter(self, cx):
        v = self.v
        if isinstance(v, (list, tuple, str, bytes, range)):
            return [One(K(x)) for x in v]
        if isinstance(v, (set, frozenset)):
            return [One(K(x)) for x in sorted(v, key=repr)]
        if isinstance(v, dict):
            return [One(K(x)) for x in v]
        if hasattr(type(v), "__iter__"):
            self._no("iter")
        raise_py(cx, TypeError, "not iterable")

    def op_len(self, cx):
        try:
            return K(len(self.v))
        except TypeError:
            raise_py(cx, TypeError, "no len")

    def op_getitem(self, cx, k):
        c = k.conc()
        if c is not _NOTCONC:
            try:
                return K(self.v[c])
            except Exception as e:
                raise PyExc(ExcV(type(e), [K(a) for a in e.args]))
        if isinstance(self.v, dict):
            r = KMethods._dictfind(cx, self, k)
            if r is None:
                raise PyExc(ExcV(KeyError, [k]))
            return r
        if isinstance(self.v, str) and isinstance(k, SliceV):
            return SStr(strs.sval(self.v)).op_getitem(cx, k)
        self._no("getitem symbolic")

    def op_contains(self, cx, k):
        v = self.v
        c = k.conc()
        if c is not _NOTCONC:
            try:
                return c in v
            except TypeError:
                raise_py(cx, TypeError, "unhashable")
        if isinstance(v, (list, tuple, set, frozenset, dict)):
            return zor(*[cx_eq(cx, K(x), k) for x in v])
        if isinstance(v, str) and is_strlike(cx, k):
            return strs.contains(strs.sval(v), as_str(cx, k))
        self._no("contains symbolic")

    def op_eq(self, cx, other):
        c = other.conc()
        if c is not _NOTCONC:
            try:
                return bool(self.v == c)
            except Exception:
                self._no("eq")
        return other.op_eq(cx, self)

    def op_call(self, cx, args, kwargs):
        from . import interp
        return interp.call_concrete(cx, self.v, args, kwargs)

    def op_repr(self, cx):
        return K(repr(self.v))


class KMethods:
    """Methods of concrete containers called with symbolic arguments."""

    @staticmethod
    def _dictfind(cx, self, key):
        c = key.conc()
        if c is not _NOTCONC:
            try:
                return K(self.v[c]) if c in self.v else None
            except TypeError:
                raise_py(cx, TypeError, "unhashable")
        conds = [(x, cx_eq(cx, K(x), key)) for x in self.v]
        conds = [(x, e) for x, e in conds if not (e is False)]
        if not conds or not cx.decide(zor(*[e for _, e in conds])):
            return None
        for x, e in conds:
            if cx.decide(e):
                return K(self.v[x])
        raise Infeasible()

    @staticmethod
    def get(cx, self, key, default=None):
        if not isinstance(self.v, dict): self._no("get")
        r = KMethods._dictfind(cx, self, key)
        return (default or K(None)) if r is None else r

    @staticmethod
    def items(cx, self):
        return ListV([One(TupV([One(K(k)), One(lift_container(v))])) for k, v in self.v.items()])

    @staticmethod
    def keys(cx, self):
        return ListV([One(K(k)) for k in self.v])

    @staticmethod
    def values(cx, self):
        return ListV([One(lift_container(v)) for v in self.v.values()])

    @staticmethod
    def copy(cx, self):
        v = self.v
        if isinstance(v, dict):
            return DictV([One((K(k), K(x))) for k, x in v.items()])
        if isinstance(v, list):
            return ListV([One(K(x)) for x in v])
        return SetV([One(K(x)) for x in v])

    @staticmethod
    def join(cx, self, it):
        return SStr(strs.sval(self.v)).m_join(cx, it)

    @staticmethod
    def startswith(cx, self, p):
        return str_method(cx, self, "startswith", [p])

    @staticmethod
    def endswith(cx, self, p):
        return str_method(cx, self, "endswith", [p])

    @staticmethod
    def format(cx, self, *a):
        return SStr(cx.fresh("fmt", smt.S))


def str_method(cx, self, name, args):
    cs = [a.conc() for a in args]
    if all(c is not _NOTCONC for c in cs) and isinstance(self, K):
        return K(getattr(self.v, name)(*cs))
    s = as_str(cx, self)
    f = strs.prefix if name == "startswith" else strs.suffix
    if isinstance(args[0], TupV):
        return SBool(zor(*[f(as_str(cx, x.val), s) for x in args[0].segs]))
    if cs[0] is not _NOTCONC and isinstance(cs[0], tuple):
        return SBool(zor(*[f(strs.sval(x), s) for x in cs[0]]))
    return SBool(f(as_str(cx, args[0]), s))


def lift_container(v):
    return K(v)


# ---------------------------------------------------------------------------
class Spec:
    """What a harness fixes about an opaque object or class."""

    def __init__(self, **attrs):
        self.attrs = attrs          # name -> Val | None (absent) | callable(cx)->Val
        self.call = None
        self.iter = None
        self.extra = {}


class Sym(Val):
    """An unknown Python object."""

    def __init__(self, t, spec=None):
        self.t = t
        self.spec = spec

    def __repr__(self):
        return f"{self.t}"

    def subst(self, m):
        t = z3.substitute(self.t, *m)
        return self if t.eq(self.t) else Sym(t, self.spec)

    def term(self, cx):
        return self.t

    def op_type(self, cx):
        tt = typeof(self.t)
        # concrete class if the path condition fixes it
        cache = cx.hooks.setdefault("tcache", {})
        for cls in cx.hooks.get("exact", {}).get(self.t.get_id(), ()):
            return K(cls)
        return TypeV(tt, getattr(self.spec, "cls", None) if self.spec else None)

    def op_isinstance(self, cx, cls):
        ex = cx.hooks.get("exact", {}).get(self.t.get_id())
        if ex:
            return isinstance_exact(ex[0], cls)
        return cx.L.sub(typeof(self.t), cls)

    def op_truth(self, cx):
        t = self.t
        L = cx.L
        cx.L.bg(("truth", t.get_id()),
                z3.Implies(typeof(t) == L.tconst(str), truthy(t) == (str_of(t) != strs.EMPTY)),
                z3.Implies(typeof(t) == L.tconst(int), truthy(t) == (int_of(t) != 0)),
                z3.Implies(typeof(t) == L.tconst(bool), z3.And(z3.Or(t == TRUE, t == FALSE), truthy(t) == (t == TRUE))),
                z3.Implies(typeof(t) == L.tconst(type(None)), z3.Not(truthy(t))),
                z3.Implies(L.sub(typeof(t), type), truthy(t)))
        ex = exact_of(cx, self)
        if ex in (list, tuple, set, dict):
            segs = self.op_iter(cx)
            return seg_nonempty(cx, segs)
        return truthy(t)

    def op_hasattr(self, cx, name):
        if name == "__class__":
            return True
        if self.spec is not None and name in self.spec.attrs:
            r = self.spec.attrs[name]
            return r is not None
        ex = exact_of(cx, self)
        if ex is not None:
            return inst_hasattr(ex, name)
        if name in vars(object):
            return True
        f = z3.Function(f"hasattr:{name}", V, z3.BoolSort())
        if ("ha", name, self.t.get_id()) not in cx.L.done:
            cx.L.bg(("ha", name, self.t.get_id()), *[
                z3.Implies(typeof(self.t) == cx.L.tconst(cls), f(self.t) == z3.BoolVal(inst_hasattr(cls, name)))
                for cls in smt.BASIC if cls not in (object, types.FunctionType, type, types.ModuleType)])
        return f(self.t)

    def op_getattr(self, cx, name):
        if name == "__class__":
            return self.op_type(cx)
        if self.spec is not None and name in self.spec.attrs:
            r = self.spec.attrs[name]
            if r is None:
                raise_py(cx, AttributeError, name)
            return r(cx) if isinstance(r, types.FunctionType) else r
        ex = exact_of(cx, self)
        if ex is not None:
            if not inst_hasattr(ex, name):
                raise_py(cx, AttributeError, name)
            m = getattr(self, f"x{ex.__name__}_{name}", None)
            if m is not None:
                return MethV(self, name, m)
            if ex is str and hasattr(SStr, "m_" + name):
                return SStr(str_of(self.t)).op_getattr(cx, name)
            if name in ("__str__", "__repr__") and ex in (int, float):
                return MethV(self, name, lambda cx: SStr(repr_of(self.t)))
            self._no(f"getattr {name} of exact {ex.__name__}")
        if not cx.decide(self.op_hasattr(cx, name)):
            raise_py(cx, AttributeError, name)
        if is_strlike(cx, self, prove=True) and hasattr(SStr, "m_" + name):
            return SStr(str_of(self.t)).op_getattr(cx, name)
        f = z3.Function(f"attr:{name}", V, V)
        t = f(self.t)
        cx.L.bg(("attr", t.get_id()), alloc(t) <= 0)
        return Sym(t)

    def op_setattr(self, cx, name, v):
        h = cx.hooks.get("symsetattr")
        if h is not None:
            return h(cx, self, name, v)
        self._no(f"setattr {name}")

    def op_call(self, cx, args, kwargs):
        if self.spec is not None and self.spec.call is not None:
            return self.spec.call(cx, args, kwargs)
        h = cx.hooks.get("symcall")
        if h is not None:
            return h(cx, self, args, kwargs)
        self._no("call of opaque object")

    def op_iter(self, cx):
        if self.spec is not None and self.spec.iter is not None:
            return self.spec.iter(cx)
        ex = exact_of(cx, self)
        if ex is dict:
            s = cx.src("items", self.t, 2, cx.hooks.get("itemfacts"))
            return [Bulk(s, [(BT, (Sym(s.gens[0]),))])]
        if ex in (list, tuple, set, frozenset) or cx.hooks.get("iterable_all"):
            s = cx.src("elems", self.t, 1, cx.hooks.get("elemfacts"))
            return [Bulk(s, [(BT, (Sym(s.gens[0]),))])]
        if ex is str:
            s = cx.src("chars", self.t, 1, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
            return [Bulk(s, [(BT, (Sym(s.gens[0]),))])]
        if ex is not None and not hasattr(ex, "__iter__"):
            raise_py(cx, TypeError, "not iterable")
        it = z3.Or(*[cx.L.sub(typeof(self.t), c) for c in (list, tuple, set, dict)])
        if cx.prove(it):
            s = cx.src("elems", self.t, 1, cx.hooks.get("elemfacts"))
            return [Bulk(s, [(BT, (Sym(s.gens[0]),))])]
        self._no("iteration over opaque object")

    def op_len(self, cx):
        f = z3.Function("len", V, z3.IntSort())
        cx.L.bg(("len", self.t.get_id()), f(self.t) >= 0)
        return SInt(f(self.t))

    def op_getitem(self, cx, k):
        if self.spec is not None and "__getitem__" in self.spec.attrs:
            return self.spec.attrs["__getitem__"](cx, k)
        ex = exact_of(cx, self)
        if ex is str:
            return SStr(str_of(self.t)).op_getitem(cx, k)
        self._no("getitem")

    def op_contains(self, cx, k):
        ex = exact_of(cx, self)
        if ex is str:
            return SStr(str_of(self.t)).op_contains(cx, k)
        if ex in (list, tuple, set, dict):
            return seg_contains(cx, self.op_iter(cx), k)
        if is_strlike(cx, self, prove=True):
            return SStr(str_of(self.t)).op_contains(cx, k)
        f = z3.Function("contains", V, V, z3.BoolSort())
        return f(self.t, k.term(cx))

    def op_eq(self, cx, other):
        c = other.conc()
        t = self.t
        L = cx.L
        if c is not _NOTCONC:
            if c is None or c is True or c is False:
                if c is None:
                    # user classes could define __eq__; None compares by identity otherwise
                    return t == NONE
                return t == other.term(cx)
            if isinstance(c, str):
                got = L.memo.get((t.get_id(), c))
                if got is None:
                    got = L.memo[t.get_id(), c] = (z3.And(L.sub(typeof(t), str), str_of(t) == strs.sval(c)), t)
                return got[0]
            if type(c) is int:
                return z3.And(z3.Or(typeof(t) == L.tconst(int), typeof(t) == L.tconst(bool)), int_of(t) == c)
            if isinstance(c, type):
                return t == other.term(cx)
        if isinstance(other, SStr):
            return z3.And(L.sub(typeof(t), str), str_of(t) == other.s)
        if isinstance(other, SInt):
            return z3.And(typeof(t) == L.tconst(int), int_of(t) == other.i)
        if isinstance(other, TypeV):
            return t == tval(other.t)
        if isinstance(other, Sym):
            if other.t.eq(t):
                return True
            return z3.Or(t == other.t, pyeq(t, other.t))
        if isinstance(other, (ListV, TupV, DictV, SetV, NewObj, InstV)):
            return pyeq(t, other.term(cx))
        return other.op_eq(cx, self) if not isinstance(other, K) else pyeq(t, other.term(cx))

    # methods of exact builtin types ---------------------------------------
    def xdict_items(self, cx):
        s = cx.src("items", self.t, 2, cx.hooks.get("itemfacts"))
        return ListV([Bulk(s, [(BT, (TupV([One(Sym(s.gens[0])), One(Sym(s.gens[1]))]),))])])

    def xdict_keys(self, cx):
        return ListV(self.op_iter(cx))

    def xdict_values(self, cx):
        s = cx.src("items", self.t, 2, cx.hooks.get("itemfacts"))
        return ListV([Bulk(s, [(BT, (Sym(s.gens[1]),))])])

    def xdict_copy(self, cx):
        s = cx.src("items", self.t, 2, cx.hooks.get("itemfacts"))
        return DictV([Bulk(s, [(BT, ((Sym(s.gens[0]), Sym(s.gens[1])),))])])

    def xdict_get(self, cx, k, default=None):
        r = self.xdict_copy(cx).find(cx, k)
        return (default or K(None)) if r is None else r


def exact_of(cx, v):
    """Concrete exact class of a value if established, else None."""
    if isinstance(v, Sym):
        ex = cx.hooks.get("exact", {}).get(v.t.get_id())
        if ex:
            return ex[0]
        return None
    t = v.op_type(cx)
    return t.v if isinstance(t, K) else None


def set_exact(cx, sym, cls):
    """Fix the exact class of an opaque object on this path."""
    d = cx.hooks.setdefault("exact", {})
    cx.setkey(d, sym.t.get_id(), (cls,))
    cx.hooks.setdefault("keep", []).append(sym.t)
    cx.assume(typeof(sym.t) == cx.L.tconst(cls))


def is_strlike(cx, v, prove=False):
    if isinstance(v, SStr) or (isinstance(v, K) and isinstance(v.v, str)):
        return True
    if isinstance(v, Sym):
        if exact_of(cx, v) is str:
            return True
        f = cx.L.sub(typeof(v.t), str)
        return bool(cx.prove(f)) if prove else f
    return False


def as_str(cx, v):
    if isinstance(v, SStr):
        return v.s
    if isinstance(v, K) and isinstance(v.v, str):
        return strs.sval(v.v)
    if isinstance(v, Sym):
        return str_of(v.t)
    raise Unsupported(f"string view of {v!r}")


def as_int(cx, v):
    if isinstance(v, SInt):
        return v.i
    if isinstance(v, K) and isinstance(v.v, int):
        return z3.IntVal(int(v.v))
    if isinstance(v, SBool):
        return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Sym):
        return int_of(v.t)
    raise Unsupported(f"integer view of {v!r}")


def cx_eq(cx, a, b):
    """Python == as a formula (or bool)."""
    if a is b:
        return True
    ca, cb = a.conc(), b.conc()
    if ca is not _NOTCONC and cb is not _NOTCONC:
        try:
            return bool(ca == cb)
        except Exception as e:
            raise Unsupported(f"== raised {e!r}")
    if isinstance(a, K) and not isinstance(b, K):
        return b.op_eq(cx, a)
    return a.op_eq(cx, b)


def cx_is(cx, a, b):
    """Python `is` as a formula (or bool)."""
    if a is b:
        return True
    if isinstance(a, K) and isinstance(b, K):
        return a.v is b.v
    ha = getattr(a, "op_is", None)
    if ha is not None:
        r = ha(cx, b)
        if r is not NotImplemented:
            return r
    hb = getattr(b, "op_is", None)
    if hb is not None:
        r = hb(cx, a)
        if r is not NotImplemented:
            return r
    if isinstance(a, TypeV) or isinstance(b, TypeV):
        ta = a.t if isinstance(a, TypeV) else (cx.L.tconst(a.v) if isinstance(a, K) and isinstance(a.v, type) else None)
        tb = b.t if isinstance(b, TypeV) else (cx.L.tconst(b.v) if isinstance(b, K) and isinstance(b.v, type) else None)
        if ta is not None and tb is not None:
            return ta == tb
    ALLOC = (ListV, TupV, DictV, SetV, NewObj, InstV, FuncV, BoundV, MethV, SStr, SInt, ExcV)
    if isinstance(a, ALLOC) and isinstance(b, ALLOC):
        if isinstance(a, (SStr, SInt)) or isinstance(b, (SStr, SInt)):
            return BF if type(a) is not type(b) else a.term(cx) == b.term(cx)
        return False
    if isinstance(a, (ListV, TupV, DictV, SetV, NewObj, InstV, FuncV, BoundV, MethV)) and isinstance(b, K):
        return False
    if isinstance(b, (ListV, TupV, DictV, SetV, NewObj, InstV, FuncV, BoundV, MethV)) and isinstance(a, K):
        return False
    return a.term(cx) == b.term(cx)


# ---------------------------------------------------------------------------
class SBool(Val):
    def __init__(self, b): self.b = zb(b)
    def __repr__(self): return f"SBool({self.b})"
    def term(self, cx): return z3.If(self.b, TRUE, FALSE)
    def op_type(self, cx): return K(bool)
    def op_truth(self, cx): return self.b
    def subst(self, m): return SBool(z3.substitute(self.b, *m))

    def op_eq(self, cx, o):
        if isinstance(o, SBool): return self.b == o.b
        if isinstance(o, K) and isinstance(o.v, bool): return self.b if o.v else z3.Not(self.b)
        return self.term(cx) == o.term(cx)
    def op_is(self, cx, o):
        if isinstance(o, SBool): return self.b == o.b
        if isinstance(o, K): return (self.b if o.v is True else z3.Not(self.b) if o.v is False else False)
        return NotImplemented


def mkbool(b):
    if isinstance(b, bool):
        return K(b)
    b = z3.simplify(b)
    if z3.is_true(b): return K(True)
    if z3.is_false(b): return K(False)
    return SBool(b)


def mkint(i):
    i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
    if z3.is_int_value(i):
        return K(i.as_long())
    return SInt(i)


def mkstr(s):
    c = strs.const_of(s)
    if c is not None:
        return K(c)
    return SStr(s)


class SInt(Val):
    def __init__(self, i): self.i = i
    def __repr__(self): return f"SInt({self.i})"
    def subst(self, m): return SInt(z3.substitute(self.i, *m))
    def term(self, cx):
        f = z3.Function("mkint", smt.I, V)
        t = f(self.i)
        cx.L.bg(("mkint", t.get_id()), typeof(t) == cx.L.tconst(int), int_of(t) == self.i, alloc(t) <= 0,
                truthy(t) == (self.i != 0))
        return t
    def op_type(self, cx): return K(int)
    def op_truth(self, cx): return self.i != 0
    def op_eq(self, cx, o):
        if isinstance(o, (SInt, K, SBool)):
            if isinstance(o, K) and not isinstance(o.v, int): return False
            return self.i == as_int(cx, o)
        return o.op_eq(cx, self)
    def m___str__(self, cx): return SStr(strs.int2str(self.i))
    def op_repr(self, cx): return SStr(strs.int2str(self.i))


class SStr(Val):
    """A symbolic str (exact class str)."""
    def __init__(self, s, payload=None):
        self.s = s
        self.payload = payload
    def __repr__(self): return f"SStr({self.s})"
    def subst(self, m):
        return SStr(z3.substitute(self.s, *m), self.payload)
    def term(self, cx):
        f = z3.Function("mkstr", smt.S, V)
        t = f(self.s)
        cx.L.bg(("mkstr", t.get_id()), typeof(t) == cx.L.tconst(str), str_of(t) == self.s, alloc(t) <= 0,
                truthy(t) == (self.s != strs.EMPTY))
        return t
    def op_type(self, cx): return K(str)
    def op_truth(self, cx): return self.s != strs.EMPTY
    def op_len(self, cx): return mkint(strs.slen(self.s))
    def op_eq(self, cx, o):
        if isinstance(o, SStr): return self.s == o.s
        if isinstance(o, K): return self.s == strs.sval(o.v) if isinstance(o.v, str) else False
        if isinstance(o, Sym): return o.op_eq(cx, self)
        return False
    def op_contains(self, cx, k): return strs.contains(self.s, as_str(cx, k))
    def op_iter(self, cx):
        raise Unsupported("iteration over symbolic str")
    def op_getitem(self, cx, k):
        if isinstance(k, SliceV):
            n = strs.slen(self.s)
            def idx(v, dflt):
                if v is None or (isinstance(v, K) and v.v is None):
                    return dflt
                i = as_int(cx, v)
                if isinstance(v, K):
                    return z3.If(n < v.v, n, z3.IntVal(v.v)) if v.v >= 0 else z3.If(n + v.v < 0, z3.IntVal(0), n + v.v)
                return i
            if k.step is not None and not (isinstance(k.step, K) and k.step.v in (None, 1)):
                raise Unsupported("str slice step")
            if k.hi is None or (isinstance(k.hi, K) and k.hi.v is None):
                if isinstance(k.lo, K) and isinstance(k.lo.v, int) and k.lo.v >= 0:
                    return mkstr(strs.drop(self.s, k.lo.v))
            lo = idx(k.lo, z3.IntVal(0))
            hi = idx(k.hi, n)
            return mkstr(strs.substr(self.s, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        i = as_int(cx, k)
        if isinstance(k, K) and k.v < 0:
            i = strs.slen(self.s) + k.v
        if not cx.decide(z3.And(i >= 0, i < strs.slen(self.s))):
            raise_py(cx, IndexError, "string index")
        return mkstr(strs.substr(self.s, i, z3.IntVal(1)))

    def m_startswith(self, cx, p): return unb(str_method(cx, self, "startswith", [p]))
    def m_endswith(self, cx, p): return unb(str_method(cx, self, "endswith", [p]))
    def m___str__(self, cx): return self
    def _uf(self, cx, name, *args):
        f = z3.Function(f"str.{name}", smt.S, smt.S)
        return SStr(f(self.s))
    def m_lower(self, cx): return self._uf(cx, "lower")
    def m_upper(self, cx): return self._uf(cx, "upper")
    def m_strip(self, cx, *a): return self._uf(cx, "strip" + repr([x.conc() for x in a]))
    def m_replace(self, cx, a, b):
        return SStr(z3.Function('str.replace', smt.S, smt.S, smt.S, smt.S)(self.s, as_str(cx, a), as_str(cx, b)))
    def m_encode(self, cx, *a):
        h = cx.hooks.get("str_encode")
        if h is not None:
            return h(cx, self)
        raise Unsupported("str.encode")
    def m_split(self, cx, *a):
        h = cx.hooks.get("str_split")
        if h is not None:
            return h(cx, self, a)
        raise Unsupported("str.split")
    def m_rsplit(self, cx, *a):
        h = cx.hooks.get("str_rsplit")
        if h is not None:
            return h(cx, self, a)
        raise Unsupported("str.rsplit")
    def m_join(self, cx, it):
        if hasattr(it, "joined"):
            return it.joined(cx, self)
        segs = iter_segs(cx, it)
        if all(isinstance(s, One) for s in segs):
            parts = [as_str(cx, s.val) for s in segs]
            if not parts: return K("")
            out = parts[0]
            for p in parts[1:]:
                out = strs.cat(out, self.s, p)
            return mkstr(out)
        return SStr(cx.fresh("joined", smt.S))
    def op_repr(self, cx): return SStr(repr_of(self.term(cx)))


def unb(v):
    return v


class TypeV(Val):
    """An unknown class."""
    def __init__(self, t, spec=None):
        self.t = t
        self.spec = spec
    def __repr__(self): return f"type<{self.t}>"
    def subst(self, m):
        return TypeV(z3.substitute(self.t, *m), self.spec)
    def term(self, cx): return tval(self.t)
    def op_type(self, cx):
        if self.spec is not None and "__metaclass__" in self.spec.extra:
            return self.spec.extra["__metaclass__"]
        return K(type)
    def op_isinstance(self, cx, cls):
        return isinstance_exact(type, cls)
    def op_truth(self, cx): return True
    def op_is(self, cx, o):
        if isinstance(o, TypeV): return self.t == o.t
        if isinstance(o, K): return self.t == cx.L.tconst(o.v) if isinstance(o.v, type) else False
        if isinstance(o, (ListV, TupV, DictV, SetV, NewObj, InstV, FuncV, BoundV, MethV, SStr, SInt, SBool, ExcV)): return False
        return NotImplemented
    def op_eq(self, cx, o):
        if isinstance(o, TypeV): return self.t == o.t
        if isinstance(o, K):
            return self.t == cx.L.tconst(o.v) if isinstance(o.v, type) else False
        if isinstance(o, Sym): return o.op_eq(cx, self)
        return False
    def op_hasattr(self, cx, name):
        if self.spec is not None and name in self.spec.attrs:
            return self.spec.attrs[name] is not None
        if hasattr(object, name) or name in ("__name__", "__qualname__", "__module__", "__mro__", "mro", "__dict__"):
            return True
        f = z3.Function(f"thasattr:{name}", T, z3.BoolSort())
        for cls in smt.BASIC:
            cx.L.bg(("tha", name, self.t.get_id(), cls),
                    z3.Implies(self.t == cx.L.tconst(cls), f(self.t) == z3.BoolVal(hasattr(cls, name))))
        return f(self.t)
    def op_getattr(self, cx, name):
        if self.spec is not None and name in self.spec.attrs:
            r = self.spec.attrs[name]
            if r is None:
                raise_py(cx, AttributeError, name)
            return r(cx) if isinstance(r, types.FunctionType) else r
        if name == "__class__":
            return self.op_type(cx)
        if name == "__name__":
            return SStr(tsimple(self.t))
        if name in ("__qualname__", "__module__"):
            return SStr(z3.Function("t" + name, T, smt.S)(self.t))
        if name == "__new__":
            return MethV(self, "__new__", lambda cx, cls, *a, **k: new_object(cx, cls, a, k))
        if not cx.decide(self.op_hasattr(cx, name)):
            raise_py(cx, AttributeError, name)
        return Sym(z3.Function(f"tattr:{name}", T, V)(self.t))
    def op_call(self, cx, args, kwargs):
        if self.spec is not None and self.spec.call is not None:
            return self.spec.call(cx, args, kwargs)
        h = cx.hooks.get("typecall")
        if h is not None:
            return h(cx, self, args, kwargs)
        self._no("call of opaque class")


def new_object(cx, cls, args, kwargs):
    h = cx.hooks.get("new_object")
    if h is not None:
        return h(cx, cls, list(args), dict(kwargs))
    return NewObj(cx, cls, list(args), dict(kwargs))


# ---------------------------------------------------------------------------
def seg_subst(seg, m):
    if isinstance(seg, One):
        return One(ent_subst(seg.val, m))
    if isinstance(seg, Bulk):
        return Bulk(seg.src, [(z3.substitute(g, *m), tuple(ent_subst(e, m) for e in es)) for g, es in seg.alts], seg.locals, seg.partial)
    return seg


def ent_subst(e, m):
    if isinstance(e, tuple):
        return tuple(ent_subst(x, m) for x in e)
    if isinstance(e, (One, Bulk, Opaque, Del)):
        return seg_subst(e, m)
    if isinstance(e, Val):
        return e.subst(m)
    return e


def seg_nonempty(cx, segs):
    """Truth of a container; branches for bulk content."""
    if any(isinstance(s, One) for s in segs):
        return True
    for s in segs:
        if isinstance(s, Bulk):
            cond = zor(*[g for g, es in s.alts if es])
            if cx.exists(s.src, cond, s.locals):
                return True
        elif isinstance(s, Opaque):
            if cx.choose("opaque_nonempty"):
                return True
    return False


def seg_contains(cx, segs, key, keyfn=lambda e: e):
    for s in segs:
        if isinstance(s, One):
            if cx.decide(cx_eq(cx, keyfn(s.val), key)):
                return True
        elif isinstance(s, Bulk):
            conds = []
            for g, es in s.alts:
                for e in es:
                    if isinstance(e, (One, Bulk)):
                        raise Unsupported("nested bulk membership")
                    conds.append(zand(g, cx_eq(cx, keyfn(e), key)))
            c = zor(*conds)
            if s.src in cx.active and cx.prove(c):
                return True
            if cx.exists(s.src, c, s.locals):
                return True
        else:
            if cx.choose("opaque_contains"):
                return True
    return False


class Container(Val):
    pytype = None

    def __init__(self, segs=()):
        self.segs = tuple(segs)
        self.born = serial()

    def __repr__(self):
        return f"{self.pytype.__name__}{list(self.segs)!r}"

    def term(self, cx):
        return alloc_term(cx, self, self.pytype)

    def op_type(self, cx):
        return K(self.pytype)

    def op_truth(self, cx):
        return seg_nonempty(cx, self.segs)

    def op_iter(self, cx):
        return list(self.segs)

    def op_hasattr(self, cx, name):
        return inst_hasattr(self.pytype, name)

    def op_len(self, cx):
        return seg_len(cx, self.segs)

    def op_contains(self, cx, k):
        return seg_contains(cx, self.segs, k)

    def conc(self):
        out = []
        for s in self.segs:
            if not isinstance(s, One) or not isinstance(s.val, Val):
                return _NOTCONC
            c = s.val.conc()
            if c is _NOTCONC:
                return _NOTCONC
            out.append(c)
        if self.pytype is tuple:
            return tuple(out)
        return _NOTCONC        # mutable containers have identity: keep symbolic

    def value_conc(self):
        """Concrete content (ignoring identity), or _NOTCONC."""
        out = []
        for s in self.segs:
            if not isinstance(s, One):
                return _NOTCONC
            c = value_conc(s.val)
            if c is _NOTCONC:
                return _NOTCONC
            out.append(c)
        try:
            return self.pytype(out)
        except TypeError:
            return _NOTCONC

    def op_eq(self, cx, o):
        if self is o:
            return True
        a, b = value_conc(self), value_conc(o)
        if a is not _NOTCONC and b is not _NOTCONC:
            return a == b
        if isinstance(o, K) and not isinstance(o.v, self.pytype):
            return False
        if isinstance(o, Container) and type(o) is type(self) and all(isinstance(s, One) for s in self.segs + o.segs):
            if len(self.segs) != len(o.segs):
                return False
            return zand(*[cx_eq(cx, x.val, y.val) for x, y in zip(self.segs, o.segs)])
        return pyeq(self.term(cx), o.term(cx))

    def subst(self, m):
        new = tuple(seg_subst(s, m) for s in self.segs)
        if all(a is b for a, b in zip(new, self.segs)):
            return self
        r = type(self)(new)
        return r


def value_conc(v):
    if isinstance(v, Container):
        return v.value_conc()
    return v.conc()


def alloc_term(cx, obj, cls):
    key = id(obj)
    got = getattr(obj, "_aterm", None)
    if got is not None and got[0] is cx:
        return got[1]
    n = cx.newid()
    c = z3.Const(f"new#{n}", V)
    obj._aterm = (cx, c)
    cx.L.bg(("alloc", n), alloc(c) == n, ident(c) > 0, smt.unident(ident(c)) == c)
    # class is path specific; kept in the path condition
    if isinstance(cls, type):
        cx.pc.append(typeof(c) == cx.L.tconst(cls))
    elif isinstance(cls, TypeV):
        cx.pc.append(typeof(c) == cls.t)
    return c


def seg_len(cx, segs):
    n = 0
    parts = []
    for s in segs:
        if isinstance(s, One):
            n += 1
        elif isinstance(s, Bulk):
            key = "cnt:" + s.src.key + repr([(g.sexpr(), len(es)) for g, es in s.alts])
            c = z3.Int(key)
            cx.L.bg(("cnt", key), c >= 0)
            parts.append(c)
            if len(s.alts) == 1 and z3.is_true(s.alts[0][0]) and len(s.alts[0][1]) == 1 and not s.partial:
                lf = z3.Function("len", V, z3.IntSort())
                if s.src.owner is not None:
                    cx.L.bg(("cntlen", key), c == lf(s.src.owner))
        elif isinstance(s, Opaque) and s.info is not None and s.info[0] == "prior" and not parts and not n and any(a is s.info[1] for a in cx.active):
            # one entry per earlier iteration; bulk_loop checks that it is so
            src = s.info[1]
            src.counted.add(id(s.info[2]))
            parts.append(idx_fn(src)(*src.gens))
        elif isinstance(s, Opaque):
            c = z3.Int(f"cntop:{s.name}")
            cx.L.bg(("cntop", s.name), c >= 0)
            parts.append(c)
        elif isinstance(s, Del):
            raise Unsupported("len after delete")
    if not parts:
        return K(n)
    return mkint(z3.Sum(*parts, z3.IntVal(n)))


class TupV(Container):
    pytype = tuple

    def op_getitem(self, cx, k):
        return seq_getitem(cx, self, k)

    def m_index(self, cx, *a): raise Unsupported("tuple.index")


class ListV(Container):
    pytype = list

    def op_getitem(self, cx, k):
        return seq_getitem(cx, self, k)

    def op_setitem(self, cx, k, v):
        c = k.conc()
        segs = list(self.segs)
        if c is not _NOTCONC and isinstance(c, int) and all(isinstance(s, One) for s in segs):
            if not -len(segs) <= c < len(segs):
                raise_py(cx, IndexError, "assignment")
            segs[c] = One(v)
            cx.set(self, "segs", tuple(segs))
            return
        if isinstance(k, SInt):
            # index of the generic element of one of our bulk segments
            for j, s in enumerate(segs):
                if isinstance(s, Bulk) and len(s.src.gens) >= 1:
                    f = idx_fn(s.src)
                    if k.i.eq(f(*s.src.gens)) and all(len(es) <= 1 for _, es in s.alts):
                        segs[j] = Bulk(s.src, [(g, (v,) if es else ()) for g, es in s.alts], s.locals)
                        cx.set(self, "segs", tuple(segs))
                        return
            pos = find_pos(cx, segs, k.i)
            if pos is not None:
                segs[pos] = One(v)
                cx.set(self, "segs", tuple(segs))
                return
        self._no("list setitem")

    def op_delitem(self, cx, k):
        c = k.conc()
        segs = list(self.segs)
        if c is not _NOTCONC and all(isinstance(s, One) for s in segs):
            del segs[c]
            cx.set(self, "segs", tuple(segs))
            return
        self._no("list delitem")

    def m_append(self, cx, v):
        cx.set(self, "segs", self.segs + (One(v),))
        return K(None)

    def m_extend(self, cx, it):
        segs = iter_segs(cx, it)
        cx.set(self, "segs", self.segs + tuple(segs))
        return K(None)

    def m_insert(self, cx, i, v):
        c = i.conc()
        if c == 0:
            cx.set(self, "segs", (One(v),) + self.segs)
            return K(None)
        if c is not _NOTCONC and all(isinstance(s, One) for s in self.segs):
            l = list(self.segs)
            l.insert(c, One(v))
            cx.set(self, "segs", tuple(l))
            return K(None)
        self._no("insert")

    def m_pop(self, cx, i=None):
        c = -1 if i is None else i.conc()
        segs = list(self.segs)
        if c == -1 and segs and isinstance(segs[-1], One):
            r = segs.pop()
            cx.set(self, "segs", tuple(segs))
            return r.val
        if c == 0 and segs and isinstance(segs[0], One):
            r = segs.pop(0)
            cx.set(self, "segs", tuple(segs))
            return r.val
        if not segs:
            raise_py(cx, IndexError, "pop from empty list")
        if c is not _NOTCONC and all(isinstance(s, One) for s in segs):
            r = segs.pop(c)
            cx.set(self, "segs", tuple(segs))
            return r.val
        self._no("pop")

    def m_remove(self, cx, v):
        segs = list(self.segs)
        for j, s in enumerate(segs):
            if isinstance(s, One):
                if cx.decide(cx_eq(cx, s.val, v)):
                    cx.set(self, "segs", tuple(segs[:j] + segs[j + 1:]))
                    return K(None)
            else:
                h = getattr(s, "seg_remove", None)
                if h is None:
                    self._no("remove with bulk")
                new = h(cx, v)
                if new is not None:
                    cx.set(self, "segs", tuple(segs[:j]) + tuple(new) + tuple(segs[j + 1:]))
                    return K(None)
        raise_py(cx, ValueError, "not in list")

    def m_index(self, cx, v, *a):
        for j, s in enumerate(self.segs):
            if not isinstance(s, One):
                self._no("index with bulk")
            if cx.decide(cx_eq(cx, s.val, v)):
                return K(j)
        raise_py(cx, ValueError, "not in list")

    def m_clear(self, cx):
        cx.set(self, "segs", ())
        return K(None)

    def m_copy(self, cx):
        return ListV(self.segs)

    def m_reverse(self, cx):
        if all(isinstance(s, One) for s in self.segs):
            cx.set(self, "segs", tuple(reversed(self.segs)))
            return K(None)
        self._no("reverse")


def idx_fn(src):
    return z3.Function(f"idx:{src.key}", *([V] * len(src.gens)), z3.IntSort())


def find_pos(cx, segs, i):
    """Position of the One segment whose symbolic index equals i."""
    for j, s in enumerate(segs):
        if isinstance(s, One):
            n = seg_len(cx, segs[:j])
            ni = as_int(cx, n)
            if z3.simplify(ni - i).eq(z3.IntVal(0)):
                return j
    for j, s in enumerate(segs):
        if isinstance(s, One):
            ni = as_int(cx, seg_len(cx, segs[:j]))
            if cx.prove(ni == i):
                return j
    return None


def seq_getitem(cx, self, k):
    segs = self.segs
    if isinstance(k, SliceV):
        lo = k.lo.conc() if k.lo is not None else None
        hi = k.hi.conc() if k.hi is not None else None
        st = k.step.conc() if k.step is not None else None
        if lo is _NOTCONC and hi is None and st in (None, 1):
            # from a segment boundary on
            i = as_int(cx, k.lo)
            for j in range(len(segs) + 1):
                if cx.prove(as_int(cx, seg_len(cx, segs[:j])) == i):
                    return type(self)(segs[j:])
        if lo is _NOTCONC or hi is _NOTCONC or st is _NOTCONC:
            raise Unsupported("symbolic slice")
        if all(isinstance(s, One) for s in segs):
            return type(self)(segs[slice(lo, hi, st)])
        if st in (None, 1) and (lo or 0) >= 0 and hi is None:
            n = lo or 0
            if all(isinstance(s, One) for s in segs[:n]) and len(segs) > n:
                return type(self)(segs[n:])
            return type(self)((Opaque(f"slice{cx.newid()}", (self, lo, hi)),)) if n else type(self)(segs)
        if st in (None, 1) and lo in (None, 0) and hi is not None and hi >= 0:
            if all(isinstance(s, One) for s in segs[:hi]) and len(segs) >= hi:
                return type(self)(segs[:hi])
        if st in (None, 1) and lo in (None, 0) and hi is not None and hi < 0:
            if all(isinstance(s, One) for s in segs[hi:]):
                return type(self)(segs[:hi])
        raise Unsupported("slice over bulk")
    c = k.conc()
    if c is not _NOTCONC:
        if not isinstance(c, int):
            raise_py(cx, TypeError, "index type")
        if c >= 0:
            pre = segs[: c + 1]
            if len(pre) == c + 1 and all(isinstance(s, One) for s in pre):
                return pre[c].val
        else:
            post = segs[c:]
            if len(post) == -c and all(isinstance(s, One) for s in post):
                return post[0].val
        if all(isinstance(s, One) for s in segs):
            raise_py(cx, IndexError, "index out of range")
        raise Unsupported("index into bulk")
    if isinstance(k, (SInt, Sym)):
        h = cx.hooks.get("list_getitem")
        if h is not None:
            r = h(cx, self, k)
            if r is not None:
                return r
        i = as_int(cx, k)
        for s in segs:
            if isinstance(s, Bulk) and i.eq(idx_fn(s.src)(*s.src.gens)) and all(len(es) == 1 for _, es in s.alts):
                for g, es in s.alts:
                    if cx.decide(g):
                        return es[0]
        pos = find_pos(cx, segs, i)
        if pos is not None:
            return segs[pos].val
    raise Unsupported(f"symbolic index {k!r}")


class SetV(Container):
    pytype = set

    def m_add(self, cx, v):
        if not seg_contains_definitely(cx, self.segs, v):
            cx.set(self, "segs", self.segs + (One(v),))
        return K(None)

    def m_update(self, cx, *its):
        for it in its:
            cx.set(self, "segs", self.segs + tuple(iter_segs(cx, it)))
        return K(None)

    def m_discard(self, cx, v):
        self._no("discard")

    def m_copy(self, cx):
        return SetV(self.segs)

    def m_issubset(self, cx, o):
        return mkbool(subset(cx, self, o))

    def m_issuperset(self, cx, o):
        return mkbool(subset(cx, o, self))


def seg_contains_definitely(cx, segs, v):
    for s in segs:
        if isinstance(s, One):
            e = cx_eq(cx, s.val, v)
            if e is True or (not isinstance(e, bool) and cx.prove(e)):
                return True
    return False


def absent(cx, segs, key):
    """key is provably in none of the segments."""
    for s in segs:
        if isinstance(s, One):
            e = cx_eq(cx, s.val, key)
            if e is True or (not isinstance(e, bool) and cx.prove(z3.Not(e)) is not True):
                return False
        elif isinstance(s, Bulk):
            for g, es in s.alts:
                for x in es:
                    e = cx_eq(cx, x, key)
                    if e is not False and cx.feasible(*cx.src_facts(s.src), zand(g, zb(e))):
                        return False
        else:
            return False
    return True


def subset(cx, a, b):
    """a <= b for sets; branches."""
    if isinstance(a, K) and isinstance(b, SetV) and any(isinstance(s, Bulk) for s in b.segs):
        for c in a.v:
            if absent(cx, b.segs, K(c)):
                return False
        return cx.choose("superset")      # unknown: both outcomes explored
    for s in iter_segs(cx, a):
        if not isinstance(s, One):
            raise Unsupported("subset of bulk")
        c = b.op_contains(cx, s.val)
        if not cx.decide(zb(c)):
            return False
    return True


class DictV(Container):
    pytype = dict

    def op_iter(self, cx):
        return [map_seg(s, lambda e: e[0]) for s in norm_dict(cx, self.segs)]

    def conc(self):
        return _NOTCONC

    def value_conc(self):
        out = {}
        for s in self.segs:
            if isinstance(s, Del):
                c = value_conc(s.key)
                if c is _NOTCONC: return c
                out.pop(c, None)
                continue
            if not isinstance(s, One):
                return _NOTCONC
            k, v = value_conc(s.val[0]), value_conc(s.val[1])
            if k is _NOTCONC or v is _NOTCONC:
                return _NOTCONC
            out[k] = v
        return out

    def op_truth(self, cx):
        return seg_nonempty(cx, norm_dict(cx, self.segs))

    def op_len(self, cx):
        return seg_len(cx, norm_dict(cx, self.segs))

    def op_eq(self, cx, o):
        if self is o: return True
        a, b = value_conc(self), value_conc(o)
        if a is not _NOTCONC and b is not _NOTCONC:
            return a == b
        return pyeq(self.term(cx), o.term(cx))

    def find(self, cx, key):
        """Value for key or None (branches as needed)."""
        for s in reversed(self.segs):
            if isinstance(s, One):
                if cx.decide(zb(cx_eq(cx, s.val[0], key))):
                    return s.val[1]
            elif isinstance(s, Del):
                if cx.decide(zb(cx_eq(cx, s.key, key))):
                    return None
            elif isinstance(s, Bulk):
                conds = [(g, e, zand(g, cx_eq(cx, e[0], key))) for g, es in s.alts for e in es]
                c = zor(*[x[2] for x in conds])
                if z3.is_false(c):
                    continue
                if s.src in cx.active and cx.prove(c):
                    for g, e, cc in conds:
                        if cx.decide(cc):
                            return e[1]
                m = cx.exists(s.src, c, s.locals)
                if m:
                    for g, e, cc in conds:
                        if cx.decide(z3.substitute(cc, *m)):
                            return ent_subst(e[1], m)
                    raise Infeasible()
            else:
                h = getattr(s, "find", None)
                if h is None:
                    raise Unsupported(f"lookup through {s!r}")
                r = h(cx, key)
                if r is not None:
                    return r
        return None

    def op_getitem(self, cx, k):
        check_hashable(cx, k)
        r = self.find(cx, k)
        if r is None:
            raise PyExc(ExcV(KeyError, [k]))
        return r

    def op_setitem(self, cx, k, v):
        check_hashable(cx, k)
        segs = list(self.segs)
        # overwrite in place when it is provably the same key
        for j in range(len(segs) - 1, -1, -1):
            s = segs[j]
            if isinstance(s, One):
                e = cx_eq(cx, s.val[0], k)
                if e is True or (not isinstance(e, bool) and not z3.is_false(z3.simplify(e)) and cx.prove(e)):
                    segs[j] = One((s.val[0], v))
                    cx.set(self, "segs", tuple(segs))
                    return
            else:
                break
        cx.set(self, "segs", self.segs + (One((k, v)),))

    def op_delitem(self, cx, k):
        r = self.find(cx, k)
        if r is None:
            raise PyExc(ExcV(KeyError, [k]))
        self._remove(cx, k)

    def _remove(self, cx, k):
        segs = list(self.segs)
        hits = [j for j, s in enumerate(segs) if isinstance(s, One) and
                (lambda e: e is True or (not isinstance(e, bool) and cx.prove(e)))(cx_eq(cx, s.val[0], k))]
        if all(isinstance(s, One) for s in segs):
            cx.set(self, "segs", tuple(s for j, s in enumerate(segs) if j not in hits))
        else:
            cx.set(self, "segs", tuple(s for j, s in enumerate(segs) if j not in hits) + (Del(k),))

    def op_contains(self, cx, k):
        check_hashable(cx, k)
        return self.find(cx, k) is not None

    def m_get(self, cx, k, default=None):
        r = self.find(cx, k)
        return (K(None) if default is None else default) if r is None else r

    def m_pop(self, cx, k, *default):
        r = self.find(cx, k)
        if r is None:
            if default:
                return default[0]
            raise PyExc(ExcV(KeyError, [k]))
        self._remove(cx, k)
        return r

    def m_setdefault(self, cx, k, default=None):
        r = self.find(cx, k)
        if r is not None:
            return r
        v = K(None) if default is None else default
        self.op_setitem(cx, k, v)
        return v

    def m_items(self, cx):
        return ListV([map_seg(s, lambda e: TupV([One(e[0]), One(e[1])])) for s in norm_dict(cx, self.segs)])

    def m_keys(self, cx):
        return ListV(self.op_iter(cx))

    def m_values(self, cx):
        return ListV([map_seg(s, lambda e: e[1]) for s in norm_dict(cx, self.segs)])

    def m_copy(self, cx):
        return DictV(self.segs)

    def m_clear(self, cx):
        cx.set(self, "segs", ())
        return K(None)

    def m_update(self, cx, other=None, **kw):
        if other is not None:
            for s in as_pairs(cx, other):
                if isinstance(s, One):
                    self.op_setitem(cx, s.val[0], s.val[1])
                else:
                    cx.set(self, "segs", self.segs + (s,))
        for k, v in kw.items():
            self.op_setitem(cx, K(k), v)
        return K(None)


def as_pairs(cx, other):
    """Segments of (key, value) pairs of a mapping or iterable of pairs."""
    if isinstance(other, DictV):
        return norm_dict(cx, other.segs)
    if isinstance(other, K) and isinstance(other.v, dict):
        return [One((K(k), K(v))) for k, v in other.v.items()]
    if isinstance(other, Sym) and exact_of(cx, other) is dict:
        return list(other.xdict_copy(cx).segs)
    h = getattr(other, "op_pairs", None)
    if h is not None:
        return h(cx)
    out = []
    for s in iter_segs(cx, other):
        def conv(e):
            if isinstance(e, TupV) and len(e.segs) == 2:
                return (e.segs[0].val, e.segs[1].val)
            if isinstance(e, ListV) and len(e.segs) == 2:
                return (e.segs[0].val, e.segs[1].val)
            raise Unsupported(f"pair {e!r}")
        out.append(map_seg(s, conv))
    return out


def check_hashable(cx, k):
    if isinstance(k, (ListV, DictV, SetV)):
        raise_py(cx, TypeError, "unhashable type")


def map_seg(s, f):
    if isinstance(s, One):
        return One(f(s.val))
    if isinstance(s, Bulk):
        return Bulk(s.src, [(g, tuple(f(e) for e in es)) for g, es in s.alts], s.locals, s.partial)
    return s


def norm_dict(cx, segs):
    """Dict content without overwritten or deleted entries (later wins, first
    position kept) as far as it is decidable; used for iteration."""
    out = []
    for s in segs:
        if isinstance(s, Del):
            new = []
            for o in out:
                if isinstance(o, One):
                    if cx.decide(zb(cx_eq(cx, o.val[0], s.key))):
                        continue
                    new.append(o)
                elif isinstance(o, Bulk):
                    alts = []
                    for g, es in o.alts:
                        if not es:
                            alts.append((g, es))
                            continue
                        if len(es) != 1:
                            raise Unsupported("delete in multi bulk")
                        e = zb(cx_eq(cx, es[0][0], s.key))
                        alts.append((zand(g, z3.Not(e)), es))
                    new.append(Bulk(o.src, alts, o.locals, o.partial))
                else:
                    new.append(o)
            out = new
            continue
        if isinstance(s, One):
            hit = False
            for j, o in enumerate(out):
                if isinstance(o, One):
                    e = cx_eq(cx, o.val[0], s.val[0])
                    if e is True or (not isinstance(e, bool) and not z3.is_false(z3.simplify(e)) and cx.decide(e)):
                        out[j] = One((o.val[0], s.val[1]))
                        hit = True
                        break
                elif isinstance(o, Bulk):
                    out[j] = without_key(cx, o, s.val[0])
            if not hit:
                out.append(s)
            continue
        if isinstance(s, Bulk):
            merged = None
            for j in range(len(out) - 1, -1, -1):
                if not (isinstance(out[j], Bulk) and out[j].src is s.src):
                    break
                merged = merge_bulk(cx, out[j], s)
                if merged is not None:
                    out[j] = merged
                    break
                if not bulks_disjoint(cx, out[j], s):
                    break
            if merged is not None:
                continue
        out.append(s)
    return out


def without_key(cx, o, key):
    """The bulk entries whose key is not the given one (it is rewritten later;
    the position it keeps in the real dict is not modelled)."""
    alts, changed = [], False
    for g, es in o.alts:
        if len(es) == 1 and not isinstance(es[0], (One, Bulk)):
            e = zb(cx_eq(cx, es[0][0], key))
            if not z3.is_false(z3.simplify(e)) and cx.feasible(*cx.src_facts(o.src), zand(g, e)):
                changed = True
                alts += [(zand(g, z3.Not(e)), es), (zand(g, e), ())]
                continue
        alts.append((g, es))
    return Bulk(o.src, alts, o.locals, o.partial) if changed else o


def bulks_disjoint(cx, a, b):
    """No element is written by both."""
    fs = cx.src_facts(a.src)
    for ga, ea in a.alts:
        for gb, eb in b.alts:
            if ea and eb and cx.feasible(*fs, zand(ga, gb)):
                return False
    return True


def merge_bulk(cx, a, b):
    """Bulk write b after bulk write a over the same source: if wherever b
    writes it rewrites the key a wrote, fold it into a."""
    alts = []
    for ga, ea in a.alts:
        for gb, eb in b.alts:
            g = zand(ga, gb)
            if z3.is_false(g):
                continue
            fs = cx.src_facts(a.src)
            if not cx.feasible(*fs, g):
                continue
            if not eb:
                alts.append((g, ea))
            elif len(ea) == 1 and len(eb) == 1:
                e = zb(cx_eq(cx, ea[0][0], eb[0][0]))
                if cx.L.check(cx.pc + fs + [g], z3.Not(e)) != z3.unsat:
                    return None
                alts.append((g, ((ea[0][0], eb[0][1]),)))
            else:
                return None
    # elements covered by a but by no alternative of b
    gb_any = zor(*[g for g, _ in b.alts])
    for ga, ea in a.alts:
        g = zand(ga, z3.Not(gb_any))
        if ea and not z3.is_false(g) and cx.feasible(*cx.src_facts(a.src), g):
            alts.append((g, ea))
    return Bulk(a.src, alts, a.locals + b.locals, a.partial or b.partial)


# ---------------------------------------------------------------------------
class Havoc(Val):
    """A value about which nothing is known (loop-carried temporaries)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return f"havoc:{self.name}"
    def op_truth(self, cx): self._no("truth")
    def op_iter(self, cx): self._no("iter")
    def op_getattr(self, cx, name): self._no("getattr")
    def op_hasattr(self, cx, name): self._no("hasattr")
    def op_isinstance(self, cx, cls): self._no("isinstance")


class SliceV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
    def conc(self):
        cs = [None if x is None else x.conc() for x in (self.lo, self.hi, self.step)]
        if any(c is _NOTCONC for c in cs):
            return _NOTCONC
        return slice(*cs)


class MethV(Val):
    """A modelled bound method."""
    def __init__(self, owner, name, fn):
        self.owner, self.name, self.fn = owner, name, fn
    def __repr__(self): return f"<method {self.name}>"
    def term(self, cx): return alloc_term(cx, self, types.BuiltinMethodType)
    def op_type(self, cx): return K(types.BuiltinMethodType)
    def op_call(self, cx, args, kwargs):
        return self.fn(cx, *args, **kwargs)


class ModelFn(Val):
    """A function given by contract only."""
    def __init__(self, name, fn, pytype=types.FunctionType):
        self.name, self.fn, self.pytype = name, fn, pytype
    def __repr__(self): return f"<model {self.name}>"
    def term(self, cx):
        c = z3.Const(f"fn:{self.name}", V)
        cx.L.bg(("fn", self.name), alloc(c) == 0, truthy(c))
        return c
    def op_type(self, cx): return K(self.pytype)
    def op_is(self, cx, o):
        return False if isinstance(o, (K, ModelFn)) else NotImplemented
    def op_call(self, cx, args, kwargs):
        return self.fn(cx, args, kwargs)
    def op_hasattr(self, cx, name): return name in ("__name__", "__module__", "__call__", "__qualname__")
    def op_getattr(self, cx, name):
        if name in ("__name__", "__qualname__"): return K(self.name)
        if name == "__module__": return K("user")
        if name == "__class__": return K(self.pytype)
        raise_py(cx, AttributeError, name)


class FuncV(Val):
    """A function or lambda created by the analysed code."""
    def __init__(self, node, env, name, defaults, kwdefaults, selfcls=None):
        self.node, self.env, self.name = node, env, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.selfcls = selfcls
    def __repr__(self): return f"<func {self.name}>"
    def term(self, cx): return alloc_term(cx, self, types.FunctionType)
    def op_type(self, cx): return K(types.FunctionType)
    def op_call(self, cx, args, kwargs):
        from . import interp
        return interp.call_funcv(cx, self, args, kwargs)
    def op_hasattr(self, cx, name): return hasattr(types.FunctionType, name)
    def op_getattr(self, cx, name):
        if name == "__name__": return K(self.name)
        return Val.op_getattr(self, cx, name)


class BoundV(Val):
    """A bound method of a repository class."""
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_
    def __repr__(self): return f"<bound {self.func!r}>"
    def term(self, cx): return alloc_term(cx, self, types.MethodType)
    def op_type(self, cx): return K(types.MethodType)
    def op_call(self, cx, args, kwargs):
        return self.func.op_call(cx, [self.self_] + list(args), kwargs)
    def op_is(self, cx, o):
        if isinstance(o, BoundV): return False
        if isinstance(o, K): return False
        return NotImplemented
    def op_eq(self, cx, o):
        return isinstance(o, BoundV) and isinstance(o.func, K) and isinstance(self.func, K) and o.func.v is self.func.v and o.self_ is self.self_
    def op_hasattr(self, cx, name): return hasattr(types.MethodType, name)


class GenV(Val):
    """A generator (function or expression) not yet iterated."""
    def __init__(self, thunk):
        self.thunk = thunk
        self.cache = None
    def term(self, cx): return alloc_term(cx, self, types.GeneratorType)
    def op_type(self, cx): return K(types.GeneratorType)
    def op_iter(self, cx):
        r = self.thunk(cx)
        return list(r.segs)


class IterV(Val):
    """iter(x): an iterator with a position."""
    def __init__(self, segs):
        self.segs = tuple(segs)
        self.born = serial()
    def __repr__(self): return f"iter{list(self.segs)}"
    def term(self, cx): return alloc_term(cx, self, type(iter([])))
    def op_type(self, cx): return K(type(iter([])))
    def op_iter(self, cx):
        r = list(self.segs)
        cx.set(self, "segs", ())
        return r
    def op_next(self, cx):
        if not self.segs:
            raise_py(cx, StopIteration)
        s = self.segs[0]
        if not isinstance(s, One):
            raise Unsupported("next() on bulk")
        cx.set(self, "segs", self.segs[1:])
        return s.val


class ExcV(Val):
    """An exception instance; cls is a real class or a class term."""
    def __init__(self, cls, args=(), tag=None):
        self.cls = cls
        self.args = list(args)
        self.tag = tag
    def __repr__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else self.cls
        return f"{n}({', '.join(map(repr, self.args))})"
    def term(self, cx): return alloc_term(cx, self, self.cls)
    def op_type(self, cx):
        return K(self.cls) if isinstance(self.cls, type) else TypeV(self.cls.t)
    def op_getattr(self, cx, name):
        if name == "args": return TupV([One(a) for a in self.args])
        if name == "__class__": return self.op_type(cx)
        raise Unsupported(f"exception attribute {name}")
    def op_hasattr(self, cx, name): return name in ("args", "__class__")
    def matches(self, cx, cls):
        if isinstance(self.cls, type):
            return issubclass(self.cls, cls)
        return cx.L.sub(self.cls.t, cls)


class InstV(Val):
    """An instance of a repository class, run by its real methods."""
    def __init__(self, cls):
        self.cls = cls
        self.fields = Heap()
        self.born = serial()
    def __repr__(self): return f"<{self.cls.__name__}>"
    def term(self, cx): return alloc_term(cx, self, self.cls)
    def op_type(self, cx): return K(self.cls)
    def op_truth(self, cx): return True
    def op_hasattr(self, cx, name):
        return name in self.fields or hasattr(self.cls, name)
    def op_getattr(self, cx, name):
        if name in self.fields:
            return self.fields[name]
        if name == "__class__":
            return K(self.cls)
        if name == "__dict__":
            return DictV([One((K(k), v)) for k, v in self.fields.items()])
        return class_attr(cx, self.cls, self, name)
    def op_setattr(self, cx, name, v):
        cx.setkey(self.fields, name, v)
    def op_delattr(self, cx, name):
        if name not in self.fields:
            raise_py(cx, AttributeError, name)
        cx.delkey(self.fields, name)
    def op_call(self, cx, args, kwargs):
        return class_attr(cx, self.cls, self, "__call__").op_call(cx, args, kwargs)
    def op_eq(self, cx, o):
        return self is o


def class_attr(cx, cls, inst, name, after=None):
    mro = list(cls.__mro__)
    if after is not None:
        mro = mro[mro.index(after) + 1:]
    for c in mro:
        if name in vars(c):
            raw = vars(c)[name]
            if isinstance(raw, types.FunctionType):
                return BoundV(K(raw), inst)
            if isinstance(raw, staticmethod):
                return K(raw.__func__)
            if isinstance(raw, classmethod):
                return BoundV(K(raw.__func__), K(cls))
            if isinstance(raw, property):
                return K(raw.fget).op_call(cx, [inst], {})
            if name == "__init__" and c is object:
                return MethV(inst, "__init__", lambda cx, *a, **k: K(None))
            return K(raw)
    raise_py(cx, AttributeError, name)


class SuperV(Val):
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst
    def op_getattr(self, cx, name):
        ic = self.inst.cls if isinstance(self.inst, InstV) else type(self.inst.v)
        return class_attr(cx, ic, self.inst, name, after=self.cls)
    def op_type(self, cx): return K(super)


class NewObj(Val):
    """An instance of a user class built by the decoder: records what was done
    to it (constructor arguments, attribute and item writes, method calls)."""
    def __init__(self, cx, cls, args, kwargs, how="__new__"):
        self.cls, self.args, self.kwargs, self.how = cls, args, kwargs, how
        self.born = serial()
        self.attrs = DictV()
        self.items = DictV()
        self.seq = ListV()
        self.calls = ()
        self.spec = getattr(cls, "spec", None) and cls.spec.extra.get("instance")
    def __repr__(self):
        return f"New<{self.cls!r}>({self.args}){self.attrs!r}{self.items!r}{self.seq!r}{self.calls!r}"
    def term(self, cx): return alloc_term(cx, self, self.cls if isinstance(self.cls, TypeV) else self.cls.v)
    def op_type(self, cx): return self.cls
    def op_truth(self, cx):
        h = cx.hooks.get("newobj_truth")
        return h(cx, self) if h else True
    def op_isinstance(self, cx, cls):
        if isinstance(self.cls, K):
            return issubclass(self.cls.v, cls)
        return cx.L.sub(self.cls.t, cls)
    def log(self, cx, *entry):
        cx.set(self, "calls", self.calls + (One(tuple(entry)),))
    def op_hasattr(self, cx, name):
        sp = self.spec
        if sp is not None and name in sp.extra.get("has", ()):
            return sp.extra["has"][name](cx, self)
        if sp is not None and name in sp.attrs:
            return sp.attrs[name] is not None
        if name == "__class__":
            return True
        h = cx.hooks.get("newobj_hasattr")
        if h is not None:
            r = h(cx, self, name)
            if r is not None:
                return r
        if isinstance(self.cls, K):
            return hasattr(self.cls.v, name)
        return self.cls.op_hasattr(cx, name)
    def op_getattr(self, cx, name):
        if name == "__class__":
            return self.cls
        sp = self.spec
        if sp is not None and name in sp.attrs:
            r = sp.attrs[name]
            if r is None or not self.op_hasattr(cx, name):
                raise_py(cx, AttributeError, name)
            return r(cx, self) if isinstance(r, types.FunctionType) else r
        r = self.attrs.find(cx, K(name))
        if r is not None:
            return r
        if not cx.decide(zb(self.op_hasattr(cx, name))):
            raise_py(cx, AttributeError, name)
        raise Unsupported(f"attribute {name} of new object")
    def op_setattr(self, cx, name, v):
        sp = self.spec
        if sp is not None and "__setattr__" in sp.attrs:
            r = sp.attrs["__setattr__"](cx, self, name, v)
            if r is not None:
                return
        self.log(cx, "setattr", K(name) if isinstance(name, str) else name, v)
        self.attrs.op_setitem(cx, K(name) if isinstance(name, str) else name, v)
    def op_setitem(self, cx, k, v):
        sp = self.spec
        if sp is not None and "setitem" in sp.extra:
            return sp.extra["setitem"](cx, self, k, v)
        self.log(cx, "setitem", k, v)
        self.items.op_setitem(cx, k, v)
    def op_eq(self, cx, o):
        return True if o is self else pyeq(self.term(cx), o.term(cx))
    def op_len(self, cx):
        if self.op_isinstance(cx, list) is True or cx.prove(zb(self.op_isinstance(cx, list))):
            return self.seq.op_len(cx)
        self._no("len")
    def op_iter(self, cx): self._no("iter")
    def op_call(self, cx, args, kwargs):
        f = getattr(self.cls.v, "__call__", None) if isinstance(self.cls, K) else None
        from . import interp
        if f is not None and interp.is_repo_function(f):
            return interp.call_repo(cx, f, [self] + list(args), dict(kwargs))
        self._no("call")


def iter_segs(cx, v):
    return v.op_iter(cx)
