"""Contracts of the builtins and standard library functions the analysed code
calls.  Each is an assumption on CPython, listed in the evidence."""
import base64
import builtins
import collections
import collections.abc
import copy
import datetime
import decimal
import inspect
import io
import itertools
import operator
import re
import sys
import types
import warnings
import z3
from . import smt, strs
from .core import Unsupported, Infeasible, PyExc, One, Del, Bulk, Opaque
from .values import *
from .values import _NOTCONC
from . import values as V_
from . import interp

TABLE = {}
PURE = {str, int, float, bool, bytes, len, repr, sorted, min, max, sum, abs, ord, chr, hash, tuple, list, set, dict, frozenset,
        range, re.compile, operator.itemgetter, bytearray, complex, hasattr, callable, any, all, issubclass, isinstance,
        base64.b64encode, base64.b64decode, base64.b85encode, base64.b85decode, inspect.getmro, vars, dir, zip, enumerate, reversed}


def model(*fs):
    def deco(fn):
        for f in fs:
            TABLE[id(f)] = (f, fn)
        return fn
    return deco


def lookup(cx, f):
    ov = cx.hooks.get("models")
    if ov is not None:
        m = ov.get(id(f))
        if m is not None:
            return m
    got = TABLE.get(id(f))
    if got is not None:
        return got[1]
    # bound builtin methods of concrete receivers, and constructors via __new__
    if isinstance(f, types.BuiltinMethodType) and getattr(f, "__self__", None) is not None:
        recv = f.__self__
        if f.__name__ == "__new__" and isinstance(recv, type):
            return lambda cx, a, k: V_.new_object(cx, a[0], a[1:], k)
        if isinstance(recv, (str, bytes, int, float, tuple)) and not isinstance(recv, types.ModuleType):
            def run(cx, a, k):
                cs = [V_.value_conc(x) for x in a]
                if any(c is _NOTCONC for c in cs):
                    return NotImplemented
                try:
                    return lift_result(getattr(recv, f.__name__)(*cs, **{q: V_.value_conc(w) for q, w in k.items()}))
                except Exception as e:
                    raise PyExc(ExcV(type(e), [K(x) for x in e.args]))
            return run
    return None


def pure(f):
    try:
        return f in PURE
    except TypeError:
        return False


def lift_result(r):
    if isinstance(r, list):
        return ListV([One(K(x)) for x in r])
    if type(r) is dict:
        return DictV([One((K(k), K(v))) for k, v in r.items()])
    if type(r) is set:
        return SetV([One(K(x)) for x in sorted(r, key=repr)])
    if isinstance(r, (zip, enumerate, reversed, map, filter)):
        return ListV([One(lift_result(x) if isinstance(x, tuple) else K(x)) for x in r])
    return K(r)


def types_in(cx, t):
    """Flatten the second argument of isinstance/issubclass to classes."""
    if isinstance(t, K):
        return list(t.v) if isinstance(t.v, tuple) else [t.v]
    if isinstance(t, TupV):
        out = []
        for s in t.segs:
            out.extend(types_in(cx, s.val))
        return out
    if isinstance(t, TypeV):
        return [t]
    raise Unsupported(f"class argument {t!r}")


@model(isinstance)
def m_isinstance(cx, a, k):
    obj, t = a
    conds = []
    for c in types_in(cx, t):
        if isinstance(c, TypeV):
            h = getattr(obj, "op_isinstance_sym", None)
            if h is not None:
                conds.append(h(cx, c))
                continue
            ty = obj.op_type(cx)
            conds.append(sub_sym(cx, ty, c))
        else:
            conds.append(obj.op_isinstance(cx, c))
    if any(c is True for c in conds):
        return K(True)
    return mkbool(zor(*conds))


def sub_sym(cx, ty, c):
    """ty is a subclass of the unknown class c."""
    if isinstance(ty, TypeV):
        if ty.t.eq(c.t):
            return True
        f = z3.Function("subcls", smt.T, smt.T, z3.BoolSort())
        cx.L.bg(("subrefl", ty.t.get_id(), c.t.get_id()), z3.Implies(ty.t == c.t, f(ty.t, c.t)))
        return f(ty.t, c.t)
    f = z3.Function("subcls", smt.T, smt.T, z3.BoolSort())
    tt = cx.L.tconst(ty.v)
    cx.L.bg(("subrefl", tt.get_id(), c.t.get_id()), z3.Implies(tt == c.t, f(tt, c.t)))
    return f(tt, c.t)


@model(issubclass)
def m_issubclass(cx, a, k):
    t, c = a
    conds = []
    for cls in types_in(cx, c):
        if isinstance(cls, TypeV):
            conds.append(sub_sym(cx, t, cls))
        elif isinstance(t, K):
            conds.append(issubclass(t.v, cls))
        elif isinstance(t, TypeV):
            conds.append(cx.L.sub(t.t, cls))
        elif isinstance(t, Sym):
            raise Unsupported("issubclass of opaque object")
        else:
            raise_py(cx, TypeError, "issubclass() arg 1 must be a class")
    if any(x is True for x in conds):
        return K(True)
    return mkbool(zor(*conds))


@model(type)
def m_type(cx, a, k):
    if len(a) != 1:
        return NotImplemented
    return a[0].op_type(cx)


def attr_name(v):
    c = v.conc()
    return c if isinstance(c, str) else v


@model(hasattr)
def m_hasattr(cx, a, k):
    n = attr_name(a[1])
    if not isinstance(n, str):
        raise Unsupported("hasattr with symbolic name")
    return mkbool(a[0].op_hasattr(cx, n))


@model(getattr)
def m_getattr(cx, a, k):
    n = attr_name(a[1])
    if not isinstance(n, str):
        h = getattr(a[0], "op_getattr_sym", None)
        if h is not None:
            return h(cx, n, *a[2:])
        if isinstance(a[0], Sym) and a[0].spec is not None and "getattr_sym" in a[0].spec.extra:
            return a[0].spec.extra["getattr_sym"](cx, n, *a[2:])
        raise Unsupported("getattr with symbolic name")
    if len(a) == 3:
        try:
            return a[0].op_getattr(cx, n)
        except PyExc as e:
            if interp.exc_is(cx, e.exc, K(AttributeError)):
                return a[2]
            raise
    return a[0].op_getattr(cx, n)


@model(setattr)
def m_setattr(cx, a, k):
    a[0].op_setattr(cx, attr_name(a[1]), a[2])
    return K(None)


@model(object.__setattr__)
def m_object_setattr(cx, a, k):
    o = a[0]
    if isinstance(o, NewObj):
        n = attr_name(a[1])
        nv = K(n) if isinstance(n, str) else n
        o.log(cx, "object.__setattr__", nv, a[2])
        o.attrs.op_setitem(cx, nv, a[2])
        return K(None)
    return m_setattr(cx, a, k)


@model(object.__getattribute__)
def m_object_getattribute(cx, a, k):
    n = attr_name(a[1])
    return a[0].op_getattr(cx, n)


@model(callable)
def m_callable(cx, a, k):
    v = a[0]
    h = getattr(v, "op_callable", None)
    if h is not None:
        return mkbool(h(cx))
    if isinstance(v, K):
        return K(callable(v.v))
    if isinstance(v, (TypeV, FuncV, BoundV, ModelFn, MethV)):
        return K(True)
    if isinstance(v, (Container, SStr, SInt, SBool)):
        return K(False)
    if isinstance(v, InstV):
        return K(hasattr(v.cls, "__call__"))
    if isinstance(v, Sym):
        if v.spec is not None and "callable" in v.spec.extra:
            return mkbool(v.spec.extra["callable"])
        ex = V_.exact_of(cx, v)
        if ex is not None:
            return K(hasattr(ex, "__call__"))
        f = z3.Function("callable", smt.V, z3.BoolSort())
        for cls in smt.BASIC:
            if cls is not object:
                cx.L.bg(("callable", v.t.get_id(), cls), z3.Implies(cx.L.sub(smt.typeof(v.t), cls) if cls in (type,) else smt.typeof(v.t) == cx.L.tconst(cls),
                        f(v.t) == z3.BoolVal(hasattr(cls, "__call__") if cls is not type else True)))
        return mkbool(f(v.t))
    raise Unsupported(f"callable({v!r})")


@model(repr)
def m_repr(cx, a, k):
    v = a[0]
    h = cx.hooks.get("repr")
    if h is not None:
        r = h(cx, v)
        if r is not None:
            return r
    return v.op_repr(cx)


@model(str)
def m_str(cx, a, k):
    if len(a) != 1:
        return NotImplemented
    v = a[0]
    if isinstance(v, K):
        return K(str(v.v)) if not isinstance(v.v, types.FunctionType) else SStr(cx.fresh("str", smt.S))
    if isinstance(v, SStr):
        return v
    if isinstance(v, SInt):
        return v.m___str__(cx)
    if isinstance(v, Sym) and V_.exact_of(cx, v) is str:
        return v
    h = getattr(v, "op_str", None)
    if h is not None:
        return h(cx)
    return SStr(z3.Function("str()", smt.V, smt.S)(v.term(cx)))


@model(id)
def m_id(cx, a, k):
    return SInt(smt.ident(id_term(cx, a[0])))


def id_term(cx, v):
    t = v.term(cx)
    cx.L.bg(("id", t.get_id()), smt.unident(smt.ident(t)) == t, smt.ident(t) > 0)
    return t


@model(len)
def m_len(cx, a, k):
    return a[0].op_len(cx)


@model(list)
def m_list(cx, a, k):
    return ListV(iter_segs(cx, a[0])) if a else ListV()


@model(tuple)
def m_tuple(cx, a, k):
    if a and isinstance(a[0], TupV):
        return a[0]
    return TupV(iter_segs(cx, a[0])) if a else TupV()


@model(set, frozenset)
def m_set(cx, a, k):
    if a and isinstance(a[0], K) and isinstance(a[0].v, str):
        return SetV([One(K(x)) for x in sorted(set(a[0].v))])
    if a and V_.is_strlike(cx, a[0], prove=True):
        return CharSet(V_.as_str(cx, a[0]))
    if not a:
        return SetV()
    segs = iter_segs(cx, a[0])
    for s in segs:
        if isinstance(s, One):
            interp.check_hash(cx, s.val)
        elif isinstance(s, Bulk) and cx.hooks.get("hash") is not None:
            interp.run_loop(cx, [s], lambda e: interp.check_hash(cx, e))
    return SetV(segs)


class CharSet(V_.Val):
    """set(some str): its elements are one-character strings."""
    def __init__(self, s): self.s = s
    def op_type(self, cx): return K(set)
    def op_contains(self, cx, k):
        c = k.conc()
        if isinstance(c, str):
            return strs.contains(self.s, strs.sval(c)) if len(c) == 1 else False
        raise Unsupported("charset membership")
    def op_truth(self, cx): return self.s != strs.EMPTY


@model(dict)
def m_dict(cx, a, k):
    d = DictV()
    if a:
        d.m_update(cx, a[0])
    for n, v in k.items():
        d.op_setitem(cx, K(n), v)
    return d


@model(enumerate)
def m_enumerate(cx, a, k):
    segs = iter_segs(cx, a[0])
    out = []
    n = 0
    start = 0
    if len(a) > 1:
        start = a[1].conc()
    if all(isinstance(s, One) for s in segs):
        return ListV([One(TupV([One(K(i + start)), One(s.val)])) for i, s in enumerate(segs)])
    if start:
        raise Unsupported("enumerate start")
    pre = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(TupV([One(V_.seg_len(cx, pre)), One(s.val)])))
        elif isinstance(s, Bulk) and all(isinstance(q, One) for q in pre) and all(len(es) == 1 for _, es in s.alts):
            i = V_.idx_fn(s.src)(*s.src.gens)
            i = i + len(pre) if pre else i
            out.append(Bulk(s.src, [(g, (TupV([One(SInt(i)), One(es[0])]),)) for g, es in s.alts], s.locals))
        else:
            raise Unsupported("enumerate over bulk")
        pre.append(s)
    return ListV(out)


@model(zip)
def m_zip(cx, a, k):
    lists = [iter_segs(cx, x) for x in a]
    if all(isinstance(s, One) for l in lists for s in l):
        return ListV([One(TupV([One(x.val) for x in tup])) for tup in zip(*lists)])
    raise Unsupported("zip over bulk")


@model(map)
def m_map(cx, a, k):
    f, it = a

    def thunk(cx):
        out = ListV()
        interp.run_loop(cx, iter_segs(cx, it), lambda e: out.m_append(cx, interp.call(cx, f, [e])))
        return out
    return GenV(thunk)


@model(filter)
def m_filter(cx, a, k):
    f, it = a

    def thunk(cx):
        out = ListV()

        def body(e):
            if interp.truth(cx, interp.call(cx, f, [e]) if not (isinstance(f, K) and f.v is None) else e):
                out.m_append(cx, e)
        interp.run_loop(cx, iter_segs(cx, it), body)
        return out
    return GenV(thunk)


@model(iter)
def m_iter(cx, a, k):
    v = a[0]
    if isinstance(v, (IterV, GenV)):
        return v
    r = IterV(iter_segs(cx, v))
    r.of = v
    return r


@model(next)
def m_next(cx, a, k):
    if isinstance(a[0], IterV):
        try:
            return a[0].op_next(cx)
        except PyExc as e:
            if len(a) > 1 and e.exc.cls is StopIteration:
                return a[1]
            raise
    if isinstance(a[0], GenV):
        segs = a[0].op_iter(cx)
        if segs and isinstance(segs[0], One):
            return segs[0].val
        if not segs and len(a) > 1:
            return a[1]
        if len(segs) == 1 and isinstance(segs[0], Bulk) and len(a) > 1:
            s = segs[0]
            m = cx.exists(s.src, zor(*[g for g, es in s.alts if es]), s.locals)
            if not m:
                return a[1]
            for g, es in s.alts:
                if es and cx.decide(z3.substitute(g, *m)):
                    return V_.ent_subst(es[0], m)
    raise Unsupported("next()")


@model(itertools.chain)
def m_chain(cx, a, k):
    segs = []
    for x in a:
        if isinstance(x, interp.StarV):
            raise Unsupported("chain(*unknown)")
        segs.extend(iter_segs(cx, x))
    return ListV(segs)


def m_chain_from_iterable(cx, a, k):
    segs = []
    for s in iter_segs(cx, a[0]):
        if not isinstance(s, One):
            raise Unsupported("chain.from_iterable(bulk)")
        segs.extend(iter_segs(cx, s.val))
    return ListV(segs)


def m_fromkeys(cx, a, k):
    v = a[1] if len(a) > 1 else K(None)
    out = DictV()
    for s in iter_segs(cx, a[0]):
        if isinstance(s, One):
            out.op_setitem(cx, s.val, v)
        else:
            out = DictV(out.segs + (V_.map_seg(s, lambda e: (e, v)),))
    return out


_cfi = itertools.chain.from_iterable
_prev_lookup = lookup


def lookup(cx, f):          # noqa: F811
    if f == _cfi and isinstance(f, types.BuiltinMethodType):
        return m_chain_from_iterable
    if f == dict.fromkeys and isinstance(f, types.BuiltinMethodType):
        return m_fromkeys
    return _prev_lookup(cx, f)


@model(itertools.islice)
def m_islice(cx, a, k):
    h = cx.hooks.get("islice")
    if h is not None:
        return h(cx, a)
    if len(a) == 2 and isinstance(a[1], K) and a[1].v is None:
        return a[0]
    if len(a) == 2 and isinstance(a[1], K):
        segs = iter_segs(cx, a[0])
        if all(isinstance(s, One) for s in segs):
            return ListV(segs[: a[1].v])
    if len(a) == 2 and isinstance(a[1], SInt) and cx.prove(a[1].i >= 0):
        segs = iter_segs(cx, a[0])
        if len(segs) == 1 and isinstance(segs[0], Bulk) and not segs[0].partial and len(segs[0].alts) == 1:
            # one item per element of the source: those with a smaller index
            b = segs[0]
            g, es = b.alts[0]
            if z3.is_true(g) and len(es) == 1 and not isinstance(es[0], Bulk):
                i = V_.idx_fn(b.src)(*b.src.gens)
                cx.L.bg(("idx", b.src.key), i >= 0)
                return ListV([Bulk(b.src, [(i < a[1].i, es), (i >= a[1].i, ())], b.locals)])
    raise Unsupported("islice")


@model(sorted)
def m_sorted(cx, a, k):
    if V_.value_conc(a[0]) is not _NOTCONC and not k:
        return NotImplemented
    raise Unsupported("sorted of symbolic content")


@model(any)
def m_any(cx, a, k):
    found = []

    class Hit(Exception):
        pass
    from .core import BreakSig

    def body(e):
        if interp.truth(cx, e):
            raise BreakSig()
    return K(bool(interp.run_loop(cx, iter_segs(cx, a[0]), body)))


@model(all)
def m_all(cx, a, k):
    from .core import BreakSig

    def body(e):
        if not interp.truth(cx, e):
            raise BreakSig()
    return K(not interp.run_loop(cx, iter_segs(cx, a[0]), body))


@model(bool)
def m_bool(cx, a, k):
    return mkbool(a[0].op_truth(cx)) if a else K(False)


@model(warnings.warn)
def m_warn(cx, a, k):
    log = cx.ghost.get("warnings")
    if log is not None:
        log.m_append(cx, a[0])
    return K(None)


@model(int)
def m_int(cx, a, k):
    if len(a) == 1 and isinstance(a[0], SInt):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SBool):
        return mkint(V_.as_int(cx, a[0]))
    return NotImplemented


@model(min, max)
def m_minmax(cx, a, k):
    return NotImplemented


@model(reversed)
def m_reversed(cx, a, k):
    segs = iter_segs(cx, a[0])
    if all(isinstance(s, One) for s in segs):
        return ListV(list(reversed(segs)))
    raise Unsupported("reversed bulk")


@model(range)
def m_range(cx, a, k):
    return NotImplemented


@model(vars)
def m_vars(cx, a, k):
    if isinstance(a[0], K):
        return K(dict(vars(a[0].v)))
    return a[0].op_getattr(cx, "__dict__")


@model(print)
def m_print(cx, a, k):
    return K(None)


@model(object)
def m_object(cx, a, k):
    return InstV(object)
