"""Shared pieces of the encode/decode contracts.

One level of the real encoder is run symbolically on a value whose children
are unknown; each recursive call on a child is replaced by the contract

    _flatten(child)  ->  JTok(child)        and CALL(child) in the encoder log
    _restore(JTok c) ->  RTok(c)            and CALL(c) in the decoder log

which is the induction hypothesis of the round-trip theorem.  The result of
the real encoder is passed through a model of "JSON text and back" and then to
the real decoder.  What must hold afterwards are the obligations.
"""
import base64
import binascii
import z3
from pyvc import smt, interp, models
from pyvc import values as V_
from pyvc.smt import V, T, typeof, ident, alloc, str_of, tname, truthy, NONE
from pyvc.core import Unsupported, Infeasible, PyExc, One, Del, Bulk, Opaque, Heap, serial
from pyvc.values import *
from pyvc.values import _NOTCONC

import jsonpickle
from jsonpickle import pickler as P, unpickler as U, util, tags, handlers, backend as B

isproxy = z3.Function("isproxy", V, z3.BoolSort())
refidx = z3.Function("refidx", V, z3.IntSort())
jsontext = z3.Function("jsontext", V, smt.S)
b64s = z3.Function("b64s", V, smt.S)
b85s = z3.Function("b85s", V, smt.S)
bytes_of = z3.Function("bytes_of", V, V)
bytearray_of = z3.Function("bytearray_of", V, V)


# --------------------------------------------------------------------- tokens
class JTok(V_.Val):
    """The flattened form of an unknown child value."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"J<{self.t}>"

    def subst(self, m):
        return JTok(z3.substitute(self.t, *m))

    def term(self, cx):
        return z3.Function("flat", V, V)(self.t)

    def op_is(self, cx, o):
        if isinstance(o, K) and o.v is None:
            return self.t == NONE
        if isinstance(o, JTok):
            return self.t == o.t
        return NotImplemented

    def op_truth(self, cx):
        # a tuple is stored under a tag, so its flattened form is never empty
        if cx.prove(typeof(self.t) == cx.L.tconst(tuple)):
            return True
        if cx.prove(typeof(self.t) == cx.L.tconst(dict)):
            return truthy(self.t)
        raise Unsupported("truth of an unknown flattened value")

    def op_pairs(self, cx):
        if cx.prove(z3.And(typeof(self.t) == cx.L.tconst(dict), z3.Not(truthy(self.t)))):
            return []
        raise Unsupported("pairs of an unknown flattened value")

    def op_eq(self, cx, o):
        if isinstance(o, JTok):
            return self.t == o.t
        c = o.conc()
        if isinstance(c, str):
            # a str flattens to itself; what others flatten to is not known
            return z3.If(typeof(self.t) == cx.L.tconst(str), str_of(self.t) == smt.sval(c),
                         z3.Function("flat==", V, smt.S, z3.BoolSort())(self.t, smt.sval(c)))
        raise Unsupported("== on an unknown flattened value")

    def op_type(self, cx):
        raise Unsupported("type of an unknown flattened value")

    def op_isinstance(self, cx, cls):
        raise Unsupported("isinstance of an unknown flattened value")


class RTok(V_.Val):
    """What the decoder returns for a child: its image, or (isproxy) a
    placeholder that resolves to its image."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"R<{self.t}>"

    def subst(self, m):
        return RTok(z3.substitute(self.t, *m))

    def term(self, cx):
        return z3.Function("img", V, V)(self.t)

    def op_isinstance(self, cx, cls):
        if cls is U._Proxy:
            return isproxy(self.t)
        if cls is U._IDProxy:
            raise Unsupported("_IDProxy test")
        return z3.And(z3.Not(isproxy(self.t)), cx.L.sub(typeof(self.t), cls))

    def op_is(self, cx, o):
        if isinstance(o, K) and o.v is None:
            return self.t == NONE
        return NotImplemented

    def op_truth(self, cx):
        if cx.decide(isproxy(self.t)):
            return True
        return Sym(self.t).op_truth(cx)

    def op_type(self, cx):
        if cx.decide(isproxy(self.t)):
            return K(U._Proxy)
        return TypeV(typeof(self.t))

    def op_eq(self, cx, o):
        c = o.conc()
        if c is None:
            return self.t == NONE
        if isinstance(c, str):
            return zand(z3.Not(isproxy(self.t)), Sym(self.t).op_eq(cx, o))
        if isinstance(o, RTok):
            return self.t == o.t
        return V_.pyeq(self.term(cx), o.term(cx))

    def op_hasattr(self, cx, name):
        if name in ("get", "reset", "instance"):
            return isproxy(self.t)
        raise Unsupported(f"hasattr {name} of a restored child")

    def op_getattr(self, cx, name):
        if name == "get":
            if cx.decide(isproxy(self.t)):
                return MethV(self, "get", lambda cx: ImgV(self.t))
        h = cx.hooks.get("rtok_getattr")
        if h is not None:
            r = h(cx, self, name)
            if r is not None:
                return r
        if name == "items" and self.exactly(cx, dict):
            return MethV(self, "items", lambda cx: ListV([V_.map_seg(s, lambda e: TupV([One(e[0]), One(e[1])])) for s in self.op_pairs(cx)]))
        if name == "items" and cx.prove(z3.And(z3.Not(isproxy(self.t)), z3.Or(self.t == NONE, cx.L.sub(typeof(self.t), tuple)))):
            raise_py(cx, AttributeError, name)
        raise Unsupported(f"getattr {name} of a restored child")

    def exactly(self, cx, cls):
        return cx.prove(z3.And(z3.Not(isproxy(self.t)), typeof(self.t) == cx.L.tconst(cls)))

    def op_pairs(self, cx):
        """Items of the image of a dict with string keys."""
        if not self.exactly(cx, dict):
            raise Unsupported("items of a restored child")
        src = cx.src("items", self.t, 2, cx.hooks.get("itemfacts"))
        return [Bulk(src, [(z3.BoolVal(True), ((Sym(src.gens[0]), RTok(src.gens[1])),))])]

    def op_iter(self, cx):
        if self.exactly(cx, dict):
            return [V_.map_seg(s, lambda e: e[0]) for s in self.op_pairs(cx)]
        if self.exactly(cx, tuple):
            src = cx.src("elems", self.t, 1, cx.hooks.get("elemfacts"))
            return [Bulk(src, [(z3.BoolVal(True), (RTok(src.gens[0]),))])]
        raise Unsupported("iteration over a restored child")

    def op_getitem(self, cx, k):
        i = k.conc()
        if isinstance(i, int) and cx.prove(z3.And(z3.Not(isproxy(self.t)), cx.L.sub(typeof(self.t), tuple))):
            return RTok(z3.Function(f"item:{i}", V, V)(self.t))
        raise Unsupported(f"item {k!r} of a restored child")

    def op_len(self, cx):
        if cx.prove(isproxy(self.t)):
            raise_py(cx, TypeError, "no len")
        return Sym(self.t).op_len(cx)

    def op_callable(self, cx):
        return z3.And(z3.Not(isproxy(self.t)), z3.Function("callable", V, z3.BoolSort())(self.t))

    def op_call(self, cx, a, k):
        h = cx.hooks.get("rtok_call")
        if h is not None:
            return h(cx, self, a, k)
        raise Unsupported("call of a restored child")


class ImgV(V_.Val):
    """The final image of a child."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Img<{self.t}>"

    def subst(self, m):
        return ImgV(z3.substitute(self.t, *m))

    def term(self, cx):
        return z3.Function("img", V, V)(self.t)

    def op_isinstance(self, cx, cls):
        return cx.L.sub(typeof(self.t), cls)


def is_image(cx, val, t):
    """Formula: val is the image of the original value t."""
    if isinstance(val, ImgV):
        return val.t == t
    if isinstance(val, RTok):
        return z3.And(val.t == t, z3.Not(isproxy(t)))
    if isinstance(val, Sym):
        # an immutable primitive passed through unchanged
        prim = z3.Or(*[typeof(t) == cx.L.tconst(c) for c in (str, int, bool, float, type(None))])
        return z3.And(val.t == t, prim)
    if isinstance(val, SStr):
        return z3.And(typeof(t) == cx.L.tconst(str), val.s == str_of(t))
    if isinstance(val, K):
        if val.v is None or isinstance(val.v, bool):
            return val.term(cx) == t
        if isinstance(val.v, str):
            return z3.And(typeof(t) == cx.L.tconst(str), str_of(t) == smt.sval(val.v))
    return z3.BoolVal(False)


# ----------------------------------------------------------------- ghost logs
class Log(V_.Val):
    """Registration log: REG(value) and CALL(child) in order."""

    def __init__(self, name):
        self.name = name
        self.segs = ()
        self.born = serial()

    def add(self, cx, *entry):
        cx.set(self, "segs", self.segs + (One(tuple(entry)),))

    def __repr__(self):
        return f"{self.name}{list(self.segs)}"


def ident_arg(i):
    """The term whose identity an integer expression is, or None."""
    if isinstance(i, SInt) and z3.is_app(i.i) and i.i.decl().name() == "ident":
        return i.i.arg(0)
    return None


def ref_number(cx, t):
    """A number given earlier: the size of the table then (ids-are-consecutive);
    the decoder's list has grown in step with the table (logs-agree)."""
    cx.L.bg(("refidx", t.get_id()), refidx(t) >= 0, refidx(t) < z3.Int("nlist!0"))
    return SInt(refidx(t))


class RefTable(V_.Val):
    """Encoder table id(obj) -> number, with unknown prior content."""

    def __init__(self, log, prior="seen0"):
        self.log = log
        self.version = 0
        self.born = serial()
        self.prior = prior
        self.mine = ()

    def __repr__(self):
        return "RefTable"

    def op_truth(self, cx):
        raise Unsupported("truth of reference table")

    def op_contains(self, cx, k):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("reference table lookup by non-id")
        for m in reversed(self.mine):
            if cx.prove(m == t):
                return True
        if cx.L.is_new(t):
            # not the address of anything registered before: new objects are
            # kept alive once registered (checked in op_setitem)
            return False
        called = any(s.val[0] == "CALL" if isinstance(s, One) else True for s in self.log.segs)
        if called:
            late = z3.Function(f"registered@{len(self.log.segs)}", V, z3.BoolSort())(t)
            return z3.Or(late, z3.Function(self.prior, V, z3.BoolSort())(t))
        return z3.Function(self.prior, V, z3.BoolSort())(t)

    def op_len(self, cx):
        n = z3.Int(f"ntab!{len(self.log.segs)}")
        cx.L.bg(("ntab", len(self.log.segs)), n >= 0)
        return SInt(n)

    def op_setitem(self, cx, k, v):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("reference table store by non-id")
        n = self.op_len(cx)
        cx.oblige("ids-are-consecutive", V_.as_int(cx, v) == n.i,
                  f"number stored for a new object is {v!r}, table size {n!r}")
        if cx.L.is_new(t):
            w = cx.ghost.get("world")
            kept = w.P.fields["_seen"].segs if w is not None else ()
            cx.oblige("reference-holds-new-objects", any(isinstance(s, One) and s.val.term(cx).eq(t) for s in kept), lambda: f"{t} is registered but may be freed")
        cx.assume(refidx(t) == n.i)
        self.log.add(cx, "REG", Sym(t))
        cx.set(self, "mine", self.mine + (t,))

    def op_getitem(self, cx, k):
        t = ident_arg(k)
        if not cx.decide(zb(self.op_contains(cx, k))):
            raise PyExc(ExcV(KeyError, [k]))
        return ref_number(cx, t)

    def m_get(self, cx, k, default=None):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("reference table lookup by non-id")
        if cx.decide(zb(self.op_contains(cx, k))):
            return ref_number(cx, t)
        return default or K(None)

    def op_type(self, cx):
        return K(dict)


class RefList(V_.Val):
    """Decoder list of registered objects, with unknown prior content."""

    def __init__(self, log):
        self.log = log
        self.born = serial()
        self.entries = ()        # (index term, value)

    def __repr__(self):
        return "RefList"

    def op_type(self, cx):
        return K(list)

    def op_truth(self, cx):
        raise Unsupported("truth of reference list")

    def op_len(self, cx):
        k = len(self.log.segs)
        n = z3.Int(f"nlist!{k}")
        cx.L.bg(("nlist", k), z3.Int("nlist!0") >= 0, n >= z3.Int("nlist!0"))
        for i, _ in self.entries:
            if not i.eq(n):
                cx.assume(n > i)
        return SInt(n)

    def m_append(self, cx, v):
        n = self.op_len(cx)
        self.log.add(cx, "REG", v)
        cx.set(self, "entries", self.entries + ((n.i, v),))
        return K(None)

    def op_getitem(self, cx, k):
        if isinstance(k, SInt):
            for i, v in reversed(self.entries):
                if cx.prove(i == k.i):
                    return v
            if z3.is_app(k.i) and k.i.decl().name() == "refidx":
                return RTok(k.i.arg(0))
        h = cx.hooks.get("reflist_getitem")
        if h is not None:
            return h(cx, self, k)
        raise Unsupported(f"reference list index {k!r}")

    def op_setitem(self, cx, k, v):
        i = V_.as_int(cx, k)
        for j, (n, old) in enumerate(self.entries):
            if cx.prove(n == i):
                new = list(self.entries)
                new[j] = (n, v)
                cx.set(self, "entries", tuple(new))
                return
        raise Unsupported("reference list store")

    def final(self, cx, regval):
        """Current occupant of the slot in which regval was registered."""
        return None


class PriorIds(Opaque):
    """Unknown earlier content of the decoder's id -> index dict."""
    __slots__ = ("name", "info")

    def find(self, cx, key):
        t = ident_arg(key)
        if t is None:
            raise Unsupported("id table lookup by non-id")
        if cx.prove(alloc(t) > 0):
            return None          # allocated since: its id is not in use
        known = cx.hooks.get("registered")
        if cx.decide(known(cx, t)) if known else cx.choose("already_registered"):
            return ref_number(cx, t)
        return None


class Sink(V_.Val):
    """A dict that is only written."""

    def op_setitem(self, cx, k, v):
        pass

    def op_type(self, cx):
        return K(dict)

    def op_truth(self, cx):
        raise Unsupported("truth of write-only dict")


class SeenList(V_.Val):
    """List keeping objects alive."""

    def __init__(self):
        self.segs = ()
        self.born = serial()

    def m_append(self, cx, v):
        cx.set(self, "segs", self.segs + (One(v),))
        return K(None)

    def op_type(self, cx):
        return K(list)

    def op_truth(self, cx):
        raise Unsupported("truth")


# ------------------------------------------------------------------ the world
class World:
    """Encoder and decoder states plus the contracts in force."""

    def __init__(self, cx, popts=None, uopts=None, depth="nested"):
        self.cx = cx
        self.plog = Log("enc")
        self.ulog = Log("dec")
        install(cx, self)
        self.P = interp.construct(cx, P.Pickler, [], dict(popts or {}))
        self.U = interp.construct(cx, U.Unpickler, [], dict(uopts or {}))
        self.table = RefTable(self.plog)
        self.list = RefList(self.ulog)
        f = self.P.fields
        g = self.U.fields
        for fields, names in ((f, ("_depth", "_objs", "_seen")), (g, ("_objs", "_obj_to_idx", "_namedict", "_namestack", "_proxies"))):
            for n in names:
                if n not in fields:
                    raise Unsupported(f"the state has no field {n} any more")
        if depth == "nested":
            d = z3.Int("depth")
            cx.assume(d >= 0)
            f["_depth"] = SInt(d)
        f["_objs"] = self.table
        f["_seen"] = SeenList()
        g["_objs"] = self.list
        g["_obj_to_idx"] = DictV([PriorIds("prior-ids")])
        g["_namedict"] = Sink()
        g["_namestack"] = ListV([Opaque("outer-names")])
        g["_proxies"] = ListV()
        cx.ghost["world"] = self

    # real code, called past its own contract
    def flatten(self, x):
        return interp.call_repo(self.cx, P.Pickler._flatten, [self.P, x], {})

    def restore(self, j):
        return interp.call_repo(self.cx, U.Unpickler._restore, [self.U, j], {})

    def swap(self):
        interp.call(self.cx, self.U.op_getattr(self.cx, "_swap_proxies"), [])


def is_prim_sym(cx, v):
    return isinstance(v, Sym) and V_.exact_of(cx, v) in (str, int, bool, float, type(None), bytes, bytearray)


def install(cx, w):
    c = cx.contracts

    def flatten(cx, a, k):
        x = a[1]
        if isinstance(x, Sym) and (V_.exact_of(cx, x) is None and x.spec is None or x.spec is not None and x.spec.extra.get("by contract")):
            w.plog.add(cx, "CALL", x)
            may = cx.hooks.get("flatten_raises")
            if may is not None:
                may(cx, x)
            return JTok(x.t)
        return NotImplemented

    def restore(cx, a, k):
        j = a[1]
        if isinstance(j, JTok):
            w.ulog.add(cx, "CALL", Sym(j.t))
            return RTok(j.t)
        return NotImplemented

    c["jsonpickle.pickler.Pickler._flatten"] = flatten
    c["jsonpickle.unpickler.Unpickler._restore"] = restore

    def b_encode(cx, a, k):
        j = a[1]
        return encode_text(cx, j)

    def b_decode(cx, a, k):
        return decode_text(cx, a[1])

    c["jsonpickle.backend.JSONBackend.encode"] = b_encode
    c["jsonpickle.backend.JSONBackend.decode"] = b_decode
    c["jsonpickle.util.importable_name"] = importable_name
    c["jsonpickle.util.loadclass"] = loadclass
    c["jsonpickle.util.has_method"] = has_method
    c["jsonpickle.util.has_reduce"] = has_reduce
    c["jsonpickle.handlers.Registry.get"] = handlers_get
    m = cx.hooks.setdefault("models", {})
    m[id(base64.b64encode)] = m_b64encode
    m[id(base64.b64decode)] = m_b64decode
    m[id(base64.b85encode)] = m_b85encode
    m[id(base64.b85decode)] = m_b85decode
    m[id(bytes)] = m_bytes
    m[id(bytearray)] = m_bytearray
    cx.hooks["str_encode"] = lambda cx, s: BytesOfStr(s.s)
    cx.hooks["symsetattr"] = sym_setattr
    cx.ghost["texts"] = ()
    cx.hooks["hash"] = hash_check


def hash_check(cx, v):
    if isinstance(v, (ListV, DictV, SetV)):
        raise_py(cx, TypeError, "unhashable type")
    if isinstance(v, JTok):
        if cx.decide(z3.Function("flat-unhashable", V, z3.BoolSort())(v.t)):
            raise_py(cx, TypeError, "unhashable type")


def sym_setattr(cx, obj, name, v):
    cx.oblige("input-not-mutated", False, lambda: f"attribute {name} of an input object is assigned")
    raise Infeasible()


# ---- JSON text --------------------------------------------------------------
def encode_text(cx, j):
    """backend.encode: some text from which backend.decode gives the value
    back with tuples turned into lists (contract of the JSON backends)."""
    if isinstance(j, JTok):
        s = jsontext(j.t)
        cx.ghost["texts"] = cx.ghost["texts"] + ((s, j),)
        return SStr(s)
    jj = jsoncopy(cx, j)
    t = jkey(cx, jj)
    s = jsontext(t)
    cx.ghost["texts"] = cx.ghost["texts"] + ((s, jj),)
    return SStr(s)


def jkey(cx, j):
    if isinstance(j, (Sym, JTok)):
        return j.term(cx)
    if isinstance(j, (SStr, K, SInt)):
        return j.term(cx)
    if isinstance(j, V_.Container):
        # a term determined by the shape; equal shapes over equal parts agree
        parts = []
        names = []
        for s in j.segs:
            if not isinstance(s, One):
                return V_.alloc_term(cx, j, j.pytype)
            if isinstance(s.val, tuple):
                parts.append(jkey(cx, s.val[0]))
                parts.append(jkey(cx, s.val[1]))
            else:
                parts.append(jkey(cx, s.val))
        f = z3.Function(f"json:{j.pytype.__name__}{len(parts)}", *([V] * len(parts)), V)
        return f(*parts) if parts else z3.Const(f"json:{j.pytype.__name__}", V)
    raise Unsupported(f"JSON text of {j!r}")


def decode_text(cx, s):
    st = V_.as_str(cx, s)
    for t, j in cx.ghost["texts"]:
        if t.eq(st) or cx.prove(t == st):
            return j
    # a text recorded for another element of the same loop
    h = cx.hooks.get("decode_unknown")
    if h is not None:
        return h(cx, s)
    raise Unsupported(f"decoding of unknown text {s!r}")


JSON_EXACT = (str, int, bool, float, type(None))


def jsoncopy(cx, j, name="output-is-json"):
    """The value after a trip through JSON text; every part must be JSON
    representable and every key a str (obligation)."""
    if isinstance(j, K):
        if type(j.v) in JSON_EXACT:
            return j
        c = V_.value_conc(j)
        cx.oblige(name, isinstance(j.v, (list, dict)), lambda: f"{j!r} in the flattened output")
        raise Infeasible()
    if isinstance(j, (SStr, SInt, SBool, JTok)):
        return j
    if isinstance(j, Sym):
        ok = z3.Or(*[typeof(j.t) == cx.L.tconst(c) for c in JSON_EXACT])
        if cx.oblige(name, ok, lambda: f"{j!r} ({V_.exact_of(cx, j)}) in the flattened output") is not True:
            raise Infeasible()
        return j
    if isinstance(j, (ListV, TupV)):
        return ListV([jseg(cx, s, lambda e: jsoncopy(cx, e, name)) for s in j.segs])
    if isinstance(j, DictV):
        def pair(e):
            k = e[0]
            if isinstance(k, SStr) or (isinstance(k, K) and type(k.v) is str):
                ok = True
            elif isinstance(k, Sym):
                ok = typeof(k.t) == cx.L.tconst(str)
            else:
                ok = False
            cx.oblige(name + "-key", ok, lambda: f"key {k!r}")
            return (k, jsoncopy(cx, e[1], name))
        return DictV([jseg(cx, s, pair) for s in V_.norm_dict(cx, j.segs)])
    if hasattr(j, "op_json"):
        return j.op_json(cx)
    cx.oblige(name, False, lambda: f"{j!r} in the flattened output")
    raise Infeasible()


def jseg(cx, s, f):
    if isinstance(s, One):
        return One(f(s.val))
    if isinstance(s, Bulk):
        alts = []
        facts = cx.src_facts(s.src)
        for g, es in s.alts:
            n = len(cx.pc)
            for x in facts:
                cx.assume(x)
            cx.assume(g)
            if not es:
                del cx.pc[n:]
                alts.append((g, ()))
                continue
            if not cx.feasible():
                del cx.pc[n:]
                continue
            new = []
            for e in es:
                new.append(jseg(cx, e, f) if isinstance(e, Bulk) else f(e))
            del cx.pc[n:]
            alts.append((g, tuple(new)))
        return Bulk(s.src, alts, s.locals, s.partial)
    raise Unsupported(f"JSON copy of {s!r}")


# ---- bytes ------------------------------------------------------------------
class BytesOfStr(V_.Val):
    """s.encode("utf-8")"""

    def __init__(self, s): self.s = s
    def __repr__(self): return f"utf8({self.s})"
    def op_type(self, cx): return K(bytes)
    def term(self, cx): return z3.Function("utf8", smt.S, V)(self.s)


class AsciiBytes(V_.Val):
    """ascii bytes whose text is s (result of base64.b64encode)"""

    def __init__(self, s): self.s = s
    def op_type(self, cx): return K(bytes)
    def m_decode(self, cx, *a): return SStr(self.s)


def _enc(fn):
    def m(cx, a, k):
        x = a[0]
        if isinstance(x, Sym) and cx.prove(typeof(x.t) == cx.L.tconst(bytes)):
            return AsciiBytes(fn(x.t))
        if isinstance(x, K) and isinstance(x.v, bytes):
            return NotImplemented
        raise Unsupported(f"base encoding of {x!r}")
    return m


def _dec(fn, exc):
    def m(cx, a, k):
        x = a[0]
        s = x.s if isinstance(x, (BytesOfStr, SStr, AsciiBytes)) else None
        if s is None:
            if isinstance(x, K):
                return NotImplemented
            raise Unsupported(f"base decoding of {x!r}")
        if z3.is_app(s) and s.decl().name() == fn.name():
            return Sym(s.arg(0))
        h = cx.hooks.get("decode_payload")
        if h is not None:
            return h(cx, fn, s, exc)
        # text not produced by the matching encoder
        r = cx.fresh("garbage", V)
        cx.assume(typeof(r) == cx.L.tconst(bytes))
        return Sym(r)
    return m


m_b64encode, m_b85encode = _enc(b64s), _enc(b85s)
m_b64decode, m_b85decode = _dec(b64s, binascii.Error), _dec(b85s, ValueError)


def m_bytes(cx, a, k):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        if cx.prove(typeof(x.t) == cx.L.tconst(bytearray)):
            t = bytes_of(x.t)
            cx.L.bg(("bytes_of", t.get_id()), typeof(t) == cx.L.tconst(bytes))
            r = Sym(t)
            return r
    return NotImplemented


def m_bytearray(cx, a, k):
    if len(a) == 1 and isinstance(a[0], Sym):
        t = bytearray_of(a[0].t)
        cx.L.bg(("bytearray_of", t.get_id()), typeof(t) == cx.L.tconst(bytearray))
        return Sym(t)
    return NotImplemented


# ---- names and classes --------------------------------------------------------
def importable_name(cx, a, k):
    c = a[0]
    if isinstance(c, TypeV):
        return SStr(tname(c.t))
    if isinstance(c, K):
        return NotImplemented
    if isinstance(c, (Sym, ModelFn)):
        return SStr(z3.Function("fname", V, smt.S)(c.term(cx)))
    return NotImplemented


def loadclass(cx, a, k):
    s = a[0]
    known = cx.ghost.get("classes", ())
    if isinstance(s, (SStr, Sym, K)) and V_.is_strlike(cx, s, True):
        st = V_.as_str(cx, s)
        for name, val in known:
            if name.eq(st) or cx.prove(name == st):
                return val
        cl = k.get("classes", a[1] if len(a) > 1 else K(None))
        if isinstance(s, K) and (isinstance(cl, K) and not cl.v or isinstance(cl, DictV) and not cl.segs):
            return K(util.loadclass(s.v))       # the real function on a known name
    return NotImplemented


def add_class(cx, t, val):
    cx.ghost["classes"] = cx.ghost.get("classes", ()) + ((tname(t), val),)


def has_method(cx, a, k):
    o, n = a
    if isinstance(o, Sym) and o.spec is not None and isinstance(n, K):
        return K(n.v in o.spec.extra.get("methods", ()))
    return NotImplemented


def has_reduce(cx, a, k):
    o = a[0]
    if isinstance(o, Sym) and o.spec is not None and "reduce" in o.spec.extra:
        r = o.spec.extra["reduce"]
        return TupV([One(mkbool(r[0])), One(mkbool(r[1]))])
    return NotImplemented


def handlers_get(cx, a, k):
    table = cx.ghost.get("handlers")
    key = a[1]
    default = a[2] if len(a) > 2 else k.get("default", K(None))
    if table is not None:
        return table(cx, key, default)
    if isinstance(key, K) and isinstance(key.v, type):
        return NotImplemented
    return default


# ---- log comparison -------------------------------------------------------------
def nonempty_segs(cx, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(s)
            continue
        if isinstance(s, Bulk):
            fs = cx.src_facts(s.src)
            alts = []
            for g, es in s.alts:
                es2 = tuple(x for e in es for x in ([e] if not isinstance(e, Bulk) else nonempty_segs(cx, [e])))
                if cx.feasible(*fs, g):
                    alts.append((g, es2))
            if any(es for _, es in alts):
                out.append(Bulk(s.src, alts, s.locals, s.partial))
            continue
        out.append(s)
    return out


def entry_match(cx, a, b, pc, reg):
    """Obligation that two log entries agree."""
    if a[0] != b[0]:
        return False
    if a[0] == "CALL":
        return a[1].t == b[1].t
    return reg(a[1], b[1])


def logs_agree(cx, w, reg, name="reference-numbers-agree"):
    """Encoder and decoder register and visit the same things in the same
    order, so equal reference numbers denote corresponding objects."""
    a = nonempty_segs(cx, w.plog.segs)
    b = nonempty_segs(cx, w.ulog.segs)
    compare_segs(cx, a, b, lambda x, y: entry_match(cx, x, y, None, reg), name,
                 lambda: f"encoder order {a} / decoder order {b}")


def same_calls(ea, eb):
    return len(ea) == len(eb) and all(
        type(p) is tuple and type(q) is tuple and p[0] == q[0] and
        (p[0] != "CALL" or p[1].t.eq(q[1].t)) for p, q in zip(ea, eb))


def atomic(cx, t):
    return z3.Or(*[typeof(t) == cx.L.tconst(c) for c in ATOMS])


ATOMS = (str, int, bool, float, type(None), bytes, bytearray)


def drop_atomic(cx, es):
    """Visits of atomic values register nothing on either side."""
    return tuple(e for e in es if not (type(e) is tuple and e[0] == "CALL" and cx.prove(atomic(cx, e[1].t))))


def compare_segs(cx, a, b, match, name, detail):
    if len(a) != len(b):
        cx.oblige(name, False, detail)
        return
    for x, y in zip(a, b):
        if isinstance(x, One) and isinstance(y, One):
            cx.oblige(name, match(x.val, y.val), detail)
        elif isinstance(x, Bulk) and isinstance(y, Bulk) and x.src is y.src:
            fs = cx.src_facts(x.src)
            n = len(cx.pc)
            for f in fs:
                cx.assume(f)
            for ga, ea in x.alts:
                for gb, eb in y.alts:
                    m = len(cx.pc)
                    cx.pc.append(ga)
                    cx.pc.append(gb)
                    if cx.feasible():
                        if not same_calls(ea, eb):
                            ea, eb = drop_atomic(cx, ea), drop_atomic(cx, eb)
                        if len(ea) != len(eb):
                            cx.oblige(name, False, detail)
                        else:
                            for p, q in zip(ea, eb):
                                if isinstance(p, Bulk) or isinstance(q, Bulk):
                                    compare_segs(cx, [p], [q], match, name, detail)
                                else:
                                    cx.oblige(name, match(p, q), detail)
                    del cx.pc[m:]
            # an element covered by one log only
            gx = zor(*[g for g, es in x.alts])
            gy = zor(*[g for g, es in y.alts])
            only_x = zor(*[zand(g, z3.Not(gy)) for g, es in x.alts if es])
            only_y = zor(*[zand(g, z3.Not(gx)) for g, es in y.alts if es])
            cx.oblige(name, z3.Not(z3.Or(only_x, only_y)), detail)
            del cx.pc[n:]
        else:
            cx.oblige(name, False, detail)


# ---- content comparison -----------------------------------------------------------
def seq_same(cx, segs, src_or_items, name, detail=""):
    """Restored sequence has exactly the images of the source's elements in
    order.  src_or_items: Src, or list of terms."""
    segs = nonempty_segs(cx, segs)
    if isinstance(src_or_items, list):
        ok = len(segs) == len(src_or_items) and all(isinstance(s, One) for s in segs)
        if not cx.oblige(name, ok, lambda: f"{segs} {detail}"):
            return
        for s, t in zip(segs, src_or_items):
            cx.oblige(name, is_image(cx, s.val, t), lambda: f"{s.val!r} for {t} {detail}")
        return
    src = src_or_items
    if not segs:
        # nothing restored: there must be no element
        cx.oblige(name, z3.Not(z3.And(*cx.src_facts(src))), lambda: f"empty result {detail}")
        return
    ok = len(segs) == 1 and isinstance(segs[0], Bulk) and segs[0].src is src
    if not cx.oblige(name, ok, lambda: f"{segs} {detail}"):
        return
    each(cx, segs[0], lambda es: cx.oblige(name, zand(len(es) == 1, is_image(cx, es[0], src.gens[0]) if es else False),
                                           f"{es} for element {src.gens[0]} {detail}"))


def each(cx, bulk, f):
    """Run f on the entries of each feasible alternative for the generic
    element; also with () for elements no alternative covers."""
    n = len(cx.pc)
    for x in cx.src_facts(bulk.src):
        cx.assume(x)
    for g, es in bulk.alts:
        m = len(cx.pc)
        cx.pc.append(g)
        if cx.feasible():
            f(es)
        del cx.pc[m:]
    m = len(cx.pc)
    cx.pc.append(z3.Not(zor(*[g for g, _ in bulk.alts])))
    if cx.feasible():
        f(())
    del cx.pc[n:]


def map_same(cx, segs, src, name, key_ok=None, val_ok=None, skip=None, detail=""):
    """Restored mapping has exactly one entry per source item (k, v), with the
    image of v under the image of k, and nothing else.  skip: formula over the
    source's element for items that must be absent."""
    segs = nonempty_segs(cx, V_.norm_dict(cx, segs))
    key_ok = key_ok or (lambda k: is_image(cx, k, src.gens[0]))
    val_ok = val_ok or (lambda v: is_image(cx, v, src.gens[1]))
    ok = all(isinstance(s, Bulk) and s.src is src for s in segs)
    if not cx.oblige(name, ok, lambda: f"{segs} {detail}"):
        return
    n = len(cx.pc)
    for x in cx.src_facts(src):
        cx.assume(x)
    if not cx.feasible():
        del cx.pc[n:]           # the source is empty on this path
        return

    def combos(i, entries):
        if i == len(segs):
            if skip is not None:
                m = len(cx.pc)
                cx.pc.append(skip)
                if cx.feasible():
                    cx.oblige(name, len(entries) == 0, lambda: f"{entries} should be absent {detail}")
                del cx.pc[m:]
                cx.pc.append(z3.Not(skip))
                if not cx.feasible():
                    return
            if not cx.oblige(name, len(entries) == 1, lambda: f"entries {entries} for item {src.gens} {detail}"):
                return
            k, v = entries[0]
            cx.oblige(name + "-key", key_ok(k), lambda: f"key {k!r} for {src.gens[0]} {detail}")
            cx.oblige(name + "-value", val_ok(v), lambda: f"value {v!r} for {src.gens[-1]} {detail}")
            return
        rest = []
        for g, es in segs[i].alts:
            m = len(cx.pc)
            cx.pc.append(g)
            if cx.feasible():
                combos(i + 1, entries + list(es))
            del cx.pc[m:]
            rest.append(g)
        m = len(cx.pc)
        cx.pc.append(z3.Not(zor(*rest)))
        if cx.feasible():
            combos(i + 1, entries)
        del cx.pc[m:]
    combos(0, [])
    del cx.pc[n:]
