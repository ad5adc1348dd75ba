"""Decoding documents the encoder did not write.

The document is one tag with an arbitrary JSON payload.  A nested JSON value
is unknown; the contract of the recursive call on it is that it returns some
value (any value at all, hashable or not) and does not raise.
"""
import z3
from pyvc import smt, interp
from .reg import harness
from .rt import *
from .h_core import item, options

JSON = (type(None), bool, int, float, str, list, dict)
restored = z3.Function("restored", V, V)
unhashable = z3.Function("unhashable", V, z3.BoolSort())


class Doc:
    """A decoder in the middle of a document, with any options."""

    def __init__(self, cx, **uopts):
        self.cx = cx
        o = dict(options("keys", "safe", "v1_decode"), on_missing=K("ignore"))
        o.update(uopts)
        w = self.w = World(cx, {}, o)
        self.U = w.U

        def restore(cx, a, k):
            j = a[1]
            if isinstance(j, Sym):
                w.ulog.add(cx, "CALL", j)
                return Sym(restored(j.t))
            return NotImplemented
        cx.contracts["jsonpickle.unpickler.Unpickler._restore"] = restore
        cx.hooks["hash"] = unhash
        cx.hooks["str_encode"] = encode
        cx.hooks["decode_payload"] = payload_bytes
        cx.hooks["reflist_getitem"] = earlier

    def restore(self, j):
        return self.w.restore(j)


def unhash(cx, v):
    if isinstance(v, (ListV, DictV, SetV)):
        raise_py(cx, TypeError, "unhashable type")
    if isinstance(v, Sym) and cx.decide(unhashable(v.t)):
        raise_py(cx, TypeError, "unhashable type")


def encode(cx, s):
    if cx.choose("lone surrogate"):
        raise PyExc(ExcV(UnicodeEncodeError, [K("utf-8"), K(""), K(0), K(1), K("surrogates not allowed")]))
    return BytesOfStr(s.s)


def payload_bytes(cx, fn, s, exc):
    """Any text: undecodable, or decoded to some bytes."""
    if cx.choose("undecodable"):
        cx.ghost["undecodable"] = True
        raise_py(cx, exc, "undecodable")
    r = cx.fresh("garbage", V)
    cx.assume(typeof(r) == cx.L.tconst(bytes))
    return Sym(r)


def earlier(cx, l, k):
    """self._objs[k] for any JSON value k."""
    if not isinstance(k, Sym):
        raise Unsupported(f"index {k!r}")
    c = exact_of(cx, k)
    if c not in (int, bool):
        raise_py(cx, TypeError, "list indices must be integers or slices")
    i, n = V_.as_int(cx, k), l.op_len(cx).i
    if cx.decide(z3.Or(i >= n, i < -n)):
        raise_py(cx, IndexError, "list index out of range")
    return Sym(z3.Function("earlier", V, V)(k.t))


def payload(cx, *types):
    p = item(cx, "payload")
    c = cx.pick("payload type", list(types or JSON))
    set_exact(cx, p, c)
    return p, c


def doc(tag, p):
    return DictV([One((K(tag), p))])


WRONG = (type(None), bool, int, float)


def numbers(cx, d, n, r=None):
    """A malformed entry takes as many reference numbers as its valid form,
    and a reference to it gives what stands for it."""
    segs = list(d.w.ulog.segs)
    regs = [s for s in segs if not isinstance(s, One) or s.val[0] == "REG"]
    cx.oblige("takes-as-many-numbers", len(regs) == n and regs == segs[:n], lambda: f"{d.w.ulog}")
    if r is not None:
        es = d.w.list.entries
        cx.oblige("reference-gives-it", len(es) == 1 and es[0][1] is r, lambda: f"{es}")


def seqlike(tag, kind):
    def h(cx):
        d = Doc(cx)
        p, c = payload(cx)
        r = d.restore(doc(tag, p))
        if kind is iter:
            ok = isinstance(r, IterV)
            segs = r.segs if ok else None
        else:
            ok = isinstance(r, (TupV if kind is tuple else SetV)) and r.pytype is kind
            segs = r.segs if ok else None
        if not cx.oblige("kind", ok, lambda: f"{c.__name__} payload gives {r!r}"):
            return
        if c in WRONG:
            cx.oblige("empty-on-wrong-type", not nonempty_segs(cx, segs), lambda: f"{c.__name__} payload gives {r!r}")
            numbers(cx, d, 1 if kind is iter else 0)
    return h


harness("doc.tuple", {"C13": None})(seqlike(tags.TUPLE, tuple))
harness("doc.set", {"C13": None})(seqlike(tags.SET, set))
harness("doc.iterator", {"C13": None})(seqlike(tags.ITERATOR, iter))


def is_bytes(cx, r, cls):
    if isinstance(r, K):
        return type(r.v) is cls
    return isinstance(r, Sym) and cx.prove(typeof(r.t) == cx.L.tconst(cls))


def empty(r, cls):
    return isinstance(r, K) and type(r.v) is cls and len(r.v) == 0


def binary(tag):
    def h(cx):
        d = Doc(cx)
        p, c = payload(cx)
        r = d.restore(doc(tag, p))
        cx.oblige("kind", is_bytes(cx, r, bytes), lambda: f"{c.__name__} payload gives {r!r}")
        if c is not str or cx.ghost.get("undecodable"):
            cx.oblige("empty-on-wrong-payload", empty(r, bytes), lambda: f"{c.__name__} payload gives {r!r}")
            numbers(cx, d, 0)
    return h


harness("doc.base64", {"C13": None})(binary(tags.B64))
harness("doc.base85", {"C13": None})(binary(tags.B85))


@harness("doc.bytearray", {"C13": None})
def bytearray_(cx):
    d = Doc(cx)
    kind = cx.pick("payload kind", ["other", tags.B64, tags.B85])
    if kind == "other":
        p, c = payload(cx, *[t for t in JSON if t is not dict])
        j = doc(tags.BYTEARRAY, p)
    else:
        p, c = payload(cx)
        j = doc(tags.BYTEARRAY, doc(kind, p))
    r = d.restore(j)
    cx.oblige("kind", is_bytes(cx, r, bytearray), lambda: f"{r!r}")
    if kind == "other" or c is not str or cx.ghost.get("undecodable"):
        cx.oblige("empty-on-wrong-payload", empty(r, bytearray), lambda: f"{kind} {c.__name__}: {r!r}")
        numbers(cx, d, 0)


@harness("doc.id", {"C13": None})
def id_(cx):
    d = Doc(cx)
    p, c = payload(cx)
    r = d.restore(doc(tags.ID, p))
    numbers(cx, d, 0)
    if c is not int:
        cx.oblige("none-on-wrong-type", isinstance(r, K) and r.v is None, lambda: f"{c.__name__}: {r!r}")
        return
    cx.oblige("none-below-zero", zor(V_.as_int(cx, p) >= 0, isinstance(r, K) and r.v is None), lambda: f"{r!r}")
    if isinstance(r, InstV):
        # a placeholder: asking it for its value gives an object or None
        cx.oblige("placeholder", cx.prove(r.op_isinstance(cx, U._Proxy)), lambda: f"{r!r}")
        d.w.ulog.add(cx, "CALL", p)      # the rest of the document
        v = interp.call(cx, r.op_getattr(cx, "get"), [])
        ok = isinstance(v, K) and v.v is None or isinstance(v, Sym)
        cx.oblige("dangling-reference-gives-none", ok, lambda: f"{v!r}")
        return
    cx.oblige("registered-object-or-none", isinstance(r, K) and r.v is None or isinstance(r, Sym), lambda: f"{r!r}")


@harness("doc.reduce", {"C13": None})
def reduce_(cx):
    d = Doc(cx)
    kind = cx.pick("payload kind", ["number", "empty", "uncallable"])
    if kind == "number":
        p, c = payload(cx, *WRONG)
    elif kind == "empty":
        p = ListV()
    else:
        n = cx.pick("length", [1, 2, 3, 4, 5, 6])
        xs = [item(cx, f"x{i}") for i in range(n)]
        f = restored(xs[0].t)
        name = z3.Function("attr:__name__", V, V)(f)
        cx.assume(z3.Not(z3.Function("callable", V, z3.BoolSort())(f)))
        # the marker that stands for cls.__new__ is not a malformed callable
        cx.assume(z3.Not(z3.And(cx.L.sub(typeof(f), str), str_of(f) == smt.sval(tags.NEWOBJ))))
        cx.assume(z3.Not(z3.And(cx.L.sub(typeof(name), str), str_of(name) == smt.sval("__newobj__"))))
        p = ListV([One(x) for x in xs])
    r = d.restore(doc(tags.REDUCE, p))
    cx.oblige("empty-list", isinstance(r, ListV) and not nonempty_segs(cx, r.segs), lambda: f"{kind}: {r!r}")
    numbers(cx, d, 1, r)
