"""Run-length encoding, the payload codec and the small handlers of the pandas
extension.  What pandas itself does is assumed, one equation per class, and
covered by the bounded check."""
import ast
import base64
import zlib
import z3
from pyvc import smt, strs, interp
from pyvc.core import Infeasible
try:
    import pandas as pd
    from jsonpickle.ext import pandas as ext
except Exception:       # the harnesses then give no answer
    pd = ext = None
from .reg import harness
from .rt import *
from .h_core import both, item
from .h_std import out, back, method, made_by, agree

S, BOOL, INT = smt.S, z3.BoolSort(), z3.IntSort()


# ---- run lengths ------------------------------------------------------------------
class Invariant(V_.Val):
    """A sequence whose loop is shown by induction: the state before it
    satisfies the invariant, one step keeps it, and after the loop it holds
    for the whole sequence."""

    def op_loop(self, cx, body, env):
        self.start(cx, env)
        if cx.choose("step"):
            k = cx.fresh("k", INT)
            cx.assume(z3.And(k >= self.lo, k < self.hi))
            self.state(cx, env, k)
            try:
                body(self.elem(cx, k))
            except interp.ContinueSig:
                pass
            self.check(cx, env, k + 1)
            raise Infeasible()            # the rest of this path is the next step
        self.state(cx, env, self.hi)

    def local(self, cx, env, what, test):
        ns = [n for n, v in env.vars.items() if isinstance(v, V_.Val) and test(v)]
        if len(ns) != 1:
            raise Unsupported(f"{what}: {ns}")
        return ns[0]


class Runs(V_.Val):
    """A list of runs that together cover the first d elements."""

    def __init__(self, d): self.d, self.born = d, serial()
    def __repr__(self): return f"runs of the first {self.d}"
    def op_type(self, cx): return K(list)

    def m_append(self, cx, v):
        es = nonempty_segs(cx, v.segs) if isinstance(v, (ListV, TupV)) else ()
        if len(es) != 2 or not all(isinstance(e, One) for e in es):
            raise Unsupported(f"run {v!r}")
        c, n = V_.as_str(cx, es[0].val), V_.as_int(cx, es[1].val)
        j = z3.Int("j")
        cx.oblige("run-repeats-one-value", z3.And(n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= self.d, j < self.d + n), ty(j) == c))), lambda: f"{v!r} after {self!r}")
        cx.set(self, "d", self.d + n)
        return K(None)


ty = z3.Function("type code", INT, S)


class Codes(Invariant):
    """A list of n text codes, from lo."""

    def __init__(self, n, lo): self.lo, self.hi = lo, n
    def __repr__(self): return f"codes[{self.lo}:]"
    def op_type(self, cx): return K(list)
    def op_truth(self, cx): return self.hi > self.lo
    def op_len(self, cx): return SInt(self.hi - self.lo)
    def elem(self, cx, k): return SStr(ty(k))

    def op_getitem(self, cx, k):
        if isinstance(k, V_.SliceV) and k.hi is None and k.step is None:
            i = V_.as_int(cx, k.lo)
            if not cx.prove(z3.And(i >= 0, self.lo + i <= self.hi)):
                raise Unsupported("slice")
            return Codes(self.hi, self.lo + i)
        i = V_.as_int(cx, k)
        if not cx.prove(z3.And(i >= 0, self.lo + i < self.hi)):
            raise Unsupported("index")
        return SStr(ty(self.lo + i))

    def start(self, cx, env):
        self.runs = self.local(cx, env, "list of runs", lambda v: isinstance(v, ListV) and not v.segs)
        self.code = self.local(cx, env, "current code", lambda v: V_.is_strlike(cx, v, True))
        self.count = self.local(cx, env, "length of the current run", lambda v: isinstance(v, SInt) or isinstance(v, K) and type(v.v) is int)
        cx.setkey(env.vars, self.runs, Runs(z3.IntVal(0)))
        self.check(cx, env, self.lo)

    def inv(self, cx, d, c, n, k):
        j = z3.Int("j")
        return z3.And(d >= 0, n >= 1, d + n == k, z3.ForAll([j], z3.Implies(z3.And(j >= d, j < k), ty(j) == c)))

    def check(self, cx, env, k):
        r, c, n = (env.vars[v] for v in (self.runs, self.code, self.count))
        if not isinstance(r, Runs) or not V_.is_strlike(cx, c, True):
            raise Unsupported("loop state")
        cx.oblige("runs-cover-what-was-read", self.inv(cx, r.d, V_.as_str(cx, c), V_.as_int(cx, n), k), lambda: f"{r!r}, then {n!r} of {c!r}, at {k}")

    def state(self, cx, env, k):
        d, c, n = cx.fresh("d", INT), cx.fresh("c", S), cx.fresh("n", INT)
        cx.setkey(env.vars, self.runs, Runs(d))
        cx.setkey(env.vars, self.code, SStr(c))
        cx.setkey(env.vars, self.count, SInt(n))
        cx.assume(self.inv(cx, d, c, n, k))


@harness("pandas.rle.encode", {"C20": None})
def rle_encode(cx):
    """Each run repeats one code and the runs cover the list from its first
    element to its last."""
    n = z3.Int("length")
    cx.assume(n >= 0)
    r = interp.call_repo(cx, ext.rle_encode, [Codes(n, z3.IntVal(0))], {})
    if isinstance(r, ListV) and not r.segs:
        cx.oblige("covers-everything", n == 0)
    elif isinstance(r, Runs):
        cx.oblige("covers-everything", r.d == n, lambda: f"{r!r}")
    else:
        raise Unsupported(f"{r!r}")


run_code = z3.Function("run code", INT, S)
run_len = z3.Function("run length", INT, INT)
run_at = z3.Function("run start", INT, INT)


class Count(SInt):
    def op_rbinop(self, cx, op, a):
        es = nonempty_segs(cx, a.segs) if isinstance(a, ListV) else ()
        if op is not ast.Mult or len(es) != 1 or not isinstance(es[0], One):
            return NotImplemented
        return Repeat(es[0].val, self)


class Repeat(V_.Val):
    def __init__(self, v, n): self.v, self.n = v, n
    def op_type(self, cx): return K(list)


class Decoded(V_.Val):
    """A list holding the codes of the runs up to some run."""
    def __init__(self, k): self.k, self.born = k, serial()
    def __repr__(self): return f"codes of the first {self.k} runs"
    def op_type(self, cx): return K(list)

    def m_extend(self, cx, v):
        if not isinstance(v, Repeat):
            raise Unsupported(f"extend by {v!r}")
        cx.oblige("run-repeated-as-often-as-it-says", z3.And(V_.as_str(cx, v.v) == run_code(self.k), v.n.i == run_len(self.k)), lambda: f"{v.n!r} times {v.v!r}")
        cx.set(self, "k", self.k + 1)
        return K(None)


class RunList(Invariant):
    def __init__(self, n): self.lo, self.hi = z3.IntVal(0), n
    def op_type(self, cx): return K(list)
    def op_truth(self, cx): return self.hi > 0
    def op_len(self, cx): return SInt(self.hi)

    def elem(self, cx, k):
        cx.assume(run_len(k) >= 1)
        return ListV([One(SStr(run_code(k))), One(Count(run_len(k)))])

    def start(self, cx, env):
        self.name = self.local(cx, env, "result", lambda v: isinstance(v, ListV) and not v.segs)
        cx.setkey(env.vars, self.name, Decoded(z3.IntVal(0)))

    def check(self, cx, env, k):
        r = env.vars[self.name]
        cx.oblige("runs-decoded-in-order", isinstance(r, Decoded) and r.k == k, lambda: f"{r!r} at {k}")

    def state(self, cx, env, k):
        cx.setkey(env.vars, self.name, Decoded(k))


@harness("pandas.rle.decode", {"C20": None})
def rle_decode(cx):
    """Decoding gives, run after run, the code as often as the run says."""
    n = z3.Int("runs")
    cx.assume(n >= 0)
    r = interp.call_repo(cx, ext.rle_decode, [RunList(n)], {})
    if isinstance(r, ListV) and not r.segs:
        cx.oblige("every-run-decoded", n == 0)
    elif isinstance(r, Decoded):
        cx.oblige("every-run-decoded", r.k == n, lambda: f"{r!r}")
    else:
        raise Unsupported(f"{r!r}")


# ---- the payload codec --------------------------------------------------------------
utf8 = z3.Function("utf8", S, V)
packed = z3.Function("packed", V, V)


class Raw(V_.Val):
    """Some bytes."""
    def __init__(self, t): self.t = t
    def __repr__(self): return f"bytes {self.t}"
    def op_type(self, cx): return K(bytes)
    def term(self, cx): return self.t

    def m_decode(self, cx, *a):
        cx.oblige("text-decoded-from-its-own-bytes", a_of(self.t, utf8), lambda: f"{self!r}")
        return SStr(self.t.arg(0) if a_of(self.t, utf8) else cx.fresh("text", S))


def a_of(t, f):
    return z3.is_app(t) and t.decl().name() == f.name()


def codec_models(cx):
    m = cx.hooks.setdefault("models", {})
    cx.hooks["str_encode"] = lambda cx, s: Raw(utf8(s.s))

    def enc(cx, a, k):
        if not isinstance(a[0], Raw):
            raise Unsupported(f"base encoding of {a[0]!r}")
        return AsciiBytes(b64s(a[0].t))

    def dec(cx, a, k):
        s = V_.as_str(cx, a[0])
        if not a_of(s, b64s):
            raise Unsupported("base decoding of other text")
        return Raw(s.arg(0))
    m[id(zlib.compress)] = lambda cx, a, k: Raw(packed(a[0].t))
    m[id(zlib.decompress)] = unpack
    m[id(base64.b64encode)] = enc
    m[id(base64.b64decode)] = dec


def unpack(cx, a, k):
    cx.oblige("decompresses-what-was-compressed", a_of(a[0].t, packed), lambda: f"{a[0]!r}")
    return Raw(a[0].t.arg(0)) if a_of(a[0].t, packed) else Raw(cx.fresh("garbage", V))


def compression(cx, none=True):
    """A compression module (or none); decompress is its inverse."""
    if none and cx.choose("no compression"):
        return K(None)
    sp = Spec()

    def pack(cx, a, k):
        return Raw(packed(a[0].t))

    sp.attrs.update(compress=ModelFn("compress", pack), decompress=ModelFn("decompress", unpack))
    x = item(cx, "compression", type(base64))
    x.spec = sp
    cx.assumption("the compression module's decompress inverts its compress; base64 and UTF-8 decoding invert encoding")
    return x


def processor(cx, what="size threshold"):
    th = K(None) if cx.choose("no threshold") else SInt(z3.Int(what))
    return interp.construct(cx, ext.PandasProcessor, [th, compression(cx)], {})


@harness("pandas.codec", {"C20": None, "C07": ("output-is-json",)})
def codec(cx):
    """Any text payload and metadata come back, whatever the threshold and
    compression, after a copy through JSON."""
    codec_models(cx)
    pp = processor(cx)
    buf = SStr(z3.Const("text", S))
    meta = DictV([One((K("m"), JTok(z3.Const("meta", V))))])
    data = DictV([One((K(tags.OBJECT), SStr(z3.Const("name", S))))])
    j = interp.call(cx, pp.op_getattr(cx, "flatten_pandas"), [buf, data, meta])
    r = interp.call(cx, pp.op_getattr(cx, "restore_pandas"), [jsoncopy(cx, j)])
    es = nonempty_segs(cx, r.segs) if isinstance(r, TupV) else ()
    if not cx.oblige("gives-text-and-metadata", len(es) == 2, lambda: f"{r!r}"):
        return
    b, m = es[0].val, es[1].val
    cx.oblige("text-restored", V_.is_strlike(cx, b, True) and V_.as_str(cx, b) == buf.s, lambda: f"{b!r}")
    got = m.op_getitem(cx, K("m")) if isinstance(m, DictV) else m
    cx.oblige("metadata-restored", isinstance(got, JTok) and got.t == z3.Const("meta", V), lambda: f"{m!r}")


# ---- the handlers ---------------------------------------------------------------------
def registered(cx):
    """(class, handler, base) as the registration function gives them."""
    log = []

    def reg(cx, a, k):
        c, h = a[0].conc(), a[1].conc()
        b = k["base"].conc() if "base" in k else a[2].conc() if len(a) > 2 else False
        log.append((c, h, b))
        return K(None)
    cx.globals_over[(ext.__name__, "register")] = ModelFn("register", reg)
    cx.globals_over[(ext.__name__, "register_numpy_handlers")] = ModelFn("numpy", lambda cx, a, k: K(None))
    interp.call_repo(cx, ext.register_handlers, [], {})
    return log


def handler_for(cx, cls):
    """The handler a lookup of the class finds."""
    log = registered(cx)
    for c, h, b in reversed(log):
        if c is cls:
            return h
    for b in cls.__mro__:
        for c, h, base in log:
            if c is b and base:
                return h
    cx.oblige("registered", False, lambda: f"nothing for {cls.__name__}")
    raise Infeasible()


KINDS = ("DataFrame", "Series", "Index", "RangeIndex", "DatetimeIndex", "PeriodIndex", "MultiIndex", "Timestamp", "Period", "Interval")


@harness("pandas.registered", {"C20": None, "C15": None})
def registration(cx):
    """Every kind has a handler, and unregistering names every class that was
    registered."""
    log = registered(cx)
    for n in KINDS:
        handler_for(cx, getattr(pd, n))
    gone = []

    def unreg(cx, a, k):
        gone.append(a[0].conc())
        return K(None)
    cx.globals_over[(ext.__name__, "unregister")] = ModelFn("unregister", unreg)
    cx.globals_over[(ext.__name__, "unregister_numpy_handlers")] = ModelFn("numpy", lambda cx, a, k: K(None))
    interp.call_repo(cx, ext.unregister_handlers, [], {})
    cx.oblige("registered", bool(log))
    cx.oblige("unregisters-what-was-registered", set(c for c, _, _ in log) == set(gone), lambda: f"{log} {gone}")


textof = z3.Function("encoded", V, BOOL, S)


def nested_codec(cx):
    """encode and decode, used inside the handlers on whole values: decode
    gives the value back when called with the same key option (C01 to C06)."""
    vals = {}

    def keys(k):
        b = k.get("keys", K(False)).conc()
        if set(k) - {"keys"} or not isinstance(b, bool):
            raise Unsupported("options of a nested encode or decode")
        return z3.BoolVal(b)

    def enc(cx, a, k):
        v = a[0]
        t = textof(v.term(cx) if hasattr(v, "term") else z3.Const("list of " + repr(v), V), keys(k))
        vals[t.get_id()] = (t, v)
        return SStr(t)

    def dec(cx, a, k):
        t = V_.as_str(cx, a[0])
        b = keys(k)
        for u, v in vals.values():
            if cx.prove(u == t):
                cx.oblige("decoded-with-the-option-it-was-encoded-with", u.arg(1).eq(b))
                return v
        raise Unsupported("nested decode of other text")
    cx.contracts["jsonpickle.pickler.encode"] = enc
    cx.contracts["jsonpickle.unpickler.decode"] = dec


def pandas_trip(cx, cls, attrs, ctor, eqn):
    """The constructor call the handler of cls makes of what its flatten
    wrote, and whether its result is what comes back."""
    w = both(cx)
    codec_models(cx)
    nested_codec(cx)
    h = handler_for(cx, cls)
    x = item(cx, "x", cls)
    x.spec = Spec()
    j, data = out(cx, w, h, x, attrs)
    log, res = [], Sym(z3.Const("result", V))
    made_by(cx, ctor, log, res)
    cx.assumption(eqn)
    r = back(cx, w, h, j)
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")
    if not cx.oblige("made-once", len(log) == 1, lambda: f"{log}"):
        raise Infeasible()
    agree(cx, w)
    return w, x, log[0]


def arg(call, i, name):
    """Argument by position or by name."""
    a, k = call
    return a[i] if len(a) > i else k.get(name, K(None))


P20 = {"C20": None, "C07": ("output-is-json",), "C02": ("reference",)}


@harness("pandas.timestamp", P20)
def timestamp(cx):
    iso = SStr(z3.Const("isoformat", S))
    w, x, c = pandas_trip(cx, pd.Timestamp, {"isoformat": method("isoformat", iso)}, pd.Timestamp, "pandas.Timestamp(t.isoformat()) equals t")
    cx.oblige("made-from-its-text", cx_eq(cx, arg(c, 0, "ts_input"), iso), lambda: f"{c}")
    cx.oblige("nothing-else-given", len(c[0]) + len(c[1]) == 1, lambda: f"{c}")


@harness("pandas.period", P20)
def period(cx):
    st, fr = item(cx, "start_time"), SStr(z3.Const("freqstr", S))
    w, x, c = pandas_trip(cx, pd.Period, {"start_time": st, "freqstr": fr}, pd.Period, "pandas.Period(p.start_time, p.freqstr) equals p")
    cx.oblige("start-restored", cx_is(cx, arg(c, 0, "value"), st), lambda: f"{c}")
    cx.oblige("frequency-restored", cx_eq(cx, arg(c, 1, "freq"), fr), lambda: f"{c}")


@harness("pandas.interval", P20)
def interval(cx):
    l, r = item(cx, "left"), item(cx, "right")
    closed = SStr(z3.Const("closed", S))
    w, x, c = pandas_trip(cx, pd.Interval, {"left": l, "right": r, "closed": closed}, pd.Interval, "pandas.Interval(i.left, i.right, i.closed) equals i")
    cx.oblige("bounds-restored", zand(cx_is(cx, arg(c, 0, "left"), l), cx_is(cx, arg(c, 1, "right"), r)), lambda: f"{c}")
    cx.oblige("closed-sides-restored", cx_eq(cx, arg(c, 2, "closed"), closed), lambda: f"{c}")


@harness("pandas.series", P20)
def series(cx):
    idx, vals, name = item(cx, "index"), item(cx, "values"), item(cx, "name")
    for v in (idx, vals, name):
        cx.assume(z3.Not(isproxy(v.t)))
    w, x, c = pandas_trip(cx, pd.Series, {"index": idx, "values": vals, "name": name}, pd.Series, "pandas.Series(s.values, s.index, name=s.name) equals s")
    cx.oblige("values-restored", is_image(cx, arg(c, 0, "data"), vals.t), lambda: f"{c}")
    cx.oblige("index-restored", is_image(cx, arg(c, 1, "index"), idx.t), lambda: f"{c}")
    n = arg(c, 3, "name")
    cx.oblige("name-restored", is_image(cx, n, name.t), lambda: f"{c}")


def index(cls, ctor):
    def h(cx):
        vals = Sym(z3.Const("list of its values", V))
        dtype = item(cx, "dtype")
        dt = z3.Function("str()", V, S)(dtype.t)
        name = SStr(z3.Const("name", S))
        attrs = {"tolist": method("tolist", vals), "dtype": dtype}
        if cls == "MultiIndex":
            attrs["names"] = ListV([One(name), One(K(None))])
        else:
            attrs["name"] = name
        c0 = getattr(pd, cls)
        w, x, c = pandas_trip(cx, c0, attrs, getattr(pd, ctor), f"pandas.{ctor}(i.tolist(), dtype=str(i.dtype), name=i.name) equals i")
        cx.oblige("values-restored", cx_is(cx, arg(c, 0, "data"), vals), lambda: f"{c}")
        cx.oblige("dtype-restored", cx_eq(cx, c[1].get("dtype", K(None)), SStr(dt)), lambda: f"{c}")
        n = c[1].get("name", K(None))
        if cls == "MultiIndex":
            es = nonempty_segs(cx, n.segs) if isinstance(n, TupV) else ()
            cx.oblige("name-restored", zand(len(es) == 2, cx_eq(cx, es[0].val, name) if es else False, isinstance(es[1].val, K) and es[1].val.v is None if len(es) == 2 else False), lambda: f"{c}")
        else:
            cx.oblige("name-restored", cx_eq(cx, n, name), lambda: f"{c}")
    return h


for _n, _c in (("Index", "Index"), ("DatetimeIndex", "Index"), ("PeriodIndex", "PeriodIndex"), ("MultiIndex", "Index")):
    harness(f"pandas.index.{_n}", P20)(index(_n, _c))
