"""Round trip of builtin values: real encoder, JSON, real decoder."""
import types
import z3
from pyvc import smt, strs
from .reg import harness
from .rt import *


def seen0(t):
    return z3.Function("seen0", V, z3.BoolSort())(t)


def data_value(cx, v):
    """The value is not a class, function, method: those are not stored as
    dict values or attributes by design."""
    fs = [z3.Not(cx.L.sub(typeof(v), c)) for c in (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType)]
    fs.append(z3.Not(strs.prefix(strs.sval("<cyfunction "), smt.repr_of(v))))
    return fs


def plain_key(cx, k):
    """An exact str that is no tag and does not look like an encoded key."""
    return [typeof(k) == cx.L.tconst(str), z3.Not(isproxy(k)),
            z3.And(*[str_of(k) != strs.sval(t) for t in sorted(tags.RESERVED)]),
            z3.Not(strs.prefix(strs.sval(tags.JSON_KEY), str_of(k)))]


def item(cx, name="x", cls=None):
    x = Sym(z3.Const(name, V))
    cx.assume(alloc(x.t) <= 0)
    if cls is not None:
        set_exact(cx, x, cls)
    return x


def options(*names):
    return {n: SBool(z3.Bool(f"opt:{n}")) for n in names}


def popts(**more):
    d = options("keys", "use_base85", "warn", "handle_readonly_x")
    d.pop("handle_readonly_x")
    d.update(more)
    return d


def both(cx, popt=None, uopt=None):
    """A world with symbolic keys / use_base85 / warn options."""
    p = popts()
    u = {"keys": p["keys"]}
    p.update(popt or {})
    u.update(uopt or {})
    return World(cx, p, u)


def trip(cx, w, x):
    j = w.flatten(x)
    jj = jsoncopy(cx, j)
    r = w.restore(jj)
    w.swap()
    return j, r


def reference(cx, w, x, r):
    """The outcome for an object that was already met: a reference to it, and
    only then; nothing is registered."""
    cx.oblige("reference-only-if-met-before", seen0(x.t))
    cx.oblige("reference-to-itself", r.t == x.t)
    cx.oblige("reference-numbers-agree", not nonempty_segs(cx, w.plog.segs) and not nonempty_segs(cx, w.ulog.segs),
              "a reference registers nothing")


@harness("core.scalar", {"C01": None, "C07": ("output-is-json",), "C09": ("scalar-",), "C02": ("reference-numbers",)})
def scalar(cx):
    w = World(cx, dict(popts(), **options("unpicklable", "make_refs", "numeric_keys"), max_depth=Sym(z3.Const("max_depth", V))), {"keys": SBool(z3.Bool("opt:keys"))})
    x = item(cx)
    cx.assume(z3.Or(*[typeof(x.t) == cx.L.tconst(c) for c in (str, int, bool, float, type(None))]))
    w.P.fields["_flattened"] = DictV([NoHit("cache")])
    j = w.flatten(x)
    cx.oblige("scalar-flattens-to-itself", cx_is(cx, j, x), lambda: f"{j!r}")
    r = w.restore(jsoncopy(cx, j))
    cx.oblige("scalar-restores-to-itself", cx_is(cx, r, x), lambda: f"{r!r}")
    cx.oblige("reference-numbers-agree", not w.plog.segs and not w.ulog.segs)


class NoHit(Opaque):
    """Unknown content of the flattened-object cache: a lookup of a scalar
    gives the scalar (cache invariant) or misses."""
    __slots__ = ()

    def find(self, cx, key):
        t = ident_arg(key)
        if t is None:
            raise Unsupported("cache lookup by non-id")
        if cx.decide(z3.Function("cached0", V, z3.BoolSort())(t)):
            return Sym(t)
        return None


@harness("core.bytes", {"C01": None, "C07": ("output-is-json",), "C02": ("reference-numbers",)})
def bytes_(cx):
    w = both(cx)
    x = item(cx, cls=bytes)
    j, r = trip(cx, w, x)
    cx.oblige("bytes-restored", isinstance(r, Sym) and r.t == x.t, lambda: f"{r!r}")
    cx.oblige("reference-numbers-agree", not w.plog.segs and not w.ulog.segs)


@harness("core.bytearray", {"C01": None, "C07": ("output-is-json",), "C02": ("reference-numbers",)})
def bytearray_(cx):
    w = both(cx)
    x = item(cx, cls=bytearray)
    j, r = trip(cx, w, x)
    cx.oblige("bytearray-restored", isinstance(r, Sym) and r.t == bytearray_of(bytes_of(x.t)), lambda: f"{r!r}")
    cx.oblige("reference-numbers-agree", not w.plog.segs and not w.ulog.segs)


@harness("core.list", {"C01": ("class", "elements", "output"), "C02": ("reference", "elements", "ids", "class"), "C07": ("output-is-json",),
                       "C11": ("input-not-mutated", "reference-numbers")})
def list_(cx):
    w = both(cx)
    x = item(cx, cls=list)
    j, r = trip(cx, w, x)
    if isinstance(r, RTok):
        return reference(cx, w, x, r)
    cx.oblige("reference-iff-met-before", z3.Not(seen0(x.t)))
    if not cx.oblige("class", isinstance(r, ListV) and r.pytype is list, lambda: f"{r!r}"):
        return
    seq_same(cx, r.segs, cx.src("elems", x.t), "elements")
    logs_agree(cx, w, lambda a, b: a.t == x.t if b is r else False)


def tupset(cls):
    def h(cx):
        w = both(cx)
        x = item(cx, cls=cls)
        # members of immutable or hashed containers are not placeholders
        cx.hooks["elemfacts"] = lambda g: [z3.Not(isproxy(g[0]))]
        j, r = trip(cx, w, x)
        ok = isinstance(r, (TupV if cls is tuple else SetV)) and r.pytype is cls
        if not cx.oblige("class", ok, lambda: f"{r!r}"):
            return
        seq_same(cx, r.segs, cx.src("elems", x.t), "elements")
        logs_agree(cx, w, lambda a, b: False)
    return h


for c in (tuple, set):
    harness(f"core.{c.__name__}", {"C01": ("class", "elements", "output"), "C02": ("reference",), "C07": ("output-is-json",)})(tupset(c))


def dict_(keys):
    def h(cx):
        o = options("use_base85", "warn", "numeric_keys")
        w = World(cx, dict(o, keys=K(keys)), {"keys": K(keys)})
        x = item(cx)

        def facts(g):
            k, v = g
            return data_value(cx, v) + plain_key(cx, k)
        cx.hooks["itemfacts"] = facts
        set_exact(cx, x, dict)
        j, r = trip(cx, w, x)
        if isinstance(r, RTok):
            return reference(cx, w, x, r)
        cx.oblige("reference-iff-met-before", z3.Not(seen0(x.t)))
        if not cx.oblige("class", isinstance(r, DictV) and r.pytype is dict, lambda: f"{r!r}"):
            return
        map_same(cx, r.segs, cx.src("items", x.t, 2), "items")
        logs_agree(cx, w, lambda a, b: a.t == x.t if b is r else False)
    return h


DICT = {"C01": ("class", "items", "output"), "C02": ("reference", "items", "ids", "class"), "C07": ("output-is-json",), "C11": ("input-not-mutated",)}
harness("core.dict.string-keys", DICT)(dict_(False))
harness("core.dict.string-keys.keys-on", dict(DICT, C05=("class", "items", "output")))(dict_(True))


@harness("core.dict.any-keys", {"C05": None, "C02": ("reference", "items", "ids"), "C07": ("output-is-json",)}, timeout=160)
def dict_any(cx):
    o = options("use_base85", "warn")
    w = World(cx, dict(o, keys=K(True)), {"keys": K(True)})
    x = item(cx)

    def facts(g):
        k, v = g
        return data_value(cx, v) + [z3.Not(isproxy(k)), z3.Implies(cx.L.sub(typeof(k), str), typeof(k) == cx.L.tconst(str))]
    cx.hooks["itemfacts"] = facts
    set_exact(cx, x, dict)
    j, r = trip(cx, w, x)
    if isinstance(r, RTok):
        return reference(cx, w, x, r)
    if not cx.oblige("class", isinstance(r, DictV) and r.pytype is dict, lambda: f"{r!r}"):
        return
    map_same(cx, r.segs, cx.src("items", x.t, 2), "items")
    logs_agree(cx, w, lambda a, b: a.t == x.t if b is r else False)


@harness("core.dict.keys-off", {"C05": None, "C07": ("output-is-json",)})
def dict_off(cx):
    """Keys that are not text become text; distinct keys with distinct texts."""
    o = options("use_base85", "warn", "unpicklable")
    w = World(cx, dict(o, keys=K(False)), {})
    x = item(cx)
    text = lambda k: cx.L.sub(typeof(k), str)

    def facts(g):
        k, v = g
        return data_value(cx, v) + [z3.Not(isproxy(k)), z3.Implies(text(k), z3.And(*plain_key(cx, k)))]
    cx.hooks["itemfacts"] = facts
    set_exact(cx, x, dict)
    cx.assume(z3.Not(seen0(x.t)))
    j = w.flatten(x)
    if not cx.oblige("output-is-json", isinstance(j, DictV), lambda: f"{j!r}"):
        return
    src = cx.src("items", x.t, 2)
    k = src.gens[0]
    want = z3.If(k == NONE, strs.sval("null"), z3.If(text(k), str_of(k), smt.repr_of(k)))

    def key(v):
        cx.oblige("output-is-json-key", V_.is_strlike(cx, v, True), lambda: f"{v!r}")
        return V_.as_str(cx, v) == want
    map_same(cx, j.segs, src, "items", key_ok=key, val_ok=lambda v: isinstance(v, JTok) and v.t == src.gens[1])
