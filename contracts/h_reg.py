"""The handler registry, from an arbitrary earlier history.

The state is related to a specification by an invariant: every class has at
most one handler, found under the class and under its name, and there is a set
of (class, handler) pairs registered for subclasses.  Each operation is shown
to keep the invariant and to change the specification as it should."""
import z3
from pyvc import smt, strs
from .reg import harness
from .rt import *

hasH = z3.Function("registered", T, z3.BoolSort())
H = z3.Function("handler_of", T, V)
hasN = z3.Function("name_registered", smt.S, z3.BoolSort())
N = z3.Function("handler_of_name", smt.S, V)
cls_of = z3.Function("class_value", V, T)
SUB = z3.Function("subcls", T, T, z3.BoolSort())


class Prior(Opaque):
    """Earlier registrations: unknown but consistent between a class and its name."""
    __slots__ = ()

    def find(self, cx, key):
        if isinstance(key, TypeV):
            cx.L.bg(("reg", key.t.get_id()), hasH(key.t) == hasN(tname(key.t)), H(key.t) == N(tname(key.t)), H(key.t) != NONE)
            return Sym(H(key.t)) if cx.decide(hasH(key.t)) else None
        if V_.is_strlike(cx, key, True):
            s = V_.as_str(cx, key)
            return Sym(N(s)) if cx.decide(hasN(s)) else None
        raise Unsupported(f"registry lookup of {key!r}")


def registry(cx):
    r = interp.construct(cx, handlers.Registry, [], {})
    cx.contracts["jsonpickle.util.importable_name"] = importable_name
    names = sorted(r.fields)
    if names != ["_base_handlers", "_handlers"]:
        raise Unsupported(f"registry fields {names}")
    r.fields["_handlers"] = DictV([Prior("earlier")])
    src = cx.src("bases", z3.Const("registry", V), 2, lambda g: [g[1] != NONE])
    r.fields["_base_handlers"] = DictV([Bulk(src, [(BT, ((TypeV(cls_of(src.gens[0])), Sym(src.gens[1])),))])])
    return r, src


def cls(name):
    return TypeV(z3.Const(name, T))


def handler(cx, name):
    h = Sym(z3.Const(name, V))
    cx.assume(h.t != NONE)
    return h


def do(cx, r, name, *a, **k):
    return interp.call(cx, r.op_getattr(cx, name), list(a), k)


def spec_get(cx, r, src, d, change=None):
    """get() of the arbitrary class d and of its name agrees with the
    specification after the change (class, handler or None, base flag)."""
    dflt = Sym(z3.Const("default", V))
    cx.assume(dflt.t != NONE)
    for label, key in (("class", d), ("name", SStr(tname(d.t)))):
        got = do(cx, r, "get", key, dflt)
        direct_has, direct = hasH(d.t), H(d.t)
        cx.L.bg(("reg", d.t.get_id()), hasH(d.t) == hasN(tname(d.t)), H(d.t) == N(tname(d.t)), H(d.t) != NONE)
        if change is not None:
            c, h, base = change
            direct_has = z3.If(d.t == c.t, z3.BoolVal(h is not None), direct_has)
            if h is not None:
                direct = z3.If(d.t == c.t, h.t, direct)
        g = got.term(cx)
        cx.oblige(f"direct-registration-wins-{label}", z3.Implies(direct_has, g == direct), lambda: f"get({label}) = {got!r}")
        if label == "name":
            cx.oblige("unknown-name-gives-default", z3.Implies(z3.Not(direct_has), g == dflt.t), lambda: f"{got!r}")
            continue
        # neither direct nor default: a base registration of a superclass
        n = len(cx.pc)
        cx.pc.append(z3.Not(direct_has))
        if cx.feasible():
            # the engine returns the handler of a witness element or the default
            if isinstance(got, Sym) and got.t.eq(dflt.t):
                # no base entry may match
                sk = [z3.substitute(f, *[(x, z3.Const(f"any{i}", V)) for i, x in enumerate(src.gens)]) for f in cx.src_facts(src)]
                k = z3.Const("any0", V)
                live = kept(k, change)
                cx.oblige("base-registration-found", z3.Not(z3.And(*sk, live, SUB(d.t, cls_of(k)))), "default returned although a superclass has a base handler")
                if change is not None and change[1] is not None:
                    c, h, base = change
                    cx.oblige("base-registration-found", z3.Not(z3.And(base, SUB(d.t, c.t))), "default returned although a superclass has a base handler")
            elif change is not None and change[1] is not None and isinstance(got, Sym) and got.t.eq(change[1].t):
                c, h, base = change
                cx.oblige("base-handler-only-for-subclasses", z3.And(base, SUB(d.t, c.t)), lambda: f"{got!r}")
            else:
                w = owner_of(cx, src, got)
                ok = z3.BoolVal(False)
                if w is not None:
                    ok = SUB(d.t, cls_of(w))
                    ok = z3.And(ok, kept(w, change))
                cx.oblige("base-handler-only-for-subclasses", ok, lambda: f"{got!r}")
        del cx.pc[n:]


def kept(k, change):
    """The earlier base registration of k's class is still in force: it ends
    when the class is unregistered or registered again for subclasses."""
    if change is None:
        return z3.BoolVal(True)
    c, h, base = change
    other = cls_of(k) != c.t
    return other if h is None else z3.Or(other, z3.Not(base))


def owner_of(cx, src, got):
    """Key of the witness whose value got is."""
    for key, m in cx.exists_memo.items():
        if m and key[0] == src.key:
            d = dict((a.get_id(), b) for a, b in m)
            if d[src.gens[1].get_id()].eq(got.t):
                return d[src.gens[0].get_id()]
    return None


def named(cx, *cs):
    """Different classes have different names."""
    cx.assumption("different classes have different qualified names")
    for a in cs:
        for b in cs:
            if a is not b:
                cx.assume((tname(a.t) == tname(b.t)) == (a.t == b.t))


@harness("registry.get", "C15")
def get(cx):
    r, src = registry(cx)
    spec_get(cx, r, src, cls("d"))


@harness("registry.get-default-is-none", "C15")
def get_none(cx):
    r, src = registry(cx)
    d = cls("d")
    got = do(cx, r, "get", SStr(tname(d.t)))
    cx.oblige("no-default-means-none", z3.Or(got.term(cx) == NONE, hasN(tname(d.t))))


@harness("registry.register", "C15")
def register(cx):
    r, src = registry(cx)
    c, d, h = cls("c"), cls("d"), handler(cx, "h")
    named(cx, c, d)
    base = z3.Bool("base")
    out = do(cx, r, "register", c, h, base=SBool(base))
    cx.oblige("returns-nothing", cx_is(cx, out, K(None)))
    spec_get(cx, r, src, d, (c, h, base))


@harness("registry.register-as-decorator", "C15")
def decorator(cx):
    r, src = registry(cx)
    c, d, h = cls("c"), cls("d"), handler(cx, "h")
    named(cx, c, d)
    base = z3.Bool("base")
    deco = do(cx, r, "register", c, base=SBool(base))
    out = interp.call(cx, deco, [h])
    cx.oblige("decorator-returns-handler", cx_is(cx, out, h))
    spec_get(cx, r, src, d, (c, h, base))


@harness("registry.unregister", "C15")
def unregister(cx):
    r, src = registry(cx)
    c, d = cls("c"), cls("d")
    named(cx, c, d)
    do(cx, r, "unregister", c)
    spec_get(cx, r, src, d, (c, None, None))


@harness("registry.register-non-class", "C15")
def non_class(cx):
    r, src = registry(cx)
    x, d, h = Sym(z3.Const("x", V)), cls("d"), handler(cx, "h")
    cx.assume(z3.Not(cx.L.sub(typeof(x.t), type)))
    try:
        do(cx, r, "register", x, h, base=SBool(z3.Bool("base")))
        cx.oblige("type-error", False, "no exception")
    except PyExc as e:
        cx.oblige("type-error", zb(e.exc.matches(cx, TypeError)), lambda: f"{e.exc!r}")
    spec_get(cx, r, src, d)


@harness("registry.handles", "C15")
def handles(cx):
    """BaseHandler.handles registers the handler class and returns the class."""
    c = cls("c")
    log = []
    cx.contracts["jsonpickle.handlers.Registry.register"] = lambda cx, a, k: (log.append((a, k)), K(None))[1]
    h = handlers.UUIDHandler
    out = interp.call(cx, K(h).op_getattr(cx, "handles"), [c])
    cx.oblige("returns-class", cx_is(cx, out, c))
    ok = len(log) == 1
    if cx.oblige("registers-once", ok):
        a, k = log[0]
        args = dict(zip(("self", "cls", "handler", "base"), a))
        args.update(k)
        cx.oblige("registers-itself", zand(cx_is(cx, args["cls"], c), isinstance(args.get("handler"), K) and args["handler"].v is h,
                                           "base" not in args or znot(args["base"].op_truth(cx))))
