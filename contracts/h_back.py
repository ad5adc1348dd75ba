"""JSON backends, from an arbitrary earlier history.

The state is any list of distinct backend names together with maps from names
to functions, exceptions and options that have an entry for every listed name
(the invariant).  Operations are shown to keep the invariant and to change the
entries of the given name only; encoding and decoding are shown to use the
names in order with the options of each."""
import builtins
import z3
from pyvc import smt, strs, interp, models
from .reg import harness
from .rt import *
from .h_core import item
from .h_entry import called, capture

S = smt.S
BOOL = z3.BoolSort()
listed = z3.Function("listed", S, BOOL)
FIELDS = ["_backend_names", "_decoder_exceptions", "_decoder_options", "_decoders", "_encoder_options", "_encoders", "_fallthrough", "_verified"]
MAPS = {"_encoders": "enc", "_decoders": "dec", "_decoder_exceptions": "exc", "_encoder_options": "eopt", "_decoder_options": "dopt"}
failing = {k: z3.Function(f"fails:{k}", S, BOOL) for k in ("enc", "dec")}
declared = z3.Function("declared", S, BOOL)
exct = z3.Function("raised", S, T)
result = {k: z3.Function(f"result:{k}", S, V) for k in ("enc", "dec")}


def has(kind):
    return z3.Function(f"has:{kind}", S, BOOL)


class Declared(V_.Val):
    """The exception class declared for a backend."""
    def __init__(self, s): self.s = s
    def __repr__(self): return f"declared error of {self.s}"
    def subst(self, m): return Declared(z3.substitute(self.s, *m))
    def term(self, cx): return z3.Function("decl", S, V)(self.s)
    def catches(self, cx, exc):
        if not isinstance(exc, ExcV) or exc.tag is None:
            raise Unsupported("exception of unknown origin")
        return z3.And(declared(exc.tag), self.s == exc.tag)


class Prior(Opaque):
    """Earlier entries of one map."""
    __slots__ = ("kind", "w", "memo")

    def __init__(self, kind, w):
        Opaque.__init__(self, "earlier:" + kind)
        self.kind, self.w, self.memo = kind, w, {}

    def find(self, cx, key):
        if not V_.is_strlike(cx, key, True):
            raise Unsupported(f"backend lookup of {key!r}")
        s = V_.as_str(cx, key)
        if self.kind in ("enc", "dec", "exc"):
            cx.L.bg(("inv", self.kind, s.get_id()), z3.Implies(listed(s), has(self.kind)(s)))
        return self.value(cx, s) if cx.decide(has(self.kind)(s)) else None

    def value(self, cx, s):
        k = s.get_id()
        if k not in self.memo:
            self.memo[k] = (s, self.make(cx, s))
        return self.memo[k][1]

    def make(self, cx, s):
        if self.kind in ("enc", "dec"):
            kind, w = self.kind, self.w
            return ModelFn(f"{kind}:{s}", lambda cx, a, k: w.called(kind, s, a, k))
        if self.kind == "exc":
            return Declared(s)
        a, d = opt_segs(cx, self.kind, s)
        return TupV([One(TupV([a])), One(DictV([d]))])


def opt_segs(cx, kind, s):
    o = z3.Function("options:" + kind, S, V)(s)
    a = cx.src("args", o, 1, lambda g: [])
    d = cx.src("kwargs", o, 2, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
    return (Bulk(a, [(BT, (Sym(a.gens[0]),))]), Bulk(d, [(BT, ((Sym(d.gens[0]), Sym(d.gens[1])),))]))


class Names(Bulk):
    """Names of which no two are equal."""
    __slots__ = ()

    def seg_remove(self, cx, v):
        s = V_.as_str(cx, v)
        g = self.src.gens[0]
        if not cx.exists(self.src, zand(str_of(g) == s, zor(*[c for c, es in self.alts if es]))):
            return None
        return [Names(self.src, [(zand(c, str_of(g) != s), es) for c, es in self.alts], self.locals, self.partial)]


class World:
    def __init__(self, cx, size=None, fallthrough=True):
        self.cx = cx
        cx.contracts["jsonpickle.backend.JSONBackend.load_backend"] = lambda cx, a, k: K(True)
        self.b = b = interp.construct(cx, B.JSONBackend, [], {"fallthrough": K(fallthrough)})
        del cx.contracts["jsonpickle.backend.JSONBackend.load_backend"]
        if sorted(b.fields) != FIELDS:
            raise Unsupported(f"backend fields {sorted(b.fields)}")
        self.maps = {}
        for f, kind in MAPS.items():
            p = self.maps[kind] = Prior(kind, self)
            b.fields[f] = DictV([p])
        self.src = src = cx.src("backends", z3.Const("backends", V), 1,
                                lambda g: [typeof(g[0]) == cx.L.tconst(str), listed(str_of(g[0]))])
        i, n = V_.idx_fn(src)(*src.gens), z3.Function("len", V, z3.IntSort())(src.owner)
        src.facts += [i >= 0, i < n] if isinstance(src.facts, list) else (i >= 0, i < n)
        cx.assume(n >= 0)
        mid = Names(src, [(BT, (Sym(src.gens[0]),))])
        self.first = self.last = None
        if size is None:
            segs = [mid]
            b.fields["_verified"] = SBool(n > 0)
        elif size == 0:
            segs = []
            b.fields["_verified"] = K(False)
        else:
            b.fields["_verified"] = K(True)
            self.first = item(cx, "first", str)
            segs = [One(self.first)]
            self.last = self.first
            if size == 2:
                self.last = item(cx, "last", str)
                segs += [mid, One(self.last)]
                cx.assume(str_of(self.first.t) != str_of(self.last.t))
                for x in (self.first, self.last):
                    cx.add_forall(src, str_of(src.gens[0]) != str_of(x.t))
            for x in (self.first, self.last):
                cx.assume(listed(str_of(x.t)))
        b.fields["_backend_names"] = ListV(segs)
        self.calls = ListV()
        self.expect = None
        self.raised = {}

    def called(self, kind, s, a, k):
        cx = self.cx
        cx.set(self.calls, "segs", self.calls.segs + (One(TupV([One(K(kind)), One(SStr(s))])),))
        if self.expect is not None:
            self.check(kind, s, a, k)
        if cx.decide(failing[kind](s)):
            t = TypeV(exct(s))
            cx.L.bg(("error", s.get_id()), cx.L.sub(t.t, Exception))
            raise PyExc(ExcV(t, [], tag=s))
        return Sym(result[kind](s))

    def check(self, kind, s, a, k):
        """The function of a backend gets the value, the backend's own options
        and what the caller asked for, which wins."""
        cx = self.cx
        value, given = self.expect
        cx.oblige("value-passed-on", len(a) > 0 and cx_is(cx, a[0], value), lambda: f"{a}")
        opt = {"enc": "eopt", "dec": "dopt"}[kind]
        k = dict(k)
        rest = k.pop("**", None)
        pos = a[1:]
        segs = (list(pos[-1].segs) if pos and isinstance(pos[-1], interp.StarV) else [])
        pos = [x for x in pos if not isinstance(x, interp.StarV)]
        cx.oblige("keywords-given-by-caller", sorted(k) == sorted(given) and zand(*[cx_is(cx, k[n], given[n]) for n in given if n in k]), lambda: f"{k}")
        rest = list(rest.segs) if rest is not None else []
        ok = not pos
        if cx.decide(has(opt)(s)):
            wa, wk = opt_segs(cx, opt, s)
            ok = ok and len(segs) == 1 and isinstance(segs[0], Bulk) and segs[0].src is wa.src and len(rest) == 1 and isinstance(rest[0], Bulk) and rest[0].src is wk.src
            if cx.oblige("backend-gets-its-own-options", ok, lambda: f"{segs} {rest}"):
                whole(cx, segs[0], lambda e: cx_is(cx, e, Sym(wa.src.gens[0])), BT, "backend-gets-its-own-options")
                g = wk.src.gens
                keep = z3.And(*[str_of(g[0]) != strs.sval(n) for n in given]) if given else BT
                whole(cx, rest[0], lambda e: zand(cx_is(cx, e[0], Sym(g[0])), cx_is(cx, e[1], Sym(g[1]))), keep, "backend-gets-its-own-options")
        else:
            cx.oblige("backend-gets-its-own-options", ok and not segs and not rest, lambda: f"{segs} {rest}")

    def do(self, name, *a, **k):
        return interp.call(self.cx, self.b.op_getattr(self.cx, name), list(a), k)


def whole(cx, seg, ok, when, name):
    """seg has one entry, which is ok, for each element where when holds, and
    none for the others."""
    for g, es in seg.alts:
        n = len(cx.pc)
        for f in cx.src_facts(seg.src):
            cx.pc.append(f)
        cx.pc.append(zb(g))
        if cx.feasible():
            if es:
                cx.oblige(name, len(es) == 1 and zand(ok(es[0]), when), lambda: f"{es}")
            else:
                cx.oblige(name, z3.Not(zb(when)), "an element is left out")
        del cx.pc[n:]
    if seg.partial:
        return
    cx.oblige(name, z3.Or(*[zb(g) for g, _ in seg.alts], z3.Not(z3.And(*cx.src_facts(seg.src)))), "an element is left out")


def order(cx, w, kind):
    """The calls made are for the names in order up to some name; which."""
    segs = list(w.calls.segs)
    if not segs:
        raise Unsupported("no backend function was called")

    def one(x, name):
        return isinstance(x, One) and zand(x.val.segs[0].val.conc() == kind, cx_eq(cx, x.val.segs[1].val, name))
    cx.oblige("first-backend-first", one(segs[0], w.first), lambda: f"{segs}")
    rest = segs[1:]
    if not rest:
        return w.first
    if kind == "dec":
        cx.oblige("only-declared-errors-fall-through", declared(V_.as_str(cx, w.first)))
    g = w.src.gens[0]
    if isinstance(rest[0], Bulk):
        b = rest.pop(0)
        if not cx.oblige("backends-in-order", b.src is w.src, lambda: f"{segs}"):
            return None
        whole(cx, b, lambda e: one(One(e), Sym(g)), BT, "backends-in-order")
        if kind == "dec":
            whole(cx, b, lambda e: declared(str_of(g)), BT, "only-declared-errors-fall-through")
        complete = not b.partial
    else:
        complete = cx.prove(z3.Function("len", V, z3.IntSort())(w.src.owner) == 0) is True
    if not cx.oblige("backends-in-order", len(rest) == 1 and isinstance(rest[0], One), lambda: f"{segs}"):
        return None
    name = rest[0].val.segs[1].val
    s = V_.as_str(cx, name)
    if complete:
        cx.oblige("backends-in-order", one(rest[0], w.last), lambda: f"{segs}")
    else:
        # a name of the list itself: the loop stopped there
        ws = cx.forall.get(("witnesses", w.src.key), ())
        cx.oblige("backends-in-order", z3.Or(*[str_of(m[0][1]) == s for m in ws], z3.BoolVal(False)), lambda: f"{segs}")
    return name


def use(kind, size, fallthrough):
    def h(cx):
        w = World(cx, size, fallthrough)
        value = Sym(z3.Const("value", V)) if kind == "enc" else SStr(z3.Const("text", S))
        kw = {}
        if kind == "enc":
            for n in ("indent", "separators"):
                v = kw[n] = Sym(z3.Const(n, V))
            given = {n: v for n, v in kw.items() if not cx.decide(v.t == NONE)}
        else:
            given = {}
        w.expect = (value, given)
        raised = r = None
        names = tuple(w.b.fields["_backend_names"].segs)
        try:
            r = w.do("encode" if kind == "enc" else "decode", value, **kw)
        except PyExc as e:
            raised = e.exc
        now = w.b.fields["_backend_names"].segs
        cx.oblige("list-of-backends-unchanged", len(now) == len(names) and all(a is b for a, b in zip(now, names)))
        for m in w.maps.values():
            for s, v in m.memo.values():
                if isinstance(v, TupV):
                    a, d = v.segs[0].val, v.segs[1].val
                    cx.oblige("options-unchanged", len(a.segs) == 1 and len(d.segs) == 1 and not isinstance(a.segs[0], One) and not isinstance(d.segs[0], One), lambda: f"{v}")
        if size == 0:
            cx.oblige("nothing-usable-raises", raised is not None and not w.calls.segs, lambda: f"{r!r}")
            return
        last = order(cx, w, kind)
        if last is None:
            return
        s = V_.as_str(cx, last)
        if raised is None:
            cx.oblige("result-of-the-backend", cx_is(cx, r, Sym(result[kind](s))), lambda: f"{r!r}")
            return
        if not cx.oblige("error-of-a-backend", isinstance(raised, ExcV) and raised.tag is not None, lambda: f"{raised!r}"):
            return
        cx.oblige("last-error-propagates", raised.tag == s, lambda: f"{raised!r}")
        if fallthrough:
            end = s == V_.as_str(cx, w.last)
            if kind == "dec":
                end = z3.Or(end, z3.Not(declared(s)))
            cx.oblige("next-backend-is-tried", end, lambda: f"error of {s} although there are others")
        else:
            cx.oblige("no-fallthrough", s == V_.as_str(cx, w.first), lambda: f"{w.calls}")
    return h


for _k, _n in (("enc", "encode"), ("dec", "decode")):
    harness(f"backend.{_n}.none", {"C17": None})(use(_k, 0, True))
    for _size, _sn in ((1, "one"), (2, "several")):
        harness(f"backend.{_n}.{_sn}", {"C17": None})(use(_k, _size, True))
        harness(f"backend.{_n}.{_sn}.no-fallthrough", {"C17": None})(use(_k, _size, False))


# -- operations ---------------------------------------------------------------

class Walk(V_.Val):
    """The module of a backend: what importing the name and following the
    rest of its parts gives so far."""
    steps = True

    def __init__(self, w, step=False): self.w, self.step = w, step
    def __repr__(self): return "module of the backend"
    def subst(self, m): return self
    def term(self, cx): return z3.Const("module", V)
    def widen(self, cx): return Walk(self.w)
    def covers(self, v): return isinstance(v, Walk) and v.step

    def op_getattr_sym(self, cx, name, *default):
        p = self.w.parts
        if p is not None and any(a is p for a in cx.active) and isinstance(name, Sym) and name.t.eq(p.gens[0]):
            if cx.choose("submodule missing"):
                raise_py(cx, AttributeError, "no such submodule")
            return Walk(self.w, True)
        s = V_.as_str(cx, name)
        if cx.decide(z3.Function("module has", S, BOOL)(s)):
            return Sym(attr(s))
        if default:
            return default[0]
        raise_py(cx, AttributeError, "no such attribute")


attr = z3.Function("attribute", S, V)


def snapshot(w):
    return {f: tuple(v.segs) for f, v in w.b.fields.items() if hasattr(v, "segs")}


def unchanged(cx, w, before, name="nothing-changes"):
    for f, segs in before.items():
        now = w.b.fields[f].segs
        cx.oblige(name, len(now) == len(segs) and all(a is b for a, b in zip(now, segs)), lambda: f"{f}: {now}")


def lookup(cx, w, field, s):
    return w.b.fields[field].find(cx, SStr(s))


def others(cx, w, n, front=False, back=False):
    """Everything about the other names is as before and the other names keep
    their order."""
    m = z3.Const("other", S)
    cx.assume(m != n)
    aspect = cx.pick("aspect", [*MAPS, "_backend_names"])
    if aspect in MAPS:
        kind = MAPS[f := aspect]
        got = lookup(cx, w, f, m)
        p = w.maps[kind]
        cx.oblige("other-backends-unaffected", (got is None) == cx.prove(z3.Not(has(kind)(m))) if got is None else got is p.value(cx, m), lambda: f"{f}: {got}")
        return
    segs = list(w.b.fields["_backend_names"].segs)
    mine = 0
    if front:
        x = segs.pop(0)
        cx.oblige("preferred-is-first", isinstance(x, One) and cx_eq(cx, x.val, SStr(n)), lambda: f"{segs}")
        mine += 1
    elif back and segs and isinstance(segs[-1], One):
        x = segs.pop()
        cx.oblige("loaded-is-last", cx_eq(cx, x.val, SStr(n)), lambda: f"{segs}")
        mine += 1
    if not cx.oblige("order-of-others-kept", len(segs) == 1 and isinstance(segs[0], Bulk) and segs[0].src is w.src, lambda: f"{segs}"):
        return
    g = w.src.gens[0]
    # of the other names, all stay; the name itself only if it is not elsewhere
    facts = cx.src_facts(w.src)
    for c, es in segs[0].alts:
        mark = len(cx.pc)
        cx.pc.extend(facts)
        cx.pc.append(zb(c))
        if cx.feasible():
            if es:
                cx.oblige("order-of-others-kept", len(es) == 1 and cx_is(cx, es[0], Sym(g)), lambda: f"{es}")
                if mine or not back:
                    cx.oblige("listed-once", str_of(g) != n, "the name is still at its old place")
            else:
                cx.oblige("order-of-others-kept", str_of(g) == n, "another name is dropped")
        del cx.pc[mark:]
    cx.oblige("order-of-others-kept", z3.Or(*[zb(c) for c, _ in segs[0].alts], str_of(g) == n, z3.Not(z3.And(*facts))), "another name is dropped")


def flag(cx, w):
    v = w.b.fields["_verified"].op_truth(cx)
    ne = w.b.fields["_backend_names"].op_truth(cx)
    cx.oblige("usable-exactly-when-a-backend-is-loaded", zb(v) == zb(ne), lambda: f"{v} {ne}")


@harness("backend.load", {"C17": None})
def load(cx):
    w = World(cx)
    w.parts = None
    n = z3.Const("name", S)
    cx.L.bg("listed names", z3.Implies(listed(n), listed(n)))

    def imp(cx, a, k):
        cx.oblige("imports-the-name", cx_eq(cx, a[0], SStr(n)), lambda: f"{a}")
        if cx.choose("import fails"):
            raise_py(cx, ImportError, "no such module")
        return Walk(w)

    def split(cx, s, a):
        if not a or a[0].conc() != "." or not cx.prove(V_.as_str(cx, s) == n):
            raise Unsupported("split")
        w.parts = cx.src("parts", s.term(cx), 1, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
        return ListV([One(SStr(cx.fresh("top", S))), Bulk(w.parts, [(BT, (Sym(w.parts.gens[0]),))])])
    cx.hooks["models"] = {**cx.hooks.get("models", {}), id(builtins.__import__): imp}
    cx.hooks["str_split"] = split
    dumps, loads = SStr(z3.Const("dumps", S)), SStr(z3.Const("loads", S))
    if cx.choose("error by name"):
        exc = SStr(z3.Const("loads_exc", S))
    else:
        exc = Sym(z3.Const("exception class", V))
        cx.assume(z3.Not(cx.L.sub(typeof(exc.t), str)))
    before = snapshot(w)
    removed = []
    cx.contracts["jsonpickle.backend.JSONBackend.remove_backend"] = lambda cx, a, k: (removed.append((a, k, snapshot(w))), K(None))[1]
    r = w.do("load_backend", SStr(n), dumps, loads, exc)
    if removed:
        # what removal does is shown by backend.remove
        a, k, then = removed[-1]
        cx.oblige("removes-itself", cx_eq(cx, [*a, *k.values()][1], SStr(n)), lambda: f"{a} {k}")
        cx.oblige("not-loaded", znot(r.op_truth(cx)))
        unchanged(cx, w, then, "nothing-after-removal")
        others(cx, w, n, back=True)
        return
    if cx.decide(r.op_truth(cx)):
        found = cx.exists(w.src, str_of(w.src.gens[0]) == n)
        cx.oblige("encoder-is-the-modules", is_(cx, lookup(cx, w, "_encoders", n), Sym(attr(dumps.s))))
        cx.oblige("decoder-is-the-modules", is_(cx, lookup(cx, w, "_decoders", n), Sym(attr(loads.s))))
        cx.oblige("declared-error", is_(cx, lookup(cx, w, "_decoder_exceptions", n), Sym(attr(exc.s)) if isinstance(exc, SStr) else exc))
        if (f := cx.pick("options", ["_encoder_options", "_decoder_options", None])) is not None:
            kind = MAPS[f]
            got = lookup(cx, w, f, n)
            if cx.decide(has(kind)(n)):
                cx.oblige("options-set-before-are-kept", got is w.maps[kind].value(cx, n), lambda: f"{got}")
            else:
                ok = got is not None and all(not list(V_.iter_segs(cx, x)) for x in (s.val for s in V_.iter_segs(cx, got)))
                cx.oblige("no-options-at-first", ok, lambda: f"{got}")
            return
        last = w.b.fields["_backend_names"].segs[-1:]
        cx.oblige("listed-once", bool(found) != bool(last and isinstance(last[0], One)), lambda: f"{w.b.fields['_backend_names']}")
        flag(cx, w)
        others(cx, w, n, back=True)
        return
    # not loaded: nothing changes, or the backend is gone altogether
    now = snapshot(w)
    if all(len(now[f]) == len(before[f]) and all(a is b for a, b in zip(now[f], before[f])) for f in before):
        return
    gone(cx, w, n)


def is_(cx, a, b):
    return a is not None and cx_is(cx, a, b)


def gone(cx, w, n):
    f = cx.pick("entry", [*MAPS, "rest"])
    if f != "rest":
        got = lookup(cx, w, f, n)
        cx.oblige("removed-entirely", got is None, lambda: f"{f}: {got}")
        return
    flag(cx, w)
    others(cx, w, n)


@harness("backend.remove", {"C17": None})
def remove(cx):
    w = World(cx)
    n = z3.Const("name", S)
    w.do("remove_backend", SStr(n))
    gone(cx, w, n)


@harness("backend.prefer", {"C17": None})
def prefer(cx):
    w = World(cx)
    n = z3.Const("name", S)
    before = snapshot(w)
    found = cx.exists(w.src, str_of(w.src.gens[0]) == n)
    try:
        w.do("set_preferred_backend", SStr(n))
    except PyExc as e:
        cx.oblige("unknown-backend-is-an-assertion-error", zand(zb(e.exc.matches(cx, AssertionError)), not found), lambda: f"{e.exc!r}")
        unchanged(cx, w, before)
        return
    cx.oblige("unknown-backend-is-an-assertion-error", bool(found))
    others(cx, w, n, front=True)
    unchanged(cx, w, {f: v for f, v in before.items() if f != "_backend_names"})
    flag(cx, w)


def options(method, field, kind):
    def h(cx):
        w = World(cx)
        n = z3.Const("name", S)
        o = z3.Const("given", V)
        a = cx.src("args", o, 1, lambda g: [])
        d = cx.src("kwargs", o, 2, lambda g: [typeof(g[0]) == cx.L.tconst(str), str_of(g[0]) != strs.sval("name"), str_of(g[0]) != strs.sval("self")])
        args = interp.StarV([Bulk(a, [(BT, (Sym(a.gens[0]),))])])
        kws = DictV([Bulk(d, [(BT, ((Sym(d.gens[0]), Sym(d.gens[1])),))])])
        before = snapshot(w)
        interp.call(cx, w.b.op_getattr(cx, method), [SStr(n), args], {"**": kws})
        got = lookup(cx, w, field, n)
        parts = [s.val for s in V_.iter_segs(cx, got)] if got is not None else []
        if cx.oblige("options-stored", len(parts) == 2, lambda: f"{got}"):
            pa, pk = list(V_.iter_segs(cx, parts[0])), list(V_.as_pairs(cx, parts[1]))
            ok = len(pa) == 1 and len(pk) == 1 and isinstance(pa[0], Bulk) and isinstance(pk[0], Bulk) and pa[0].src is a and pk[0].src is d
            if cx.oblige("options-stored", ok, lambda: f"{got}"):
                whole(cx, pa[0], lambda e: cx_is(cx, e, Sym(a.gens[0])), BT, "options-stored")
                whole(cx, pk[0], lambda e: zand(cx_is(cx, e[0], Sym(d.gens[0])), cx_is(cx, e[1], Sym(d.gens[1]))), BT, "options-stored")
        unchanged(cx, w, {f: v for f, v in before.items() if f != field})
        m = z3.Const("other", S)
        cx.assume(m != n)
        other = lookup(cx, w, field, m)
        cx.oblige("other-backends-unaffected", other is w.maps[kind].value(cx, m) if other is not None else cx.prove(z3.Not(has(kind)(m))), lambda: f"{other}")
    return h


harness("backend.encoder-options", {"C17": None})(options("set_encoder_options", "_encoder_options", "eopt"))
harness("backend.decoder-options", {"C17": None})(options("set_decoder_options", "_decoder_options", "dopt"))


@harness("backend.start", {"C17": None})
def start(cx):
    """A new object satisfies the invariant before the first load."""
    log = []

    def contract(cx, a, k):
        self = a[0]
        if not log:
            if sorted(self.fields) != FIELDS:
                raise Unsupported(f"backend fields {sorted(self.fields)}")
            cx.oblige("starts-empty", all(not list(V_.iter_segs(cx, self.fields[f])) for f in [*MAPS, "_backend_names"]))
            cx.oblige("starts-unusable", znot(self.fields["_verified"].op_truth(cx)))
        log.append(a[1])
        return SBool(cx.fresh("loaded", BOOL))
    cx.contracts["jsonpickle.backend.JSONBackend.load_backend"] = contract
    f = z3.Bool("fallthrough")
    b = interp.construct(cx, B.JSONBackend, [], {"fallthrough": SBool(f)})
    called(log)
    cx.oblige("standard-library-is-tried", any(x.conc() == "json" for x in log), lambda: f"{log}")
    cx.oblige("fallthrough-as-given", b.fields["_fallthrough"].op_truth(cx) == f)
    interp.call(cx, b.op_getattr(cx, "enable_fallthrough"), [SBool(z3.Not(f))])
    cx.oblige("fallthrough-as-given", b.fields["_fallthrough"].op_truth(cx) == z3.Not(f))
