"""Pickle protocol hooks: reduce, state and constructor-argument hooks."""
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, both, trip, reference
from .h_inst import instance, user_class, attr_names, attr_items, occupies, made, NameSet

callable_ = z3.Function("callable", V, z3.BoolSort())


def final(cx, t):
    """The value is complete when it is handed on: arguments and states that
    still hold a placeholder are outside the claim."""
    cx.assume(z3.Not(isproxy(t)))


def child(cx, name, truth=None, none=False):
    v = Sym(z3.Const(name, V))
    cx.assume(alloc(v.t) <= 0)
    final(cx, v.t)
    if not none:
        cx.assume(v.t != NONE)
    if truth is not None:
        cx.assume(truthy(v.t) if truth else z3.Not(truthy(v.t)))
    return v


def stage_class(cx, t, setstate, has_dict=True):
    """Class of the object a reduce factory returns; its methods record."""
    def extends(cx, self):
        if not hasattr(self, "extends"):
            self.extends = cx.choose("has_extend")
        return self.extends
    sp = Spec()
    inst = Spec()
    rec = lambda name: lambda cx, self: ModelFn(name, lambda cx, a, k: (self.log(cx, name, *a), K(None))[1])
    inst.attrs["__setstate__"] = rec("setstate") if setstate else None
    inst.attrs["extend"] = rec("extend")
    inst.extra["has"] = {"extend": extends}
    inst.attrs["append"] = rec("append")
    inst.attrs["__setitem__"] = rec("setitem")
    inst.extra["setitem"] = lambda cx, self, k, v: self.log(cx, "setitem", k, v)
    if has_dict:
        def get(cx, self):
            if not hasattr(self, "dct"):
                self.dct = DictV()
            return self.dct
        inst.attrs["__dict__"] = get

        def put(cx, self, name, v):
            if name == "__dict__" and isinstance(v, (TupV, ListV)):
                raise_py(cx, TypeError, "__dict__ must be set to a dictionary")
        inst.attrs["__setattr__"] = put
    else:
        inst.attrs["__dict__"] = None
    sp.extra["instance"] = inst
    return sp, TypeV(t, sp)


def pairs_of(cx, src):
    return [Bulk(src, [(z3.BoolVal(True), (TupV([One(Sym(src.gens[0])), One(Sym(src.gens[1]))]),))])]


def reduce_world(cx, setstate, has_dict=True, pair=False, ex=False, long=False):
    """x has a reduce hook returning a tuple of two to six elements; each
    optional element may be None."""
    w = both(cx)
    x, d, sp, inst = instance(cx, reduce=(not ex, ex))
    if setstate:
        x.spec.attrs["__setstate__"] = ModelFn("x.__setstate__", lambda cx, a, k: K(None))
    cx.hooks["elemfacts"] = lambda g: [z3.Not(isproxy(g[0]))]
    # parts of states and items: any value; keys are strings for attributes
    cx.hooks["itemfacts"] = lambda g: [z3.Not(isproxy(g[0])), z3.Not(isproxy(g[1]))]
    f = child(cx, "f")
    cx.assume(callable_(f.t))
    cx.assume(z3.Not(cx.L.sub(typeof(f.t), str)))
    rest = cx.src("elems", z3.Const("args", V), 1, cx.hooks["elemfacts"])
    restv = Bulk(rest, [(z3.BoolVal(True), (Sym(rest.gens[0]),))])
    ghost = {"made": None}
    ct = z3.Const("C", T)
    csp, cls = stage_class(cx, ct, setstate, has_dict)
    user = [z3.Not(cx.L.sub(ct, c)) for c in (type, list, dict, set, tuple, str, int)]
    for u in user:
        cx.assume(u)
    add_class(cx, ct, cls)
    parts = {"f": f, "rest": rest, "cls": cls, "ct": ct, "xcls": sp}
    n = 2
    while n < 6 and cx.choose("longer"):
        n = n + 1 if long else 6
    # pair states: the other elements are covered by the other harnesses
    opt = lambda i, v: v if n > i and not pair and cx.choose(f"given{i}") else K(None)
    if pair:
        d, s = child(cx, "dict-state", none=True), child(cx, "slot-state", none=True)
        for v in (d, s):
            cx.assume(z3.Or(v.t == NONE, typeof(v.t) == cx.L.tconst(dict)))
        if not has_dict:
            cx.assume(z3.Or(d.t == NONE, z3.Not(truthy(d.t))))
        state = TupV([One(d), One(s)]) if n > 2 else K(None)
        parts["pair"] = (d, s)
    else:
        st = child(cx, "state", truth=True)
        if not setstate:
            cx.assume(typeof(st.t) == cx.L.tconst(dict))
        state = opt(2, st)
    li, di = Sym(z3.Const("li", V), Spec()), Sym(z3.Const("di", V), Spec())
    lsrc = cx.src("elems", li.t, 1, cx.hooks["elemfacts"])
    dsrc = cx.src("items", di.t, 2, cx.hooks["itemfacts"])
    li.spec.iter = lambda cx: [Bulk(lsrc, [(z3.BoolVal(True), (Sym(lsrc.gens[0]),))])]
    di.spec.iter = lambda cx: pairs_of(cx, dsrc)
    for v in (li, di):
        cx.assume(truthy(v.t))
    listitems, dictitems = opt(3, li), opt(4, di)
    setter = child(cx, "setter")
    cx.assume(callable_(setter.t))
    cx.assume(z3.Not(setter.t == f.t))
    setv = opt(5, setter)
    parts.update(n=n, state=state, li=listitems, lsrc=lsrc, di=dictitems, dsrc=dsrc, setter=setv)

    def rcall(cx, r, a, k):
        if r.t.eq(f.t):
            o = NewObj(cx, cls, a, k, "call")
            ghost["made"] = o
            return o
        if r.t.eq(setter.t):
            a[0].log(cx, "setter", *a[1:])
            return K(None)
        raise Unsupported("call of a restored value")
    cx.hooks["rtok_call"] = rcall
    cx.hooks["typecall"] = lambda cx, t, a, k: NewObj(cx, t, a, k, "call")

    def rattr(cx, r, name):
        if name == "__name__":
            return Sym(r.t).op_getattr(cx, name)
    cx.hooks["rtok_getattr"] = rattr
    return w, x, parts, restv


def seg_args(cx, args):
    out = []
    for a in args:
        out.extend(a.segs if isinstance(a, interp.StarV) else [One(a)])
    return out


def images(cx, segs, src, name):
    seq_same(cx, segs, src, name)


def after(cx, r, parts, setstate, has_dict, pair):
    """The calls made on the new object, in order."""
    calls = list(nonempty_segs(cx, r.calls))
    given = lambda v: not (isinstance(v, K) and v.v is None)

    def take(name):
        if calls and isinstance(calls[0], One) and calls[0].val[0] == name:
            return calls.pop(0).val[1:]
        cx.oblige("protocol-calls-in-order", False, lambda: f"expected {name}, calls {r.calls}")
        return None
    st = parts["state"]
    if given(st):
        if given(parts["setter"]) or setstate:
            a = take("setter" if given(parts["setter"]) else "setstate")
            if a is None:
                return
            if pair:
                ok = len(a) == 1 and isinstance(a[0], TupV) and len(a[0].segs) == 2
                if cx.oblige("state-given-once", ok, lambda: f"{a}"):
                    for got, want in zip(a[0].segs, parts["pair"]):
                        cx.oblige("state-given-once", is_image(cx, got.val, want.t), lambda: f"{got}")
            else:
                cx.oblige("state-given-once", zand(len(a) == 1, is_image(cx, a[0], st.t) if a else False), lambda: f"{a}")
        elif not pair:
            if has_dict:
                a = take("setattr")
                if a is None:
                    return
                # the object's dict becomes the image of the state dict
                cx.oblige("dict-state-becomes-attributes", zand(a[0].conc() == "__dict__", is_image(cx, a[1], st.t)), lambda: f"{a}")
            else:
                src = cx.src("items", st.t, 2)
                drop_writes(cx, calls, src)
                map_same(cx, r.attrs.segs, src, "dict-state-becomes-attributes")
        else:
            d, s = parts["pair"]
            dsrc, ssrc = cx.src("items", d.t, 2), cx.src("items", s.t, 2)
            drop_writes(cx, calls, ssrc)
            got = getattr(r, "dct", None)
            gotd = got.segs if got is not None else ()
            full(cx, gotd, dsrc, "pair-state-dict-part", d)
            full(cx, r.attrs.segs, ssrc, "pair-state-slots-part", s)
    if given(parts["li"]):
        src = parts["lsrc"]
        if calls and isinstance(calls[0], One) and calls[0].val[0] == "extend":
            a = calls.pop(0).val[1:]
            if cx.oblige("list-items-in-order", len(a) == 1 and isinstance(a[0], (TupV, ListV)), lambda: f"{a}"):
                images(cx, a[0].segs, src, "list-items-in-order")
        elif calls and isinstance(calls[0], Bulk) and calls[0].src is src:
            b = calls.pop(0)
            each(cx, b, lambda es: cx.oblige("list-items-in-order",
                 zand(len(es) == 1 and es[0][0] == "append" and len(es[0]) == 2, is_image(cx, es[0][1], src.gens[0]) if es else False), lambda: f"{es}"))
        else:
            cx.oblige("list-items-in-order", z3.Not(z3.And(*cx.src_facts(src))), lambda: f"no list items given; calls {r.calls}")
    if given(parts["di"]):
        src = parts["dsrc"]
        if calls and isinstance(calls[0], Bulk) and calls[0].src is src:
            b = calls.pop(0)
            each(cx, b, lambda es: cx.oblige("dict-items-in-order",
                 zand(len(es) == 1 and es[0][0] == "setitem" and len(es[0]) == 3,
                      is_image(cx, es[0][1], src.gens[0]) if es else False, is_image(cx, es[0][2], src.gens[1]) if es else False), lambda: f"{es}"))
        else:
            cx.oblige("dict-items-in-order", z3.Not(z3.And(*cx.src_facts(src))), lambda: f"no dict items given; calls {r.calls}")
    cx.oblige("no-other-calls", not calls, lambda: f"{calls} of {r.calls}")


def drop_writes(cx, calls, src):
    if calls and isinstance(calls[0], Bulk) and calls[0].src is src:
        b = calls.pop(0)
        each(cx, b, lambda es: cx.oblige("protocol-calls-in-order", all(e[0] == "setattr" for e in es), lambda: f"{es}"))


def full(cx, segs, src, name, owner):
    """The part is None and nothing was stored, or all its items were."""
    if cx.prove(owner.t == NONE):
        cx.oblige(name, not nonempty_segs(cx, segs), lambda: f"{segs}")
        return
    if not nonempty_segs(cx, segs):
        cx.oblige(name, zor(owner.t == NONE, z3.Not(truthy(owner.t)), z3.Not(z3.And(*cx.src_facts(src)))), "nothing stored")
        return
    map_same(cx, segs, src, name)


def reduce_(setstate, has_dict=True, pair=False, ex=False, newobj=False, long=False, getter=False):
    def h(cx):
        w, x, parts, restv = reduce_world(cx, setstate, has_dict, pair, ex, long)
        f = parts["f"]
        if getter:  # a state getter of its own is the reduce hook's to call, nobody else's
            def asked(cx, a, k):
                cx.oblige("state-getter-left-alone", False, "the state getter is called beside the reduce hook")
                return K(None)
            parts["xcls"].attrs["__getstate__"] = ModelFn("C.__getstate__", asked)
            x.spec.attrs["__getstate__"] = ModelFn("x.__getstate__", asked)
        isnew = Sym(f.t).op_hasattr(cx, "__name__")
        nm = z3.Function("attr:__name__", V, V)(f.t)
        named = zand(isnew, cx.L.sub(typeof(nm), str), str_of(nm) == strs.sval("__newobj__"))
        cx.assume(named if newobj else z3.Not(named))
        head = [One(parts["cls"])] if newobj else []
        value = [f, TupV(head + [restv]), parts["state"], parts["li"], parts["di"], parts["setter"]][:parts["n"]]

        def hook(cx, a, k):
            cx.oblige("protocol-two-asked", [v.conc() for v in a] == ([2] if ex else []), lambda: f"{a}")
            return TupV([One(v) for v in value])
        x.spec.attrs["__reduce_ex__" if ex else "__reduce__"] = ModelFn("reduce", hook)
        attr_like(cx, parts)
        j, r = trip(cx, w, x)
        if isinstance(r, RTok):
            return reference(cx, w, x, r)
        cx.oblige("reference-iff-met-before", z3.Not(seen0(x.t)))
        if not cx.oblige("factory-called", isinstance(r, NewObj) and r.cls is parts["cls"], lambda: f"{r!r}"):
            return
        cx.oblige("factory-called", r.how == ("__new__" if newobj else "call"), r.how)
        cx.oblige("factory-arguments", not r.kwargs)
        images(cx, seg_args(cx, r.args), parts["rest"], "factory-arguments")
        after(cx, r, parts, setstate, has_dict, pair)
        logs_agree(cx, w, lambda a, b: a.t == x.t if occupies(w, r) else False)
    return h


def attr_like(cx, parts):
    """Keys of state dicts are attribute names."""
    owners = list(parts.get("pair", ()))
    if isinstance(parts["state"], Sym):
        owners.append(parts["state"])
    for o in owners:
        src = cx.src("items", o.t, 2, cx.hooks["itemfacts"])
        for f in attr_names(cx, src.gens[0]) :
            cx.add_forall(src, f)


RED = {"C04": None, "C02": ("reference",), "C07": ("output-is-json",)}
harness("reduce.setstate", RED)(reduce_(True, long=True))
harness("reduce.setstate.reduce-ex", RED)(reduce_(True, ex=True))
harness("reduce.setstate.newobj", RED)(reduce_(True, newobj=True))
harness("reduce.dict-state", dict(RED, C02=("reference", "dict-state")))(reduce_(False, long=True))
harness("reduce.dict-state.newobj", dict(RED, C02=("reference", "dict-state")))(reduce_(False, newobj=True))
harness("reduce.dict-state.no-dict", RED)(reduce_(False, has_dict=False))
harness("reduce.setstate.getter", RED)(reduce_(True, getter=True))
harness("reduce.dict-state.getter", RED)(reduce_(False, long=True, getter=True))
harness("reduce.pair-state.getter", RED)(reduce_(False, pair=True, long=True, getter=True))
harness("reduce.pair-state", RED)(reduce_(False, pair=True, long=True))
harness("reduce.pair-state.no-dict", RED)(reduce_(False, has_dict=False, pair=True, long=True))


def ctor_args(cx, x, sp, inst, kind=None):
    """x may give constructor arguments; returns what has to be checked."""
    if kind is None and not cx.choose("newargs"):
        def none(r):
            cx.oblige("constructor-arguments", not r.args and not r.kwargs, lambda: f"{r.args} {r.kwargs}")
        none.kw = None
        return none
    ex = cx.choose("newargs_ex") if kind is None else kind == "ex"
    rest = cx.src("elems", z3.Const("newargs", V), 1, lambda g: [z3.Not(isproxy(g[0]))])
    argv = TupV([Bulk(rest, [(z3.BoolVal(True), (Sym(rest.gens[0]),))])])
    name = "__getnewargs_ex__" if ex else "__getnewargs__"
    kw = None
    if ex:
        kw = child(cx, "newkwargs", none=True)
        cx.assume(kw.t != x.t)
        set_exact(cx, kw, dict)
        kws = cx.src("items", kw.t, 2, lambda g: attr_names(cx, g[0]) + data_value(cx, g[1]) + [z3.Not(isproxy(g[1]))])
    value = TupV([One(argv), One(kw)]) if ex else argv
    x.spec.extra["methods"] = (name,)
    if ex:
        # with both hooks only the richer one counts
        x.spec.extra["methods"] = (name, "__getnewargs__")
        other = cx.src("elems", z3.Const("othernewargs", V), 1, lambda g: [z3.Not(isproxy(g[0]))])
        oval = TupV([Bulk(other, [(z3.BoolVal(True), (Sym(other.gens[0]),))])])
        x.spec.attrs["__getnewargs__"] = ModelFn("__getnewargs__", lambda cx, a, k: oval)
    x.spec.attrs[name] = ModelFn(name, lambda cx, a, k: value)
    inst.attrs[name] = lambda cx, self: ModelFn(name, lambda cx, a, k: K(None))

    def check(r):
        cx.oblige("constructor-not-run", r.how == "__new__", r.how)
        seq_same(cx, seg_args(cx, r.args), rest, "constructor-arguments")
        if ex:
            got = r.kwargs.get("**")
            map_same(cx, got.segs if got is not None else (), kws, "constructor-keywords")
        else:
            cx.oblige("constructor-arguments", not r.kwargs, lambda: f"{r.kwargs}")
    check.kw = kw
    return check


def state_(setstate, kind, args=None):
    def h(cx):
        w = both(cx)
        x, d, sp, inst = instance(cx)
        cx.hooks["itemfacts"] = lambda g: attr_names(cx, g[0]) + data_value(cx, g[1])
        args_ok = ctor_args(cx, x, sp, inst, args)
        if kind == "pair":
            dd, ss = child(cx, "dict-state", none=True), child(cx, "slot-state")
            cx.assume(z3.Or(dd.t == NONE, typeof(dd.t) == cx.L.tconst(dict)))
            cx.assume(typeof(ss.t) == cx.L.tconst(dict))
            s = TupV([One(dd), One(ss)])
            parts = {"state": s, "pair": (dd, ss)}
        else:
            s = child(cx, "state", truth=True)
            if kind == "dict":
                cx.assume(typeof(s.t) == cx.L.tconst(dict))
            parts = {"state": s}
        if setstate:
            inst.attrs["__setstate__"] = lambda cx, self: ModelFn("setstate", lambda cx, a, k: (self.log(cx, "setstate", *a), K(None))[1])
            x.spec.attrs["__setstate__"] = ModelFn("x.__setstate__", lambda cx, a, k: K(None))
        if kind == "none":
            s = d
        else:
            sp.attrs["__getstate__"] = ModelFn("C.__getstate__", lambda cx, a, k: s)
            x.spec.attrs["__getstate__"] = ModelFn("x.__getstate__", lambda cx, a, k: s)
        j, r = trip(cx, w, x)
        if not made(cx, w, x, r):
            return
        args_ok(r)
        calls = list(nonempty_segs(cx, r.calls))
        if setstate:
            ok = len(calls) == 1 and isinstance(calls[0], One) and calls[0].val[0] == "setstate"
            if cx.oblige("state-given-once", ok, lambda: f"{r.calls}"):
                v = calls[0].val[1]
                if kind == "pair":
                    if cx.oblige("state-given-once", isinstance(v, TupV) and len(v.segs) == 2, lambda: f"{v}"):
                        for got, want in zip(v.segs, parts["pair"]):
                            cx.oblige("state-given-once", is_image(cx, got.val, want.t), lambda: f"{got}")
                else:
                    cx.oblige("state-given-once", is_image(cx, v, s.t), lambda: f"{v}")
        elif kind in ("dict", "none"):
            map_same(cx, r.attrs.segs, cx.src("items", s.t, 2), "dict-state-becomes-attributes")
        else:
            # slots first, then the dict part
            segs = list(nonempty_segs(cx, r.attrs.segs))
            for owner, part in zip((ss, dd), ("pair-state-slots-part", "pair-state-dict-part")):
                src = cx.src("items", owner.t, 2)
                mine = [g for g in segs if isinstance(g, Bulk) and g.src is src]
                segs = [g for g in segs if g not in mine]
                full(cx, mine, src, part, owner)
            cx.oblige("only-attributes-set", not segs, lambda: f"{segs}")
        cx.oblige("only-attributes-set", not nonempty_segs(cx, r.items.segs) and not nonempty_segs(cx, r.seq.segs))
        # the keyword arguments are numbered right after the object, if new
        order = iter([x] + ([args_ok.kw] if args_ok.kw is not None else []))

        def reg(a, b):
            want = next(order, None)
            return a.t == want.t if want is not None and occupies(w, r) else False
        logs_agree(cx, w, reg)
    return h


ST = {"C04": None, "C02": ("reference",), "C07": ("output-is-json",)}
harness("getstate.setstate", ST)(state_(True, "any"))
harness("getstate.setstate.pair", ST)(state_(True, "pair"))
harness("getstate.dict", ST)(state_(False, "dict"))
harness("getstate.pair", ST)(state_(False, "pair", "plain"))
harness("newargs.attributes", dict(ST, C03=None))(state_(False, "none", "plain"))
harness("newargs_ex.attributes", dict(ST, C03=None))(state_(False, "none", "ex"))
