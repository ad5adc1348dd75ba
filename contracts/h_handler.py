"""Custom handlers: which one is used, what it is called with and what becomes
of its result."""
import inspect
import z3
from pyvc import smt, strs
from .reg import harness
from .rt import *
from .h_core import seen0, both, reference
from .h_inst import instance, attr_items
from .h_entry import bound

ACCEPT = "jsonpickle.handlers.handler_accepts_handler_context"


class Handler:
    """An arbitrary handler class; its methods record what they are given."""

    def __init__(self, cx, name, none=None):
        self.cx, self.name = cx, name
        self.calls = []
        self.made = []
        self.none = none
        self.cls = Sym(z3.Const(f"handler:{name}", V), Spec())
        cx.assume(self.cls.t != NONE)
        cx.assume(alloc(self.cls.t) <= 0)
        cx.assume(smt.truthy(self.cls.t))
        self.cls.spec.call = self.make
        self.result = Sym(z3.Const(f"restored:{name}", V))
        cx.assume(alloc(self.result.t) <= 0)
        cx.assume(self.result.t != NONE)
        # its methods: accept the context or not, independently
        self.flatten_ = ModelFn(f"{name}.flatten", self.flatten)
        self.restore_ = ModelFn(f"{name}.restore", self.restore)

    def make(self, cx, a, k):
        self.made.append((a, k))
        inst = Sym(z3.Const(f"handler-instance:{self.name}", V), Spec())
        cx.assume(alloc(inst.t) <= 0)
        inst.spec.attrs["flatten"] = self.flatten_
        inst.spec.attrs["restore"] = self.restore_
        inst.spec.attrs["context"] = a[0]
        return inst

    def flatten(self, cx, a, k):
        self.calls.append(("flatten", a, dict(k), {n: v for n, v in self.flags()}))
        if self.none is not None and cx.decide(self.none):
            return K(None)
        data = a[1]
        data.op_setitem(cx, K("payload"), JTok(z3.Const("payload", V)))
        return data

    def restore(self, cx, a, k):
        self.calls.append(("restore", a, dict(k), {}))
        return self.result

    def flags(self):
        return []


def accepts(cx, table):
    """Contract of the signature test, proved separately."""
    def c(cx, a, k):
        f = a[0]
        if isinstance(f, ModelFn) and f.name in table:
            return SBool(table[f.name])
        return NotImplemented
    cx.contracts[ACCEPT] = c


def use(cx, w, x, by_class, by_name):
    """Handlers for the class of x, for its name, both or none."""
    t = typeof(x.t)
    hc, hn = Handler(cx, "of-class"), Handler(cx, "of-name")

    def table(cx, key, default):
        if isinstance(key, TypeV) and cx.prove(key.t == t):
            return hc.cls if cx.decide(by_class) else default
        if isinstance(key, K):
            return default
        if V_.is_strlike(cx, key, True) and cx.prove(V_.as_str(cx, key) == tname(t)):
            return hn.cls if cx.decide(by_name) else default
        raise Unsupported(f"handler lookup of {key!r}")
    cx.ghost["handlers"] = table
    return hc, hn


def context(cx, w, hcx, set_p, set_u):
    for inst, on in ((w.P, set_p), (w.U, set_u)):
        if "handler_context" not in inst.fields:
            raise Unsupported("no handler_context field")
        cx.setkey(inst.fields, "handler_context", hcx if on else K(None))


def exactly(cx, h, which, first, worker, want_ctx, ctx, label):
    """h was made once with the worker and its method called once, with the
    context iff wanted."""
    cs = [c for c in h.calls if c[0] == which]
    if not cx.oblige(f"{label}-once", len(cs) == 1 and len(h.made) == 1, lambda: f"{len(cs)} calls of {which}, made {len(h.made)} times"):
        return None
    ma, mk = h.made[0]
    cx.oblige(f"{label}-worker", len(ma) == 1 and not mk and ma[0] is worker, lambda: f"{ma} {mk}")
    _, a, k, _ = cs[0]
    if first is not None:
        cx.oblige(f"{label}-object", bool(a) and a[0] is first, lambda: f"{a}")
    extra = set(k) - {"handler_context"}
    cx.oblige(f"{label}-arguments", not extra and len(a) == (2 if which == "flatten" else 1), lambda: f"{a} {k}")
    cx.oblige("context-exact", want_ctx if "handler_context" in k else znot(want_ctx), lambda: f"{which}: {k}")
    if "handler_context" in k:
        cx.oblige("context-identical", k["handler_context"] is ctx, lambda: f"{k}")
    return cs[0]


def dispatch(loadable):
    def h(cx):
        w = both(cx)
        cx.ghost["warnings"] = ListV()
        x, d, sp, inst = instance(cx)
        attr_items(cx)
        cx.assume(z3.Not(seen0(x.t)))
        bc, bn = z3.Bool("by_class"), z3.Bool("by_name")
        hc, hn = use(cx, w, x, bc, bn)
        if loadable:
            cx.assume(z3.Or(bc, bn))
        else:
            # only the name can be looked up when the class cannot be loaded
            cx.assume(bn)
            cx.assume(z3.Not(bc))
            cx.ghost["classes"] = ((tname(typeof(x.t)), K(None)),)
        ctx = Sym(z3.Const("ctx", V))
        cx.assume(ctx.t != NONE)
        pc, uc = z3.Bool("context_on_encode"), z3.Bool("context_on_decode")
        pon, uon = cx.decide(pc), cx.decide(uc)
        context(cx, w, ctx, pon, uon)
        tab = {f"{n}.{m}": z3.Bool(f"accepts:{n}.{m}") for n in ("of-class", "of-name") for m in ("flatten", "restore")}
        accepts(cx, tab)
        j = w.flatten(x)
        used, other = (hc, hn) if cx.decide(bc) else (hn, hc)
        c = exactly(cx, used, "flatten", x, w.P, zand(pon, tab[f"{used.name}.flatten"]), ctx, "encode-handler")
        cx.oblige("other-handler-unused", not other.calls and not other.made)
        if c is None:
            return
        data = c[1][1]
        cx.oblige("handler-result-is-output", j is data, lambda: f"{j!r}")
        cls = data.find(cx, K(tags.OBJECT)) if isinstance(data, DictV) else None
        cx.oblige("entry-names-class", cls is not None and cx_eq(cx, cls, SStr(tname(typeof(x.t)))), lambda: f"{data!r}")
        used.made.clear()
        jj = jsoncopy(cx, j)
        r = w.restore(jj)
        w.swap()
        c = exactly(cx, used, "restore", None, w.U, zand(uon, tab[f"{used.name}.restore"]), ctx, "decode-handler")
        cx.oblige("other-handler-unused", not other.calls and not other.made)
        if c is not None:
            got = c[1][0]
            cx.oblige("decode-handler-object", got is jj or (isinstance(got, DictV) and len(got.segs) == len(jj.segs)), lambda: f"{got!r}")
        cx.oblige("handler-result-is-restored", r is used.result, lambda: f"{r!r}")
        cx.oblige("reference-numbers-agree", len(w.plog.segs) == 1 and len(w.ulog.segs) == 1 and bool(w.list.entries) and w.list.entries[0][1] is used.result,
                  f"{w.plog} {w.ulog} {w.list.entries}")
        cx.oblige("reference-numbers-agree", zb(w.plog.segs[0].val[0] == "REG") if w.plog.segs else False)
    return h


HD = {"C15": ("encode-handler", "decode-handler", "other", "handler-result", "entry"), "C16": ("context",), "C02": ("reference", "handler-result-is-restored"),
      "C18": ("handler-result", "encode-handler", "decode-handler")}
harness("handler.dispatch", HD)(dispatch(True))
harness("handler.dispatch-by-name-only", HD)(dispatch(False))


@harness("handler.none-for-unregistered", {"C15": None, "C16": None})
def unregistered(cx):
    """Without a handler for the class nothing handler-like is called."""
    w = both(cx)
    attr_items(cx)
    x, d, sp, inst = instance(cx)
    cx.assume(z3.Not(seen0(x.t)))
    hc, hn = use(cx, w, x, z3.BoolVal(False), z3.BoolVal(False))
    context(cx, w, Sym(z3.Const("ctx", V)), True, True)
    j = w.flatten(x)
    r = w.restore(jsoncopy(cx, j))
    cx.oblige("no-handler-used", not hc.made and not hn.made)
    cx.oblige("class", isinstance(r, NewObj))


@harness("handler.returns-none", {"C15": None, "C07": None})
def gives_none(cx):
    """A handler that returns None stands for null, with a warning iff asked."""
    w = both(cx)
    log = cx.ghost["warnings"] = ListV()
    x, d, sp, inst = instance(cx)
    cx.assume(z3.Not(seen0(x.t)))
    h = Handler(cx, "h", none=z3.BoolVal(True))
    cx.ghost["handlers"] = lambda cx, key, default: h.cls
    j = w.flatten(x)
    cx.oblige("null", cx_is(cx, j, K(None)), lambda: f"{j!r}")
    cx.oblige("called-once", len([c for c in h.calls if c[0] == "flatten"]) == 1)
    cx.oblige("warned-iff-asked", zb(w.P.fields["warn"].op_truth(cx)) if log.segs else znot(w.P.fields["warn"].op_truth(cx)))


class ParamV(V_.Val):
    """inspect.Parameter of unknown kind."""
    def __init__(self, kind): self.kind = kind
    def __repr__(self): return f"param({self.kind})"
    def op_is(self, cx, o): return False if isinstance(o, K) else NotImplemented
    def op_getattr(self, cx, name):
        if name == "kind":
            return K(self.kind)
        raise Unsupported(f"parameter attribute {name}")


class SigV(V_.Val):
    def __init__(self, params): self.params = params
    def op_getattr(self, cx, name):
        if name == "parameters":
            return self.params
        raise Unsupported(f"signature attribute {name}")


KINDS = list(inspect._ParameterKind)


@harness("handler.signature-test", {"C16": None})
def signature(cx):
    """handler_accepts_handler_context for an arbitrary callable whose
    signature has any parameters, one of them possibly so named."""
    f = Sym(z3.Const("method", V))
    state = {}

    def sig(cx, a, k):
        if cx.choose("no_signature"):
            state["none"] = True
            raise_py(cx, ValueError if cx.choose("value_error") else TypeError, "no signature")
        others = [One((K(f"p{i}"), ParamV(KINDS[i % len(KINDS)]))) for i in range(2)]
        if cx.choose("named"):
            i = 0
            while i < len(KINDS) - 1 and cx.choose("kind"):
                i += 1
            state["kind"] = KINDS[i]
            return SigV(DictV(others + [One((K("handler_context"), ParamV(KINDS[i])))]))
        return SigV(DictV(others))
    cx.hooks.setdefault("models", {})[id(inspect.signature)] = sig
    r = interp.call(cx, K(handlers.handler_accepts_handler_context), [f])
    t = zb(r.op_truth(cx))
    kind = state.get("kind")
    if kind in (inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY):
        cx.oblige("accepts", t, lambda: f"{kind}")
    elif kind is None:
        cx.oblige("does-not-accept", znot(t), lambda: f"{kind} {state}")
    elif kind is inspect.Parameter.POSITIONAL_ONLY:
        cx.oblige("does-not-accept", znot(t), lambda: f"{kind}")
    cx.oblige("answers", True)
