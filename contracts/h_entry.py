"""The public entry points: every option reaches the worker unchanged, the
worker is used once, and its state does not depend on earlier uses."""
import ast
import inspect
import textwrap
import z3
from pyvc import smt
from .reg import harness
from .rt import *

NOISE = ("self",)


def params(f):
    return [p for p in inspect.signature(f).parameters.values() if p.name not in NOISE]


def arbitrary(cx, names, prefix):
    """An arbitrary value for every option; truth is unknown where it is used."""
    out = {}
    for n in names:
        out[n] = Sym(z3.Const(f"{prefix}:{n}", V))
        cx.assume(alloc(out[n].t) <= 0)
    return out


def capture(cx, names, log, result):
    for n in names:
        cx.contracts[n] = lambda cx, a, k, n=n: (log.append((n, a, k)), result(cx, n))[1]


def bound(f, a, k):
    """Arguments by parameter name."""
    ps = [p.name for p in inspect.signature(f).parameters.values()]
    d = dict(zip(ps, a))
    d.update(k)
    for p in inspect.signature(f).parameters.values():
        if p.name not in d and p.default is not p.empty:
            d[p.name] = K(p.default)
    return d


def called(log):
    """The function the obligations are about is no longer the one used: say
    nothing rather than alarm."""
    if not log:
        raise Unsupported("the expected function is not called any more")


def same(cx, a, b):
    """Two state values are the same, or equal empty containers."""
    if a is b:
        return True
    if isinstance(a, V_.Container) and isinstance(b, V_.Container):
        return a.pytype is b.pytype and len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs))
    if isinstance(a, K) and isinstance(b, K):
        if isinstance(a.v, (list, dict, set)):
            return type(a.v) is type(b.v) and a.v == b.v
        return a.v is b.v or (type(a.v) is type(b.v) and type(a.v) in (int, str, bool, float) and a.v == b.v)
    if isinstance(a, V_.BoundV) and isinstance(b, V_.BoundV):
        return a.func.conc() is b.func.conc()
    try:
        return cx_is(cx, a, b)
    except Unsupported:
        return False


def snapshot(inst):
    """Fields with container contents as they are now."""
    out = {}
    for n, v in inst.fields.items():
        out[n] = type(v)(v.segs) if isinstance(v, (ListV, DictV, SetV)) else v
    return out


def same_state(cx, got, want, name, only=None):
    if set(got) != set(want):
        raise Unsupported(f"fields {sorted(set(got) ^ set(want))} exist only at times")
    for n in sorted(set(got) & set(want)):
        if only is None or n in only:
            cx.oblige(name, same(cx, got[n], want[n]), lambda: f"{n}: {got[n]!r}, expected {want[n]!r}")


ENC = {"C01": ("encode-",), "C05": ("encode-",), "C07": ("encode-",), "C08": ("encode-",), "C09": ("encode-",), "C10": ("encode-",), "C16": ("encode-",), "C17": ("encode-",),
       "C11": ("encode-",)}
DEC = {"C01": ("decode-",), "C05": ("decode-",), "C12": ("decode-",), "C14": ("decode-",), "C16": ("decode-",), "C17": ("decode-",), "C11": ("decode-",)}
ENC_OPTS = ("unpicklable", "make_refs", "keys", "max_depth", "warn", "max_iter", "numeric_keys", "use_decimal", "use_base85",
            "fail_safe", "include_properties", "handle_readonly")
DEC_OPTS = ("keys", "safe", "v1_decode", "handle_readonly")


def flat_contract(cx, log):
    tok = JTok(z3.Const("flattened", V))
    cx.contracts["jsonpickle.pickler.Pickler.flatten"] = lambda cx, a, k: (log.append((a, k, snapshot(a[0]))), tok)[1]
    return tok


def user_backend(cx, blog):
    b = Sym(z3.Const("backend", V), Spec())
    cx.assume(alloc(b.t) <= 0)
    cx.assume(smt.truthy(b.t))
    cx.assume(b.t != NONE)
    out = Sym(z3.Const("text", V))
    data = JTok(z3.Const("parsed", V))
    b.spec.attrs["encode"] = ModelFn("backend.encode", lambda cx, a, k: (blog.append(("encode", [b] + a, k)), out)[1])
    b.spec.attrs["decode"] = ModelFn("backend.decode", lambda cx, a, k: (blog.append(("decode", [b] + a, k)), data)[1])
    return b, out, data


def default_backend(cx, blog):
    out = Sym(z3.Const("text", V))
    data = JTok(z3.Const("parsed", V))
    cx.contracts["jsonpickle.backend.JSONBackend.encode"] = lambda cx, a, k: (blog.append(("encode", a, k)), out)[1]
    cx.contracts["jsonpickle.backend.JSONBackend.decode"] = lambda cx, a, k: (blog.append(("decode", a, k)), data)[1]
    return K(B.json), out, data


def encode(supplied, backend_given, ctx_given):
    def h(cx):
        log, blog = [], []
        tok = flat_contract(cx, log)
        be, out, _ = (user_backend if backend_given else default_backend)(cx, blog)
        o = arbitrary(cx, ENC_OPTS, "opt")
        x = Sym(z3.Const("x", V))
        rest = arbitrary(cx, ("reset", "indent", "separators"), "arg")
        kw = dict(o, **rest)
        if backend_given:
            kw["backend"] = be
        hc = Sym(z3.Const("handler_context", V))
        if ctx_given:
            cx.assume(hc.t != NONE)
            kw["handler_context"] = hc
        if supplied:
            mine = interp.construct(cx, P.Pickler, [], arbitrary(cx, ENC_OPTS, "ctx"))
            before = snapshot(mine)
            kw["context"] = mine
        r = interp.call(cx, K(P.encode), [x], kw)
        called(log)
        if not cx.oblige("encode-flattens-once", len(log) == 1, lambda: f"{len(log)} calls"):
            return
        a, k, state = log[0]
        args = bound(P.Pickler.flatten, a, k)
        cx.oblige("encode-passes-object", same(cx, args["obj"], x))
        cx.oblige("encode-passes-reset", same(cx, args["reset"], rest["reset"]), lambda: f"{args['reset']!r}")
        if supplied:
            cx.oblige("encode-uses-context", a[0] is mine)
            if ctx_given:
                before["handler_context"] = hc
            same_state(cx, state, before, "encode-keeps-context-options")
        else:
            want = dict(o)
            if ctx_given:
                want["handler_context"] = hc
            if backend_given:
                want["backend"] = be
            want["original_object"] = x
            ref = interp.construct(cx, P.Pickler, [], want)
            same_state(cx, state, snapshot(ref), "encode-options-reach-pickler")
        if cx.oblige("encode-backend-called-once", len(blog) == 1 and blog[0][0] == "encode", lambda: f"{blog}"):
            b = bound(B.JSONBackend.encode, blog[0][1], blog[0][2])
            cx.oblige("encode-uses-backend", same(cx, b["self"], be), lambda: f"{b['self']!r}")
            cx.oblige("encode-writes-flattened", same(cx, b["obj"], tok), lambda: f"{b['obj']!r}")
            for n in ("indent", "separators"):
                cx.oblige("encode-passes-" + n, same(cx, b[n], rest[n]), lambda: f"{b[n]!r}")
        cx.oblige("encode-returns-text", same(cx, r, out), lambda: f"{r!r}")
    return h


for s in (False, True):
    for b in (False, True):
        for c in (False, True):
            n = "entry.encode" + (".context" if s else "") + (".backend" if b else "") + (".handler-context" if c else "")
            harness(n, ENC if not (s or c) else {"C16": ("encode-",), "C17": ("encode-",), "C11": ("encode-",), "C05": ("encode-",)})(encode(s, b, c))


def decode(supplied, backend_given, ctx_given):
    def h(cx):
        log, blog = [], []
        res = Sym(z3.Const("result", V))
        cx.contracts["jsonpickle.unpickler.Unpickler.restore"] = lambda cx, a, k: (log.append((a, k, snapshot(a[0]))), res)[1]
        be, _, data = (user_backend if backend_given else default_backend)(cx, blog)
        o = arbitrary(cx, DEC_OPTS, "opt")
        s = Sym(z3.Const("string", V))
        rest = arbitrary(cx, ("reset", "classes"), "arg")
        kw = dict(o, **rest)
        missing = [K("ignore"), K("warn"), K("error"), K("Error"), K("IGNORE"), ModelFn("on_missing", lambda cx, a, k: K(None))]
        i = 0
        while i < len(missing) - 1 and cx.choose("missing"):
            i += 1
        kw["on_missing"] = missing[i]
        if backend_given:
            kw["backend"] = be
        hc = Sym(z3.Const("handler_context", V))
        if ctx_given:
            cx.assume(hc.t != NONE)
            kw["handler_context"] = hc
        if supplied:
            mine = interp.construct(cx, U.Unpickler, [], arbitrary(cx, DEC_OPTS, "ctx"))
            before = snapshot(mine)
            kw["context"] = mine
        r = interp.call(cx, K(U.decode), [s], kw)
        called(log)
        if not cx.oblige("decode-restores-once", len(log) == 1, lambda: f"{len(log)} calls"):
            return
        a, k, state = log[0]
        args = bound(U.Unpickler.restore, a, k)
        cx.oblige("decode-restores-parsed", same(cx, args["obj"], data), lambda: f"{args['obj']!r}")
        cx.oblige("decode-passes-reset", same(cx, args["reset"], rest["reset"]), lambda: f"{args['reset']!r}")
        cx.oblige("decode-passes-classes", same(cx, args["classes"], rest["classes"]), lambda: f"{args['classes']!r}")
        if supplied:
            cx.oblige("decode-uses-context", a[0] is mine)
            if ctx_given:
                before["handler_context"] = hc
            same_state(cx, state, before, "decode-keeps-context-options")
        else:
            want = dict(o)
            m = missing[i]
            want["on_missing"] = K(m.v.lower()) if isinstance(m, K) else m
            if ctx_given:
                want["handler_context"] = hc
            if backend_given:
                want["backend"] = be
            ref = interp.construct(cx, U.Unpickler, [], want)
            same_state(cx, state, snapshot(ref), "decode-options-reach-unpickler")
        if cx.oblige("decode-backend-called-once", len(blog) == 1 and blog[0][0] == "decode", lambda: f"{blog}"):
            b = bound(B.JSONBackend.decode, blog[0][1], blog[0][2])
            cx.oblige("decode-uses-backend", same(cx, b["self"], be), lambda: f"{b['self']!r}")
            cx.oblige("decode-parses-text", same(cx, b["string"], s), lambda: f"{b['string']!r}")
        cx.oblige("decode-returns-result", same(cx, r, res), lambda: f"{r!r}")
    return h


for s in (False, True):
    for b in (False, True):
        for c in (False, True):
            n = "entry.decode" + (".context" if s else "") + (".backend" if b else "") + (".handler-context" if c else "")
            harness(n, DEC if not (s or c) else {"C16": ("decode-",), "C17": ("decode-",), "C11": ("decode-",), "C05": ("decode-",), "C12": ("decode-",)})(decode(s, b, c))


# ----------------------------------------------------------------- constructors
@harness("entry.pickler-options", {"C05": None, "C08": None, "C09": None, "C10": None, "C16": None, "C17": None})
def pickler_init(cx):
    """Each option is held by the field the rest of the encoder reads; the
    limits are checked through the functions that use them."""
    o = arbitrary(cx, ENC_OPTS, "opt")
    hc = Sym(z3.Const("handler_context", V))
    p = interp.construct(cx, P.Pickler, [], dict(o, handler_context=hc))
    for n in ("unpicklable", "make_refs", "keys", "warn", "numeric_keys", "use_base85", "fail_safe", "include_properties", "handle_readonly"):
        if n not in p.fields:
            raise Unsupported(f"the pickler has no field {n}")
        cx.oblige("option-held", same(cx, p.fields[n], o[n]), lambda: f"{n}: {p.fields[n]!r}")
    cx.oblige("option-held", same(cx, p.fields["handler_context"], hc))


@harness("entry.unpickler-options", {"C05": None, "C12": None, "C14": None, "C16": None})
def unpickler_init(cx):
    o = arbitrary(cx, DEC_OPTS + ("on_missing",), "opt")
    hc = Sym(z3.Const("handler_context", V))
    p = interp.construct(cx, U.Unpickler, [], dict(o, handler_context=hc))
    for n in DEC_OPTS + ("on_missing",):
        if n not in p.fields:
            raise Unsupported(f"the unpickler has no field {n}")
        cx.oblige("option-held", same(cx, p.fields[n], o[n]), lambda: f"{n}: {p.fields[n]!r}")
    cx.oblige("option-held", same(cx, p.fields["handler_context"], hc))


# ------------------------------------------------------------------------ reset
def assigned(cls, skip):
    """Attributes of self that methods of the class assign (outside skip)."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(cls)))
    out = set()
    for f in tree.body[0].body:
        if isinstance(f, ast.FunctionDef) and f.name not in skip:
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
    return out


def used(cx, cls, opts):
    """A worker with the options and arbitrary other state, and the state of a
    fresh one.  State is every field that holds a container or that a method
    other than the constructor assigns."""
    w = interp.construct(cx, cls, [], opts)
    fresh = snapshot(interp.construct(cx, cls, [], opts))
    state = {n for n, v in w.fields.items() if isinstance(v, V_.Container)} | assigned(cls, ("__init__",))
    for n in sorted(state):
        v = w.fields.get(n)
        cx.setkey(w.fields, n, type(v)([Opaque(f"used:{n}")]) if isinstance(v, V_.Container) else V_.Havoc(f"used:{n}"))
    return w, fresh, state


@harness("state.pickler-reset", {"C11": None, "C02": ("same-as-fresh",)})
def pickler_reset(cx):
    o = arbitrary(cx, ENC_OPTS, "opt")
    w, fresh, state = used(cx, P.Pickler, o)
    log = []
    cx.contracts["jsonpickle.pickler.Pickler._flatten"] = lambda cx, a, k: (log.append((a, snapshot(a[0]))), JTok(a[1].t))[1]
    cx.contracts["jsonpickle.pickler.Pickler._determine_sort_keys"] = lambda cx, a, k: K(False)
    x = Sym(z3.Const("x", V))
    r = interp.call(cx, w.op_getattr(cx, "flatten"), [x])
    called(log)
    if cx.oblige("flattens-once", len(log) == 1):
        cx.oblige("flattens-the-object", same(cx, log[0][0][1], x))
        same_state(cx, log[0][1], fresh, "same-as-fresh")
    cx.oblige("returns-flattened", isinstance(r, JTok) and r.t.eq(x.t))


@harness("state.pickler-no-reset", {"C11": None, "C05": None, "C16": None})
def pickler_noreset(cx):
    """reset=False leaves the state alone (nested encoding, e.g. of keys)."""
    o = arbitrary(cx, ENC_OPTS, "opt")
    w, fresh, state = used(cx, P.Pickler, o)
    before = snapshot(w)
    log = []
    cx.contracts["jsonpickle.pickler.Pickler._flatten"] = lambda cx, a, k: (log.append((a, snapshot(a[0]))), JTok(a[1].t))[1]
    cx.contracts["jsonpickle.pickler.Pickler._determine_sort_keys"] = lambda cx, a, k: K(False)
    x = Sym(z3.Const("x", V))
    r = interp.call(cx, w.op_getattr(cx, "flatten"), [x], {"reset": K(False)})
    called(log)
    if cx.oblige("flattens-once", len(log) == 1):
        same_state(cx, log[0][1], before, "state-kept")
    same_state(cx, snapshot(w), before, "state-kept")
    cx.oblige("returns-flattened", isinstance(r, JTok) and r.t.eq(x.t))


def restore_state(reset):
    def h(cx):
        o = arbitrary(cx, DEC_OPTS, "opt")
        w, fresh, state = used(cx, U.Unpickler, o)
        before = snapshot(w)
        log = []
        d = JTok(z3.Const("data", V))
        cx.contracts["jsonpickle.unpickler.Unpickler._restore"] = lambda cx, a, k: (log.append((a, snapshot(a[0]))), RTok(a[1].t))[1]
        r = interp.call(cx, w.op_getattr(cx, "restore"), [d], {} if reset else {"reset": K(False)})
        called(log)
        if cx.oblige("restores-once", len(log) == 1):
            cx.oblige("restores-the-data", log[0][0][1] is d)
            same_state(cx, log[0][1], fresh if reset else before, "same-as-fresh" if reset else "state-kept")
        if reset:
            cx.oblige("top-level-placeholder-resolved", is_image(cx, r, d.t), lambda: f"{r!r}")
        else:
            cx.oblige("returns-restored", isinstance(r, RTok) and r.t.eq(d.t), lambda: f"{r!r}")
            same_state(cx, snapshot(w), before, "state-kept")
    return h


harness("state.unpickler-reset", {"C11": None, "C02": None, "C14": ("same-as-fresh",)})(restore_state(True))
harness("state.unpickler-no-reset", {"C05": None, "C11": None, "C02": None})(restore_state(False))


@harness("state.decode-forgets", {"C11": None, "C14": None})
def decode_forgets(cx):
    """decode leaves nothing of the call in module state: the worker it makes
    is its own."""
    log = []
    be, _, data = default_backend(cx, log)
    made = []

    def restore(cx, a, k):
        made.append(a[0])
        return K(None)
    cx.contracts["jsonpickle.unpickler.Unpickler.restore"] = restore
    for i in range(2):
        interp.call(cx, K(U.decode), [Sym(z3.Const(f"s{i}", V))], {})
    cx.oblige("fresh-worker-per-call", len(made) == 2 and made[0] is not made[1])


wants = z3.Function("wants sorted keys", V, z3.BoolSort())


class EncoderOptions(V_.Val):
    """The keyword options of one backend; only sort_keys matters."""

    def __init__(self, t): self.t = t
    def __repr__(self): return f"options {self.t}"
    def subst(self, m): return EncoderOptions(z3.substitute(self.t, *m))
    def op_type(self, cx): return K(dict)
    def op_truth(self, cx): return z3.Or(wants(self.t), truthy(self.t))
    def op_contains(self, cx, k): return self._is(k)
    def op_getitem(self, cx, k): return SBool(self._is(k))
    def m_get(self, cx, k, d=K(None)): return SBool(self._is(k))

    def _is(self, k):
        if not (isinstance(k, K) and k.v == "sort_keys"):
            raise Unsupported(f"encoder option {k!r}")
        return wants(self.t)


@harness("state.sort-keys", {"C11": None, "C07": None, "C02": None})
def sort_keys(cx):
    """The graph is only touched when some backend was told to sort keys."""
    w = interp.construct(cx, P.Pickler, [], {})
    if "backend" not in w.fields or not hasattr(w.fields["backend"], "spec") and not isinstance(w.fields["backend"], (K, V_.InstV)):
        raise Unsupported("backend")
    src = cx.src("options", z3.Const("backends", V), 1, lambda g: [])
    name = Sym(z3.Function("backend name", V, V)(src.gens[0]))
    table = DictV([Bulk(src, [(BT, ((name, TupV([One(Sym(z3.Function("positional", V, V)(src.gens[0]))), One(EncoderOptions(src.gens[0]))])),))])])
    spec = Spec()
    spec.attrs["_encoder_options"] = table
    cx.setkey(w.fields, "backend", Sym(z3.Const("backend", V), spec))
    r = interp.call(cx, w.op_getattr(cx, "_determine_sort_keys"), [])
    some = cx.exists(src, wants(src.gens[0]))
    cx.oblige("sorts-iff-asked-to", interp.truth(cx, r) == bool(some), lambda: f"{r!r}")
