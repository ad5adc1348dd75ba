"""The built-in handlers: what the value's own constructor is given on
decoding is what the value said about itself on encoding.

That handlers are called and their results used is shown by handler.dispatch;
that the standard library's constructors invert its accessors is assumed, one
equation per class, and covered by the bounded check."""
import array
import copy
import datetime
import queue
import re
import threading
import uuid
import z3
from pyvc import smt, strs, interp, models
from .reg import harness
from .rt import *
from .h_core import both, item

S, BOOL = smt.S, z3.BoolSort()


def handled(cx, cls, opts=None):
    """Encoder and decoder, a value of the class, and the handler the real
    registry has for it."""
    w = both(cx, opts)
    h = handlers.get(cls)
    if not isinstance(h, type) or not issubclass(h, handlers.BaseHandler):
        raise Unsupported(f"handler of {cls.__name__}: {h!r}")
    x = item(cx, "x", cls)
    x.spec = Spec()
    return w, h, x


def out(cx, w, h, x, attrs):
    """What the handler makes of x, whose accessors are attrs."""
    x.spec.attrs.update(attrs)
    before = len(w.plog.segs)
    inst = interp.construct(cx, h, [w.P], {})
    data = DictV([One((K(tags.OBJECT), K(util.importable_name(type_of(cx, x)))))])
    return interp.call(cx, inst.op_getattr(cx, "flatten"), [x, data]), data


def type_of(cx, x):
    return V_.exact_of(cx, x)


def back(cx, w, h, j):
    inst = interp.construct(cx, h, [w.U], {})
    return interp.call(cx, inst.op_getattr(cx, "restore"), [jsoncopy(cx, j)])


def method(name, r):
    def m(cx, a, k):
        if a or k:
            raise Unsupported(f"{name} with arguments")
        return r
    return ModelFn(name, m)


def made_by(cx, f, log, result):
    """Calls of the library function f are recorded and give result."""
    def m(cx, a, k):
        log.append((list(a), dict(k)))
        return result
    cx.hooks["models"][id(f)] = m


def once(cx, log, n):
    return cx.oblige("made-once", len(log) == 1 and len(log[0][0]) == n and not log[0][1], lambda: f"{log}")


def agree(cx, w):
    """Nested values are numbered alike on both sides."""
    logs_agree(cx, w, lambda *_: True)


C18 = {"C18": None, "C07": ("output-is-json",)}


@harness("std.uuid", C18)
def uuid_(cx):
    w, h, x = handled(cx, uuid.UUID)
    hx = SStr(z3.Const("hex", S))
    j, data = out(cx, w, h, x, {"hex": hx})
    log, res = [], Sym(z3.Const("result", V))
    made_by(cx, uuid.UUID, log, res)
    cx.assumption("uuid.UUID(u.hex) equals u")
    r = back(cx, w, h, j)
    if once(cx, log, 1):
        cx.oblige("made-from-its-hex", cx_eq(cx, log[0][0][0], hx), lambda: f"{log}")
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")


@harness("std.regex", C18)
def regex(cx):
    w, h, x = handled(cx, re.Pattern)
    pat = item(cx, "pattern", cx.pick("pattern", [str, bytes]))
    flags = SInt(z3.Int("flags"))
    cx.assume(flags.i >= 0)
    j, data = out(cx, w, h, x, {"pattern": pat, "flags": flags})
    log, res = [], Sym(z3.Const("result", V))
    made_by(cx, re.compile, log, res)
    cx.assumption("re.compile(p.pattern, p.flags) equals p")
    r = back(cx, w, h, j)
    if once(cx, log, 2):
        a = log[0][0]
        cx.oblige("pattern-restored", cx_is(cx, a[0], pat), lambda: f"{a[0]!r}")
        cx.oblige("flags-restored", cx_eq(cx, a[1], flags), lambda: f"{a[1]!r}")
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")


@harness("std.queue", C18)
def queue_(cx):
    w, h, x = handled(cx, queue.Queue)
    j, data = out(cx, w, h, x, {})
    log, res = [], Sym(z3.Const("result", V))
    made_by(cx, queue.Queue, log, res)
    r = back(cx, w, h, j)
    once(cx, log, 0)
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")


class Lock(V_.Val):
    def __init__(self):
        self.born = serial()
        self.held = K(0)

    def __repr__(self): return "new lock"
    def term(self, cx): return z3.Const("lock", V)

    def op_getattr(self, cx, name):
        if name == "acquire":
            def m(cx, a, k):
                if a or k:
                    raise Unsupported("acquire with arguments")
                cx.set(self, "held", K(self.held.v + 1))
                return K(True)
            return ModelFn("acquire", m)
        raise Unsupported(f"lock attribute {name}")


@harness("std.lock", C18)
def lock(cx):
    w, h, x = handled(cx, type(threading.Lock()))
    held = z3.Bool("held")
    j, data = out(cx, w, h, x, {"locked": method("locked", SBool(held))})
    log, res = [], Lock()
    made_by(cx, threading.Lock, log, res)
    r = back(cx, w, h, j)
    once(cx, log, 0)
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")
    cx.oblige("held-as-before", held if res.held.v == 1 else z3.Not(held) if res.held.v == 0 else False, lambda: f"acquired {res.held.v} times")


@harness("std.array", dict(C18, C02=("reference",)))
def array_(cx):
    w, h, x = handled(cx, array.array)
    code = SStr(z3.Const("typecode", S))
    cx.assume(code.s != strs.sval("c"))
    cx.assumption("array type codes are those of Python 3 (no 'c')")
    src = cx.src("values", x.t, 1, lambda g: [z3.Or(*[typeof(g[0]) == cx.L.tconst(c) for c in (int, float, str)]), z3.Not(isproxy(g[0]))])
    vals = ListV([Bulk(src, [(BT, (Sym(src.gens[0]),))])])
    j, data = out(cx, w, h, x, {"typecode": code, "tolist": method("tolist", vals)})
    log, res = [], Sym(z3.Const("result", V))
    made_by(cx, array.array, log, res)
    cx.assumption("array.array(a.typecode, a.tolist()) equals a")
    r = back(cx, w, h, j)
    if once(cx, log, 2):
        a = log[0][0]
        cx.oblige("type-code-restored", cx_eq(cx, a[0], code), lambda: f"{a[0]!r}")
        seq_same(cx, V_.iter_segs(cx, a[1]), src, "values-restored")
    cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")
    agree(cx, w)


PAY = z3.Function("payload", V, z3.IntSort(), V)


def moment(cls):
    def h(cx):
        w, h, x = handled(cx, cls)
        extra = cx.pick("with timezone", [False, True]) if cls is not datetime.date else False
        tz = item(cx, "tzinfo")
        cx.assume(z3.Not(isproxy(tz.t)))

        def reduce(cx, a, k):
            p = a[0].conc() if len(a) == 1 and not k else None
            if not isinstance(p, int):
                raise Unsupported("reduce protocol")
            b = PAY(x.t, p)
            cx.assume(typeof(b) == cx.L.tconst(bytes))
            return TupV([One(K(cls)), One(TupV([One(Sym(b))] + ([One(tz)] if extra else [])))])
        res = Sym(z3.Const("result", V))
        log = []
        made_by(cx, cls.__new__, log, res)
        cx.assumption("a date, time or datetime equals, fold included, what its class makes of its own payload of protocol 4")
        j, data = out(cx, w, h, x, {"__reduce_ex__": ModelFn("__reduce_ex__", reduce)})
        r = back(cx, w, h, j)
        if once(cx, log, 3 if extra else 2):
            a = log[0][0]
            cx.oblige("made-of-its-class", isinstance(a[0], K) and a[0].v is cls, lambda: f"{a[0]!r}")
            cx.oblige("payload-restored", zor(*[cx_is(cx, a[1], Sym(PAY(x.t, p))) for p in (4, 5)]), lambda: f"{a[1]!r}")
            if extra:
                cx.oblige("timezone-restored", is_image(cx, a[2], tz.t), lambda: f"{a[2]!r}")
        cx.oblige("made-value-returned", r is res, lambda: f"{r!r}")
        agree(cx, w)
    return h


def text(cls):
    def h(cx):
        w, h, x = handled(cx, cls, {"unpicklable": K(False)})
        s = SStr(z3.Const("isoformat", S))
        j, data = out(cx, w, h, x, {"isoformat": method("isoformat", s)})
        cx.oblige("iso-text", cx_is(cx, j, s) if not isinstance(j, SStr) else cx_eq(cx, j, s), lambda: f"{j!r}")
    return h


for _c in (datetime.datetime, datetime.date, datetime.time):
    harness(f"std.{_c.__name__}", dict(C18, C02=("reference",)))(moment(_c))
    harness(f"std.{_c.__name__}.text", {"C08": None, "C07": None})(text(_c))


@harness("std.clone-factory", {"C06": None, "C18": None})
def clone(cx):
    """A factory gives a copy of its exemplar each time."""
    e = item(cx, "exemplar")
    f = interp.construct(cx, handlers.CloneFactory, [e], {})
    log = []
    n = [0]

    def cp(cx, a, k):
        log.append((list(a), dict(k)))
        n[0] += 1
        return Sym(z3.Const(f"copy{n[0]}", V))
    for c in (copy.copy, copy.deepcopy):
        cx.hooks.setdefault("models", {})[id(c)] = cp
    rs = [interp.call(cx, f, []) for _ in range(2)]
    ok = len(log) == 2 and all(len(a) == 1 and not k and a[0] is e for a, k in log)
    cx.oblige("a-new-copy-each-time", ok and rs[0].t.eq(z3.Const("copy1", V)) and rs[1].t.eq(z3.Const("copy2", V)), lambda: f"{log} {rs}")
    cx.oblige("exemplar-kept", f.fields.get("exemplar") is e)
