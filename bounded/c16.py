from .lib import *
from . import classes as C
import contextlib
import functools
import json
import jsonpickle
import jsonpickle.handlers as H
import jsonpickle.pickler
import jsonpickle.unpickler

P, U = jsonpickle.pickler.Pickler, jsonpickle.unpickler.Unpickler
LOG = []
NONE = object()


class Base(H.BaseHandler):
    names = (True, True)      # does flatten / restore name the parameter

    def out(self, obj, data):
        if hasattr(obj, "v"):
            data["v"] = self.context.flatten(obj.v, reset=False)
        return data

    def back(self, data):
        o = CLASSES[type(self)].__new__(CLASSES[type(self)])
        if "v" in data:
            o.v = self.context.restore(data["v"], reset=False)
        return o


class Both(Base):
    def flatten(self, obj, data, handler_context=NONE):
        LOG.append(("Both.flatten", handler_context))
        return self.out(obj, data)

    def restore(self, data, handler_context=NONE):
        LOG.append(("Both.restore", handler_context))
        return self.back(data)


class KwOnly(Base):
    def flatten(self, obj, data, *, handler_context=NONE):
        LOG.append(("KwOnly.flatten", handler_context))
        return self.out(obj, data)

    def restore(self, data, *, handler_context=NONE):
        LOG.append(("KwOnly.restore", handler_context))
        return self.back(data)


class Neither(Base):
    names = (False, False)

    def flatten(self, obj, data):
        LOG.append(("Neither.flatten", NONE))
        return self.out(obj, data)

    def restore(self, data):
        LOG.append(("Neither.restore", NONE))
        return self.back(data)


class OnlyFlatten(Base):
    names = (True, False)

    def flatten(self, obj, data, handler_context=NONE):
        LOG.append(("OnlyFlatten.flatten", handler_context))
        return self.out(obj, data)

    def restore(self, data):
        LOG.append(("OnlyFlatten.restore", NONE))
        return self.back(data)


class OnlyRestore(Base):
    names = (False, True)

    def flatten(self, obj, data):
        LOG.append(("OnlyRestore.flatten", NONE))
        return self.out(obj, data)

    def restore(self, data, handler_context=NONE):
        LOG.append(("OnlyRestore.restore", handler_context))
        return self.back(data)


class Kwargs(Base):
    """Takes any keyword, but does not name the parameter."""
    names = (False, False)

    def flatten(self, obj, data, **kw):
        LOG.append(("Kwargs.flatten", kw.get("handler_context", NONE)))
        return self.out(obj, data)

    def restore(self, data, **kw):
        LOG.append(("Kwargs.restore", kw.get("handler_context", NONE)))
        return self.back(data)


class Extra(Base):
    """The parameter is not the first optional one."""

    def flatten(self, obj, data, other=5, *args, handler_context=NONE, more=None, **kw):
        LOG.append(("Extra.flatten", handler_context if (other, args, more, kw) == (5, (), None, {}) else "bad call"))
        return self.out(obj, data)

    def restore(self, data, other=5, handler_context=NONE, more=None):
        LOG.append(("Extra.restore", handler_context if (other, more) == (5, None) else "bad call"))
        return self.back(data)


class OtherName(Base):
    names = (False, False)

    def flatten(self, obj, data, context=NONE, handler_ctx=NONE):
        LOG.append(("OtherName.flatten", NONE if context is NONE and handler_ctx is NONE else "bad call"))
        return self.out(obj, data)

    def restore(self, data, context=NONE):
        LOG.append(("OtherName.restore", NONE if context is NONE else "bad call"))
        return self.back(data)


class Static(Base):
    """Inherits one of the methods."""

    def flatten(self, obj, data, handler_context=NONE):
        LOG.append(("Static.flatten", handler_context))
        return self.out(obj, data)

    restore = functools.partialmethod(lambda self, data, handler_context=NONE: (LOG.append(("Static.restore", handler_context)), self.back(data))[1])


HANDLERS = [Both, KwOnly, Neither, OnlyFlatten, OnlyRestore, Kwargs, Extra, OtherName, Static]
CLASSES = {}
for _h in HANDLERS:
    _c = type("For" + _h.__name__, (), {"__module__": __name__})
    globals()[_c.__name__] = _c
    CLASSES[_h] = _c
    H.register(_c, _h)
BY = {c: h for h, c in CLASSES.items()}


def ggraph(r, depth=3):
    calls = []

    def v(d):
        k = r.randrange(8)
        if k < 4:
            h = r.choice(HANDLERS)
            o = CLASSES[h].__new__(CLASSES[h])
            calls.append(h)
            if d > 0 and r.random() < 0.5:
                o.v = v(d - 1)
            return o
        if d <= 0 or k == 4: return gatom(r)
        n = r.randint(1, 3)
        if k == 5: return [v(d - 1) for _ in range(n)]
        if k == 6: return {c: v(d - 1) for c in "abc"[:n]}
        o = C.Plain.__new__(C.Plain)
        o.a = v(d - 1)
        return o
    return [v(depth) for _ in range(r.randint(1, 3))], calls


def check(what, calls, ctx, part):
    got = list(LOG)
    LOG.clear()
    want = {}
    for h in calls:
        n = f"{h.__name__}.{part}"
        want[n] = want.get(n, 0) + 1
    cnt = {}
    for n, c in got:
        cnt[n] = cnt.get(n, 0) + 1
        h = [x for x in HANDLERS if x.__name__ == n.split(".")[0]][0]
        names = h.names[0 if part == "flatten" else 1]
        w = ctx if names and ctx is not None else NONE
        if c is not w:
            raise Bad(f"{what}: {n} got {short(c, 60)} as context instead of {'the given object' if w is ctx else 'nothing'}")
    if cnt != want:
        raise Bad(f"{what}: handler calls {cnt} instead of {want}")


def gctx(r):
    return r.choice([lambda: {"a": 1}, lambda: [], lambda: 0, lambda: "", lambda: False, lambda: object(), lambda: {}, lambda: (1,), lambda: "ctx", lambda: C.Falsy()])()


@suite("C16", 2500)
def passed(r, t):
    x, calls = ggraph(r)
    ctx = gctx(r) if r.random() < 0.75 else None
    ctx2 = gctx(r) if r.random() < 0.75 else None
    keys = r.random() < 0.3
    t.note((ctx, ctx2, [h.__name__ for h in calls]))
    LOG.clear()
    via = r.randrange(4)
    o = {} if ctx is None and r.random() < 0.5 else {"handler_context": ctx}
    if via == 0: s = jsonpickle.encode(x, keys=keys, **o)
    elif via == 1: s = jsonpickle.encode(x, context=P(keys=keys), **o)
    elif via == 2: s = json.dumps(P(keys=keys, **o).flatten(x))
    else: s = jsonpickle.encode(x, context=P(keys=keys, **o))
    check("encode", calls, ctx, "flatten")
    o = {} if ctx2 is None and r.random() < 0.5 else {"handler_context": ctx2}
    via = r.randrange(4)
    if via == 0: jsonpickle.decode(s, keys=keys, **o)
    elif via == 1: jsonpickle.decode(s, context=U(keys=keys), **o)
    elif via == 2: U(keys=keys, **o).restore(json.loads(s))
    else: jsonpickle.decode(s, context=U(keys=keys, **o))
    check("decode", calls, ctx2, "restore")
    # nothing leaks into operations with a fresh context
    s2 = jsonpickle.encode(x)
    check("encode without context", calls, None, "flatten")
    jsonpickle.decode(s2)
    check("decode without context", calls, None, "restore")


@fixed("C16")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @contextlib.contextmanager
    def registered(cls, h, **k):
        H.register(cls, h, **k)
        try:
            yield
        finally:
            H.unregister(cls)

    class X:
        pass

    @case("objects inside encoded keys")
    def _():
        class K:
            def __hash__(self): return 1
            def __eq__(self, o): return type(o) is type(self)
        got = []

        class KH(H.BaseHandler):
            def flatten(self, obj, data, handler_context=NONE):
                got.append(handler_context)
                return data

            def restore(self, data, handler_context=NONE):
                got.append(handler_context)
                return K()
        ctx = {"c": 1}
        with registered(K, KH):
            s = jsonpickle.encode({K(): 1, "z": [{(1, K()): 2}]}, keys=True, handler_context=ctx)
            if len(got) != 2 or any(g is not ctx for g in got):
                raise Bad("context lost for keys when encoding", got=got)
            got.clear()
            jsonpickle.decode(s, keys=True, handler_context=ctx, classes=K)
            if len(got) != 2 or any(g is not ctx for g in got):
                raise Bad("context lost for keys when decoding", got=got)

    @case("required parameter")
    def _():
        class RH(H.BaseHandler):
            def flatten(self, obj, data, handler_context):
                data["c"] = handler_context
                return data

            def restore(self, data, handler_context):
                return ("restored", handler_context)
        with registered(X, RH):
            j = json.loads(jsonpickle.encode(X(), handler_context=5))
            if j.get("c") != 5:
                raise Bad("required parameter not given", result=j)
            y = jsonpickle.decode(json.dumps(j), handler_context=6, classes=X)
            if y != ("restored", 6):
                raise Bad("required parameter not given", result=y)

    @case("base handlers and handler instances")
    def _():
        class Y(X):
            pass
        got = []

        class BH(H.BaseHandler):
            def flatten(self, obj, data, *, handler_context=NONE):
                got.append(handler_context)
                return data

            def restore(self, data, *, handler_context=NONE):
                got.append(handler_context)
                return 1
        ctx = []
        for h in (BH, BH(None)):
            with registered(X, h, base=True):
                got.clear()
                s = jsonpickle.encode([Y(), X()], handler_context=ctx)
                jsonpickle.decode(s, handler_context=ctx, classes=[X, Y])
                if len(got) != 4 or any(g is not ctx for g in got):
                    raise Bad("context not passed", got=got)

    @case("method signatures")
    def _():
        f = H.handler_accepts_handler_context
        cases = [(lambda a, handler_context: 0, True), (lambda *, handler_context: 0, True), (lambda a, b: 0, False), (lambda **k: 0, False), (lambda *handler_context: 0, False), (eval("lambda handler_context, /: 0"), False),
                 (lambda a, handler_context=None: 0, True), (lambda *a, handler_context=None, **k: 0, True), (lambda handler_contextx: 0, False), (len, False), (dict, False), (functools.partial(lambda a, handler_context: 0, 1), True)]
        for i, (g, w) in enumerate(cases):
            if bool(f(g)) != w:
                raise Bad(f"signature {i}: {f(g)} instead of {w}")

    @case("one pickler, several contexts")
    def _():
        p, u = P(), U()
        x = [CLASSES[Both]()]
        for ctx in ({"a": 1}, {"b": 2}, 7):
            LOG.clear()
            s = jsonpickle.encode(x, context=p, handler_context=ctx)
            check("encode", [Both], ctx, "flatten")
            jsonpickle.decode(s, context=u, handler_context=ctx)
            check("decode", [Both], ctx, "restore")
        LOG.clear()
        s = jsonpickle.encode(x, context=P())
        check("fresh", [Both], None, "flatten")

    @case("failing operation does not leak")
    def _():
        class F(H.BaseHandler):
            def flatten(self, obj, data, handler_context=NONE):
                raise ValueError

            def restore(self, data, handler_context=NONE):
                raise ValueError
        with registered(X, F):
            for _ in range(2):
                try:
                    jsonpickle.encode([X()], handler_context={"leak": 1})
                except ValueError:
                    pass
                LOG.clear()
                s = jsonpickle.encode([CLASSES[Both]()])
                check("after a failure", [Both], None, "flatten")

    @case("unpicklable=False, make_refs=False, fail_safe")
    def _():
        ctx = {}
        for o in ({"unpicklable": False}, {"make_refs": False}, {"fail_safe": lambda e: 0}, {"max_depth": 5}, {"use_base85": True}, {"numeric_keys": True}):
            LOG.clear()
            jsonpickle.encode([CLASSES[Both](), {"k": CLASSES[KwOnly]()}, CLASSES[Neither]()], handler_context=ctx, **o)
            check(str(o), [Both, KwOnly, Neither], ctx, "flatten")
    return out
