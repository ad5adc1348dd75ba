"""fail_safe: what happens when flattening an object raises."""
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_core import data_value, plain_key, item, options, popts
from .h_inst import instance, attr_items, name_sets
from .h_cont import elements
from .h_entry import called
from .h_plain import Cache

STEP = "jsonpickle.pickler.Pickler._get_flattener"
num = z3.Function("number", V, z3.IntSort())


class Table(V_.Val):
    """Reference table with unknown earlier content, to which the step under
    study adds any number of new entries."""

    def __init__(self, cx):
        self.born = serial()
        self.grown = False
        self.gone = Log("removed")
        self.src = cx.src("registered", z3.Const("step", V), 1)
        self.n = Opaque("table-before")

    def segs(self):
        return [self.n] + ([Bulk(self.src, [(BT, (SInt(smt.ident(self.src.gens[0])),))])] if self.grown else [])

    def op_contains(self, cx, k):
        if self.grown:
            raise Unsupported("table lookup after the step")
        t = ident_arg(k)
        if t is None:
            raise Unsupported("table lookup by non-id")
        return z3.Function("seen0", V, z3.BoolSort())(t)

    def op_len(self, cx): return V_.seg_len(cx, self.segs())
    def op_iter(self, cx): return self.segs()
    def m_keys(self, cx): return ListV(self.segs())

    def op_delitem(self, cx, k):
        t = ident_arg(k)
        if t is None:
            raise Unsupported("removal by non-id")
        self.gone.add(cx, t)

    def m_pop(self, cx, k, *d):
        self.op_delitem(cx, k)
        return K(None)

    def op_type(self, cx): return K(dict)
    def op_truth(self, cx): raise Unsupported("truth of the table")


class SymExc(ExcV):
    def __init__(self, cx, name="E"):
        super().__init__(TypeV(z3.Const(name, T)), [], tag=name)
        cx.assume(cx.L.sub(self.cls.t, BaseException))


def ordinary(cx, e):
    return z3.And(cx.L.sub(e.cls.t, Exception), *[z3.Not(cx.L.sub(e.cls.t, c)) for c in (KeyboardInterrupt, SystemExit)])


def step(given):
    def h(cx):
        calls = []
        stand = Sym(z3.Const("stand-in", V))

        def fs(cx, a, k):
            calls.append((list(a), dict(k)))
            return stand
        opts = dict(popts(), **options("unpicklable", "make_refs"))
        if given:
            opts["fail_safe"] = ModelFn("fail_safe", fs)
        w = World(cx, opts)
        tab = Table(cx)
        cx.setkey(w.P.fields, "_objs", tab)
        x = item(cx)
        cx.assume(z3.Not(z3.Function("seen0", V, z3.BoolSort())(x.t)))
        x.spec = Spec()
        log = []
        e = SymExc(cx)
        res = Sym(z3.Const("result", V))
        fails = z3.Bool("raises")

        def fl(cx, a, k):
            cx.set(tab, "grown", True)
            if cx.decide(fails):
                raise PyExc(e)
            return res

        def get(cx, a, k):
            log.append(a)
            if cx.decide(z3.Bool("raises-at-once")):
                raise PyExc(e)
            return ModelFn("flattener", fl)
        cx.contracts[STEP] = get
        before = w.P.fields["_depth"]
        out = exc = None
        if "_flatten_obj" not in P.Pickler.__dict__:
            raise Unsupported("no _flatten_obj any more")
        try:
            out = interp.call_repo(cx, P.Pickler._flatten_obj, [w.P, x], {})
        except PyExc as ex:
            exc = ex.exc
        if not log:
            raise Unsupported("the flattener is not looked up any more")
        cx.oblige("step-on-the-object", len(log) == 1 and log[0][-1] is x, lambda: f"{log}")
        if w.P.fields["_objs"] is not tab:
            raise Unsupported("table replaced")
        failed = zor(z3.Bool("raises-at-once"), fails)
        ordy = ordinary(cx, e)
        if exc is not None:
            cx.oblige("propagates-unchanged", exc is e, lambda: f"{exc!r}")
            cx.oblige("propagates-only-if-it-must", zand(failed, znot(ordy)) if given else failed, lambda: f"{exc!r}")
            cx.oblige("fail-safe-not-called", not calls)
            return
        gone = nonempty_segs(cx, tab.gone.segs)
        if calls:
            cx.oblige("fail-safe-called-with-the-exception", len(calls) == 1 and not calls[0][1] and len(calls[0][0]) == 1 and calls[0][0][0] is e, lambda: f"{calls}")
            cx.oblige("fail-safe-only-on-failure", zand(failed, ordy))
            cx.oblige("stand-in-used", out is stand, lambda: f"{out!r}")
            if not tab.grown:
                cx.oblige("numbers-as-if-replaced", not gone, lambda: f"{gone}")
            elif cx.oblige("numbers-as-if-replaced", len(gone) == 1 and isinstance(gone[0], Bulk) and gone[0].src is tab.src, lambda: f"removed {gone}"):
                each(cx, gone[0], lambda es: cx.oblige("numbers-as-if-replaced", zand(len(es) == 1, es[0][0] == tab.src.gens[0] if es else False), lambda: f"{es}"))
            return
        cx.oblige("result-unchanged", zand(z3.Not(failed), out is res), lambda: f"{out!r}")
        cx.oblige("numbers-kept", not gone, lambda: f"{gone}")
    return h


FS = {"C10": None}
harness("failsafe.given", FS)(step(True))
harness("failsafe.none", FS)(step(False))


def child_raises(kind, given):
    """What a part raises leaves the whole unchanged (with fail_safe, only
    what is no ordinary exception gets out of a part)."""
    def h(cx):
        calls = []
        opts = dict(popts(), **options("unpicklable"))
        if given:
            opts["fail_safe"] = ModelFn("fail_safe", lambda cx, a, k: (calls.append(a), K(None))[1])
        w = World(cx, opts)
        name_sets(cx)
        if "_flattened" not in w.P.fields:
            raise Unsupported("the state has no field _flattened any more")
        w.P.fields["_flattened"] = Cache(lambda t: False)
        e = SymExc(cx)
        if given:
            cx.assume(z3.Or(cx.L.sub(e.cls.t, KeyboardInterrupt), cx.L.sub(e.cls.t, SystemExit)))
        bad = z3.Function("raises", V, z3.BoolSort())

        def may(cx, v):
            if cx.decide(bad(v.t)):
                raise PyExc(e)
        cx.hooks["flatten_raises"] = may
        if kind in (list, tuple, set):
            x = item(cx, cls=kind)
            srcs = lambda: [cx.src("elems", x.t)]
        elif kind is dict:
            cx.hooks["itemfacts"] = lambda g: data_value(cx, g[1]) + plain_key(cx, g[0])
            x = item(cx, cls=dict)
            srcs = lambda: [cx.src("items", x.t, 2)]
        elif kind == "sequence":
            attr_items(cx)
            x, d, sp, inst = instance(cx, base=list)
            es = elements(cx, x)
            srcs = lambda: [es, cx.src("items", d.t, 2)]
        else:
            attr_items(cx)
            x, d, sp, inst = instance(cx)
            srcs = lambda: [cx.src("items", d.t, 2)]
        cx.assume(z3.Not(z3.Function("seen0", V, z3.BoolSort())(x.t)))
        exc = None
        try:
            w.flatten(x)
        except PyExc as ex:
            exc = ex.exc
        if exc is not None:
            cx.oblige("part-propagates-unchanged", exc is e, lambda: f"{exc!r}")
            cx.oblige("part-fail-safe-not-called", not calls)
            return
        for s in srcs():
            n = len(cx.pc)
            for f in cx.src_facts(s):
                cx.assume(f)
            if cx.feasible():
                cx.oblige("part-propagates", znot(bad(s.gens[-1])), "the exception of a part is lost")
            del cx.pc[n:]
    return h


for _k in (list, tuple, set, dict, "sequence", "instance"):
    _n = _k if isinstance(_k, str) else _k.__name__
    harness(f"failsafe.part.{_n}", FS)(child_raises(_k, False))
    harness(f"failsafe.part.{_n}.given", FS)(child_raises(_k, True))
