"""Depth and iteration limits."""
import collections.abc
import enum
import io
import z3
from pyvc import smt, strs, interp
from .reg import harness
from .rt import *
from .h_core import seen0, data_value, plain_key, item, options, popts, both, trip
from .h_inst import instance, attr_items, name_sets
from .h_cont import elements
from .h_fail import STEP

ATOMIC = (str, int, bool, float, type(None), bytes, bytearray)


@harness("depth.limit", {"C09": None})
def limit(cx):
    """One value that is no scalar: replaced by its repr text exactly at the
    limit, and handled at a level of its own."""
    md = SInt(z3.Int("max_depth")) if cx.choose("limited") else K(None)
    w = World(cx, dict(popts(), max_depth=md))
    d = z3.Int("depth0")
    cx.assume(d >= -1)
    cx.setkey(w.P.fields, "_depth", SInt(d))
    x = item(cx)
    x.spec = Spec()
    for c in ATOMIC:
        cx.assume(typeof(x.t) != cx.L.tconst(c))
    log = []
    res = Sym(z3.Const("result", V))
    depth = lambda: V_.as_int(cx, w.P.fields["_depth"])

    def get(cx, a, k):
        log.append(a)

        def fl(cx, b, k):
            cx.oblige("own-level", depth() == d + 1, lambda: f"{w.P.fields['_depth']!r}")
            cx.oblige("on-the-object", len(b) == 1 and b[0] is x)
            return res
        return ModelFn("flattener", fl)
    cx.contracts[STEP] = get
    # the root resets the state on leaving: see entry.*
    cx.contracts["jsonpickle.pickler.Pickler.reset"] = lambda cx, a, k: K(None)
    j = interp.call_repo(cx, P.Pickler._flatten_impl, [w.P, x], {}) if "_flatten_impl" in P.Pickler.__dict__ else w.flatten(x)
    member = cx.L.sub(typeof(x.t), enum.Enum)
    at = zand(False if isinstance(md, K) else d + 1 == md.i, znot(member))
    cx.oblige("level-restored", depth() == d, lambda: f"{w.P.fields['_depth']!r}")
    if j is res:
        cx.oblige("full-unless-at-the-limit", znot(at))
        return
    if not log and not isinstance(j, SStr):
        raise Unsupported("the flattener is not looked up any more")
    cx.oblige("cut-only-at-the-limit", at, lambda: f"{j!r}")
    cx.oblige("cut-is-repr-text", (isinstance(j, SStr) and j.s == smt.repr_of(x.t)), lambda: f"{j!r}")
    cx.oblige("cut-registers-nothing", not nonempty_segs(cx, w.plog.segs), lambda: f"{w.plog}")


def levels(kind):
    """The parts of a container or instance are one level deeper."""
    def h(cx):
        md = SInt(z3.Int("max_depth")) if cx.choose("limited") else K(None)
        w = World(cx, dict(popts(), max_depth=md))
        name_sets(cx)
        d = z3.Int("depth0")
        cx.assume(d >= -1)
        cx.setkey(w.P.fields, "_depth", SInt(d))
        if not isinstance(md, K):
            cx.assume(md.i != d + 1)
        cx.contracts["jsonpickle.pickler.Pickler.reset"] = lambda cx, a, k: K(None)

        def may(cx, v):
            cx.oblige("parts-one-level-deeper", V_.as_int(cx, w.P.fields["_depth"]) == d + 1, lambda: f"{w.P.fields['_depth']!r}")
        cx.hooks["flatten_raises"] = may
        if kind in (list, tuple, set):
            x = item(cx, cls=kind)
        elif kind is dict:
            cx.hooks["itemfacts"] = lambda g: data_value(cx, g[1]) + plain_key(cx, g[0])
            x = item(cx, cls=dict)
        elif kind == "sequence":
            attr_items(cx)
            x, _, sp, inst = instance(cx, base=list)
            elements(cx, x)
        elif kind == "mapping":
            attr_items(cx)
            x, _, sp, inst = instance(cx, base=dict)
            items = cx.src("items", x.t, 2, lambda g: data_value(cx, g[1]) + plain_key(cx, g[0]) + [str_of(g[0]) != strs.sval("default_factory")])
            pairs = ListV([Bulk(items, [(z3.BoolVal(True), (TupV([One(Sym(items.gens[0])), One(Sym(items.gens[1]))]),))])])
            x.spec.attrs["items"] = ModelFn("items", lambda cx, a, k: pairs)
        else:
            attr_items(cx)
            x, _, sp, inst = instance(cx)
        cx.assume(z3.Not(seen0(x.t)))
        w.flatten(x)
        cx.oblige("level-restored", V_.as_int(cx, w.P.fields["_depth"]) == d, lambda: f"{w.P.fields['_depth']!r}")
    return h


for _k in (list, tuple, set, dict, "sequence", "mapping", "instance"):
    harness(f"depth.parts.{_k if isinstance(_k, str) else _k.__name__}", {"C09": None})(levels(_k))


@harness("iter.limit", {"C09": None, "C01": ("items",), "C07": ("output-is-json",)})
def iter_limit(cx):
    """An iterator without a reduce hook: its first items, and no others, in
    order; all of them without a limit."""
    n = SInt(z3.Int("max_iter")) if cx.choose("limited") else K(None)
    if isinstance(n, SInt):
        cx.assume(n.i >= 0)
    w = both(cx, {"max_iter": n})
    x, d, sp, inst = instance(cx, base=collections.abc.Iterator, has_dict=cx.choose("has_dict"))
    cx.assume(z3.Not(cx.L.sub(typeof(x.t), io.IOBase)))
    src = elements(cx, x)
    x.spec.attrs["__next__"] = ModelFn("next", lambda cx, a, k: (_ for _ in ()).throw(Unsupported("next")))
    j = w.flatten(x)
    jj = jsoncopy(cx, j)
    if not cx.oblige("items-stored", isinstance(jj, DictV), lambda: f"{jj!r}"):
        return
    if cx.prove(seen0(x.t)):
        return
    v = jj.find(cx, K(tags.ITERATOR))
    if not cx.oblige("items-stored", isinstance(v, ListV), lambda: f"{jj!r}"):
        return
    g = src.gens[0]
    within = V_.idx_fn(src)(g) < n.i if isinstance(n, SInt) else z3.BoolVal(True)
    segs = nonempty_segs(cx, v.segs)
    if not segs:
        cx.oblige("items-exact", z3.Not(z3.And(*cx.src_facts(src), within)), "nothing stored")
        return
    if not cx.oblige("items-exact", len(segs) == 1 and isinstance(segs[0], Bulk) and segs[0].src is src and not segs[0].partial, lambda: f"{segs}"):
        return

    def one(es):
        if es:
            cx.oblige("items-exact", zand(within, len(es) == 1, es[0].t == g if isinstance(es[0], (JTok, Sym)) else False), lambda: f"{es}")
        else:
            cx.oblige("items-exact", znot(within), "item left out")
    each(cx, segs[0], one)
