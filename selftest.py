#!/opt/venv/bin/python
"""Tests of the generator itself: agreement with CPython on concrete runs, and
correct verdicts on right and deliberately broken functions."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
import pyvc  # noqa: E402,F401
import z3  # noqa: E402
from pyvc import core, interp, models, smt, strs  # noqa: E402
from pyvc import values as V_  # noqa: E402
from pyvc.values import *  # noqa: E402,F403
import selftest_samples as S  # noqa: E402

interp.REPO = HERE
bad = []


def lift_deep(v):
    if isinstance(v, list):
        return ListV([core.One(lift_deep(x)) for x in v])
    if isinstance(v, tuple):
        return TupV([core.One(lift_deep(x)) for x in v])
    if isinstance(v, dict):
        return DictV([core.One((K(k), lift_deep(x))) for k, x in v.items()])
    return K(v)


def explore(h, seconds=60):
    obs = {}

    def report(cx, name, r, detail):
        obs.setdefault(name, []).append(r)
    st = core.Explorer(timeout_s=seconds).run(h, report)
    return st, obs


def concrete():
    n = 0
    for f, argss in S.CASES:
        for args in argss:
            import copy
            want = f(*copy.deepcopy(args))

            def h(cx):
                r = interp.call_repo(cx, f, [lift_deep(a) for a in copy.deepcopy(args)], {})
                got = V_.value_conc(r)
                cx.report(cx, "same", got == want and repr(got) == repr(want), "")
                if got != want or repr(got) != repr(want):
                    bad.append(f"{f.__name__}{args}: CPython {want!r}, generator {got!r}")
            st, obs = explore(h)
            if st.status != "complete" or obs.get("same") != [True]:
                bad.append(f"{f.__name__}{args}: {st.status} {st.note} {obs}")
            n += 1
    return n


def verdict(f, make, post, expect):
    def h(cx):
        x = make(cx)
        r = interp.call_repo(cx, f, [x], {})
        post(cx, x, r)
    st, obs = explore(h)
    flat = [r for rs in obs.values() for r in rs]
    got = "unsupported" if st.status != "complete" else "proved" if flat and all(r is True for r in flat) else "refuted" if False in flat else "unknown"
    if got != expect:
        bad.append(f"{f.__name__}: expected {expect}, got {got} {st.note} {obs}")


def sym(cx, cls=None):
    x = Sym(z3.Const("x", smt.V))
    cx.assume(smt.alloc(x.t) <= 0)
    if cls is not None:
        V_.set_exact(cx, x, cls)
    return x


def symbolic():
    def int_(cx):
        return SInt(z3.Int("x"))

    def nonneg(cx, x, r):
        i = V_.as_int(cx, r)
        cx.oblige("abs", z3.And(i >= 0, z3.Or(i == x.i, i == -x.i)))
    verdict(S.absval, int_, nonneg, "proved")
    verdict(S.absval_broken, int_, nonneg, "refuted")

    from contracts import rt

    def same_list(cx, x, r):
        src = cx.src("elems", x.t)
        segs = rt.nonempty_segs(cx, r.segs)
        if not segs:
            cx.oblige("empty", z3.Not(z3.And(*cx.src_facts(src), z3.BoolVal(True))))
            return
        if not cx.oblige("shape", len(segs) == 1 and isinstance(segs[0], core.Bulk) and not segs[0].partial):
            return
        rt.each(cx, segs[0], lambda es: cx.oblige("element", zand(len(es) == 1, es[0].t == src.gens[0] if es else False)))
    lst = lambda cx: sym(cx, list)  # noqa: E731
    verdict(S.copy_list, lst, same_list, "proved")
    for f in (S.copy_list_skips_none, S.copy_list_stops, S.copy_list_twice):
        verdict(f, lst, same_list, "refuted")

    def same_dict(cx, x, r):
        src = cx.src("items", x.t, 2)
        rt.map_same(cx, r.segs, src, "items", key_ok=lambda k: k.term(cx) == src.gens[0], val_ok=lambda v: v.term(cx) == src.gens[1])
    dct = lambda cx: sym(cx, dict)  # noqa: E731
    verdict(S.copy_dict, dct, same_dict, "proved")
    verdict(S.copy_dict_one_key, dct, same_dict, "refuted")
    verdict(S.copy_dict_first_value, dct, same_dict, "refuted")

    def found(cx, x, r):
        src = cx.src("elems", x.t)
        m = cx.exists(src, src.gens[0] == smt.NONE)
        cx.oblige("found", zb(r.op_truth(cx)) == zb(bool(m)))
    verdict(S.find_none, lst, found, "proved")
    verdict(S.find_none_broken, lst, found, "refuted")

    verdict(S.find_none_flag, lst, found, "proved")
    verdict(S.all_none_flag, lst, found, "refuted")

    def both(cx, x, r):
        src = cx.src("elems", x.t)
        n, t = (bool(cx.exists(src, src.gens[0] == c)) for c in (smt.NONE, smt.TRUE))
        cx.oblige("both", isinstance(r, K) and r.v == ("both" if n and t else "none" if n else "true" if t else ""))
    verdict(S.find_both, lst, both, "proved")
    verdict(S.find_both_broken, lst, both, "refuted")
    verdict(S.find_both_late, lst, both, "refuted")

    def other(cx, x, r):
        src = cx.src("elems", x.t)
        m = cx.exists(src, src.gens[0] != smt.NONE)
        cx.oblige("other", zb(r.op_truth(cx)) == zb(bool(m)))
    verdict(S.all_none_flag, lst, other, "proved")

    def str_(cx):
        return SStr(z3.Const("s", smt.S))

    def cut(cx, x, r):
        p = strs.prefix(strs.sval("json://"), x.s)
        s = V_.as_str(cx, r)
        cx.oblige("cut", z3.Implies(p, strs.cat(strs.sval("json://"), s) == x.s))
        cx.oblige("glue", z3.Implies(z3.Not(p), s == strs.cat(strs.sval("json://"), x.s)))
    verdict(S.prefix_cut, str_, cut, "proved")
    verdict(S.prefix_cut_broken, str_, cut, "refuted")


if __name__ == "__main__":
    n = concrete()
    symbolic()
    from contracts import assumed, reg
    bad.extend(f"{c}: no harness {p}" for c, p in assumed.unmet(list(reg.load())))
    for b in bad:
        print("FAILED", b)
    print(f"selftest: {n} concrete runs, {len(bad)} failures")
    sys.exit(1 if bad else 0)
