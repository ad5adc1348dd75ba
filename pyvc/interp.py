"""Symbolic interpreter for the Python text of the repository.

Functions are found by the file and line of the code object that is actually
loaded, parsed from disk on every run, and the compiled text is compared with
the loaded code object, so the text analysed is the code that runs.
"""
import ast
import builtins
import itertools
import os
import types
import z3
from . import smt, strs
from .core import (Unsupported, Infeasible, Budget, PyExc, ReturnSig, BreakSig,
                   ContinueSig, One, Del, Bulk, Opaque, Heap, serial, occurring)
from .values import *
from .values import _NOTCONC
from . import values as V_

REPO = os.environ.get("VERIF_REPO", "/repo")
_asts = {}


class SourceError(Exception):
    pass


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and os.path.abspath(f.__code__.co_filename).startswith(REPO + os.sep)


def is_repo_class(c):
    m = getattr(c, "__module__", "") or ""
    return isinstance(c, type) and m.split(".")[0] == "jsonpickle"


def qualname(f):
    return f"{f.__module__}.{f.__qualname__}"


def file_index(path):
    got = _asts.get(path)
    if got is None:
        with open(path, "rb") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
                idx.setdefault((line, getattr(node, "name", "<lambda>")), []).append(node)
        codes = {}
        _walk_codes(compile(src, path, "exec"), codes)
        got = _asts[path] = (idx, codes)
    return got


def _walk_codes(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out.setdefault((c.co_firstlineno, c.co_name), []).append(c)
            _walk_codes(c, out)


def node_of(f):
    """AST of a loaded function, checked to be its source."""
    path = f.__code__.co_filename
    idx, codes = file_index(path)
    key = (f.__code__.co_firstlineno, f.__code__.co_name)
    nodes = idx.get(key)
    if not nodes or len(nodes) != 1:
        raise Unsupported(f"source of {f.__qualname__} not found")
    if not any(c == f.__code__ for c in codes.get(key, ())):
        raise SourceError(f"loaded code of {f.__qualname__} differs from {path}")
    return nodes[0]


class Env:
    """Local scope."""

    def __init__(self, globs, parent=None, fname="", selfcls=None):
        self.vars = Heap()
        self.globs = globs
        self.parent = parent
        self.fname = fname
        self.nonlocals = set()
        self.selfcls = selfcls
        self.yields = None
        self.exc = None

    def lookup(self, cx, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is _UNBOUND:
                    raise_py(cx, UnboundLocalError, name)
                return v
            e = e.parent
        over = cx.globals_over.get((self.globs.get("__name__"), name))
        if over is not None:
            return over
        if name in self.globs:
            return K(self.globs[name])
        if hasattr(builtins, name):
            return K(getattr(builtins, name))
        raise_py(cx, NameError, name)

    def store(self, cx, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    cx.setkey(e.vars, name, v)
                    return
                e = e.parent
        cx.setkey(self.vars, name, v)


_UNBOUND = object()


# ---------------------------------------------------------------------------
# calls

def call(cx, f, args, kwargs=None):
    return f.op_call(cx, list(args), dict(kwargs or {}))


def call_concrete(cx, f, args, kwargs):
    from . import models
    if isinstance(f, types.MethodType):
        return call_concrete(cx, f.__func__, [K(f.__self__)] + list(args), kwargs)
    if isinstance(f, types.FunctionType):
        name = qualname(f)
        c = cx.contracts.get(name)
        if c is not None:
            r = c(cx, args, kwargs)
            if r is not NotImplemented:
                u = cx.stats.contract_uses
                u[name] = u.get(name, 0) + 1
                return r
        if is_repo_function(f):
            return call_repo(cx, f, args, kwargs)
    m = models.lookup(cx, f)
    if m is not None:
        r = m(cx, args, kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return ExcV(f, args)
        if is_repo_class(f):
            return construct(cx, f, args, kwargs)
    if models.pure(f):
        cs = [V_.value_conc(a) for a in args]
        ks = {k: V_.value_conc(v) for k, v in kwargs.items()}
        if all(c is not _NOTCONC for c in list(cs) + list(ks.values())):
            try:
                return models.lift_result(f(*cs, **ks))
            except Exception as e:
                raise PyExc(ExcV(type(e), [K(a) for a in e.args]))
    raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} with {args!r} {kwargs!r}")


def construct(cx, cls, args, kwargs):
    inst = InstV(cls)
    init = V_.class_attr(cx, cls, inst, "__init__")
    call(cx, init, args, kwargs)
    return inst


def call_repo(cx, f, args, kwargs):
    node = node_of(f)
    name = qualname(f)
    cov = cx.stats.covered
    cov[name] = cov.get(name, 0) + 1
    defaults = [K(d) for d in (f.__defaults__ or ())]
    kwdefaults = {k: K(v) for k, v in (f.__kwdefaults__ or {}).items()}
    parent = None
    selfcls = None
    if f.__closure__:
        parent = Env(f.__globals__)
        for n, cell in zip(f.__code__.co_freevars, f.__closure__):
            if n == "__class__":
                selfcls = cell.cell_contents
            else:
                parent.vars[n] = K(cell.cell_contents)
    if selfcls is None and "." in f.__qualname__:
        q = f.__qualname__.rsplit(".", 1)[0]
        c = f.__globals__.get(q)
        if isinstance(c, type):
            selfcls = c
    env = Env(f.__globals__, parent, name, selfcls)
    return run_function(cx, node, env, args, kwargs, defaults, kwdefaults, name)


def call_funcv(cx, fv, args, kwargs):
    env = Env(fv.env.globs, fv.env, fv.env.fname + "." + fv.name, fv.env.selfcls)
    return run_function(cx, fv.node, env, args, kwargs, fv.defaults, fv.kwdefaults, fv.name)


def run_function(cx, node, env, args, kwargs, defaults, kwdefaults, name):
    bind(cx, node.args, env, args, kwargs, defaults, kwdefaults, name)
    cx.depth += 1
    if cx.depth > 80:
        raise Unsupported(f"recursion in {name}")
    try:
        if isinstance(node, ast.Lambda):
            return ev(cx, node.body, env)
        if is_generator(node):
            mark = len(cx.journal)

            def thunk(cx, node=node, env=env):
                env.yields = ListV()
                try:
                    ex_block(cx, node.body, env)
                except ReturnSig:
                    pass
                return env.yields
            return GenV(thunk)
        try:
            ex_block(cx, node.body, env)
        except ReturnSig as r:
            return r.val
        return K(None)
    finally:
        cx.depth -= 1


_gen_cache = {}


def is_generator(node):
    g = _gen_cache.get(node)
    if g is None:
        g = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = g
    return g


def bind(cx, a, env, args, kwargs, defaults, kwdefaults, name):
    params = [p.arg for p in a.posonlyargs + a.args]
    kwargs = dict(kwargs)
    args = list(args)
    starstar = kwargs.pop("**", None)
    bulk_star = None
    if args and isinstance(args[-1], StarV):
        bulk_star = args.pop()
    vals = env.vars
    for i, p in enumerate(params):
        if i < len(args):
            if p in kwargs:
                raise_py(cx, TypeError, f"{name}() got multiple values for {p}")
            vals[p] = args[i]
        elif p in kwargs and p not in [x.arg for x in a.posonlyargs]:
            vals[p] = kwargs.pop(p)
        elif bulk_star is not None:
            raise Unsupported("star argument spread over named parameters")
        else:
            j = i - (len(params) - len(defaults))
            if j < 0:
                raise_py(cx, TypeError, f"{name}() missing argument {p}")
            vals[p] = defaults[j]
    if a.vararg:
        rest = [One(x) for x in args[len(params):]]
        if bulk_star is not None:
            rest += list(bulk_star.segs)
        vals[a.vararg.arg] = TupV(rest)
    elif len(args) > len(params) or bulk_star is not None:
        raise_py(cx, TypeError, f"{name}() takes too many arguments")
    for p in a.kwonlyargs:
        if p.arg in kwargs:
            vals[p.arg] = kwargs.pop(p.arg)
        elif p.arg in kwdefaults:
            vals[p.arg] = kwdefaults[p.arg]
        else:
            raise_py(cx, TypeError, f"{name}() missing keyword {p.arg}")
    if a.kwarg:
        d = DictV([One((K(k), v)) for k, v in kwargs.items()])
        if starstar is not None:
            d = DictV(d.segs + tuple(starstar.segs))
        vals[a.kwarg.arg] = d
    elif kwargs:
        raise_py(cx, TypeError, f"{name}() got an unexpected keyword argument {list(kwargs)[0]}")
    elif starstar is not None:
        raise Unsupported("** argument of unknown content")


class StarV(Val):
    """Trailing *args whose length is unknown."""
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return f"*{list(self.segs)}"
    def subst(self, m): return StarV([V_.seg_subst(s, m) for s in self.segs])


# ---------------------------------------------------------------------------
# statements

def ex_block(cx, stmts, env):
    for s in stmts:
        ex(cx, s, env)


def truth(cx, v):
    return cx.decide(zb(v.op_truth(cx)))


def ex(cx, s, env):
    t = type(s)
    if t is ast.Expr:
        if isinstance(s.value, ast.Constant):
            return
        ev(cx, s.value, env)
    elif t is ast.Return:
        raise ReturnSig(ev(cx, s.value, env) if s.value is not None else K(None))
    elif t is ast.Assign:
        v = ev(cx, s.value, env)
        for tgt in s.targets:
            assign(cx, tgt, v, env)
    elif t is ast.AnnAssign:
        if s.value is not None:
            assign(cx, s.target, ev(cx, s.value, env), env)
    elif t is ast.AugAssign:
        cur = ev(cx, load(s.target), env)
        rhs = ev(cx, s.value, env)
        if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
            cur.m_extend(cx, rhs)
            assign(cx, s.target, cur, env)
            return
        assign(cx, s.target, binop(cx, s.op, cur, rhs), env)
    elif t is ast.If:
        if truth(cx, ev(cx, s.test, env)):
            ex_block(cx, s.body, env)
        else:
            ex_block(cx, s.orelse, env)
    elif t is ast.For:
        over = ev(cx, s.iter, env)

        def body(entry):
            assign(cx, s.target, entry, env)
            ex_block(cx, s.body, env)
        if hasattr(over, "op_loop"):      # a loop with an invariant
            try:
                over.op_loop(cx, body, env)
            except (BreakSig, ContinueSig):
                raise Unsupported("break or continue in a loop with an invariant")
            ex_block(cx, s.orelse, env)
            return
        segs = iter_segs(cx, over)
        if not run_loop(cx, segs, body):
            ex_block(cx, s.orelse, env)
    elif t is ast.While:
        n = 0
        while True:
            if not truth(cx, ev(cx, s.test, env)):
                ex_block(cx, s.orelse, env)
                break
            n += 1
            if n > 64:
                raise Unsupported("while loop without a bound")
            try:
                ex_block(cx, s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                break
    elif t is ast.Break:
        raise BreakSig()
    elif t is ast.Continue:
        raise ContinueSig()
    elif t is ast.Pass:
        pass
    elif t is ast.Raise:
        if s.exc is None:
            e = env.exc
            p = env
            while e is None and p is not None:
                e = p.exc
                p = p.parent
            if e is None:
                raise Unsupported("re-raise outside handler")
            raise PyExc(e)
        v = ev(cx, s.exc, env)
        if isinstance(v, K) and isinstance(v.v, type):
            v = ExcV(v.v)
        if isinstance(v, K) and isinstance(v.v, BaseException):
            v = ExcV(type(v.v), [K(a) for a in v.v.args])
        raise PyExc(v)
    elif t is ast.Try:
        ex_try(cx, s, env)
    elif t is ast.FunctionDef:
        fv = mkfunc(cx, s, env, s.name)
        for d in reversed(s.decorator_list):
            fv = call(cx, ev(cx, d, env), [fv])
        env.store(cx, s.name, fv)
    elif t is ast.Delete:
        for tgt in s.targets:
            if isinstance(tgt, ast.Subscript):
                ev(cx, tgt.value, env).op_delitem(cx, ev_index(cx, tgt.slice, env))
            elif isinstance(tgt, ast.Attribute):
                ev(cx, tgt.value, env).op_delattr(cx, tgt.attr)
            elif isinstance(tgt, ast.Name):
                cx.delkey(env.vars, tgt.id)
            else:
                raise Unsupported("del")
    elif t is ast.Global:
        raise Unsupported("global statement")
    elif t is ast.Nonlocal:
        env.nonlocals.update(s.names)
    elif t is ast.Assert:
        if not truth(cx, ev(cx, s.test, env)):
            raise PyExc(ExcV(AssertionError, []))
    elif t is ast.Import:
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
            env.store(cx, a.asname or a.name.split(".")[0], K(m))
    elif t is ast.ImportFrom:
        import importlib
        base = "." * s.level + (s.module or "")
        m = importlib.import_module(base, env.globs.get("__package__"))
        for a in s.names:
            env.store(cx, a.asname or a.name, K(getattr(m, a.name)))
    elif t is ast.With:
        if len(s.items) != 1:
            raise Unsupported("with")
        cm = ev(cx, s.items[0].context_expr, env)
        h = getattr(cm, "op_enter", None)
        if h is None:
            raise Unsupported("with")
        v = h(cx)
        if s.items[0].optional_vars is not None:
            assign(cx, s.items[0].optional_vars, v, env)
        ex_block(cx, s.body, env)
    else:
        raise Unsupported(f"statement {t.__name__}")


def ex_try(cx, s, env):
    try:
        try:
            ex_block(cx, s.body, env)
        except PyExc as pe:
            handled = False
            for h in s.handlers:
                if exc_match(cx, pe.exc, h.type, env):
                    handled = True
                    saved = env.exc
                    env.exc = pe.exc
                    if h.name:
                        env.store(cx, h.name, pe.exc)
                    try:
                        ex_block(cx, h.body, env)
                    finally:
                        env.exc = saved
                    break
            if not handled:
                raise
        else:
            ex_block(cx, s.orelse, env)
    except (PyExc, ReturnSig, BreakSig, ContinueSig):
        ex_block(cx, s.finalbody, env)
        raise
    else:
        ex_block(cx, s.finalbody, env)


def exc_match(cx, exc, typ, env):
    if typ is None:
        return True
    t = ev(cx, typ, env)
    return exc_is(cx, exc, t)


def exc_is(cx, exc, t):
    if isinstance(t, K):
        return cx.decide(zb(exc.matches(cx, t.v)))
    if isinstance(t, TupV):
        for x in t.segs:
            if not isinstance(x, One):
                raise Unsupported("except tuple")
            if exc_is(cx, exc, x.val):
                return True
        return False
    h = getattr(t, "catches", None)
    if h is not None:
        return cx.decide(zb(h(cx, exc)))
    raise Unsupported(f"except {t!r}")


def load(node):
    n = ast.copy_location(type(node)(**{f: getattr(node, f) for f in node._fields}), node)
    n.ctx = ast.Load()
    return n


def assign(cx, tgt, v, env):
    t = type(tgt)
    if t is ast.Name:
        env.store(cx, tgt.id, v)
    elif t is ast.Attribute:
        cx_setattr(cx, ev(cx, tgt.value, env), tgt.attr, v)
    elif t is ast.Subscript:
        ev(cx, tgt.value, env).op_setitem(cx, ev_index(cx, tgt.slice, env), v)
    elif t in (ast.Tuple, ast.List):
        stars = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
        segs = iter_segs(cx, v)
        if not all(isinstance(s, One) for s in segs):
            h = getattr(v, "op_unpack", None)
            if h is None:
                raise Unsupported("unpack of a sequence of unknown length")
            segs = h(cx, len(tgt.elts))
        vals = [s.val for s in segs]
        if stars:
            i = stars[0]
            after = len(tgt.elts) - i - 1
            if len(vals) < len(tgt.elts) - 1:
                raise_py(cx, ValueError, "unpack")
            for e, x in zip(tgt.elts[:i], vals):
                assign(cx, e, x, env)
            assign(cx, tgt.elts[i].value, ListV([One(x) for x in vals[i:len(vals) - after]]), env)
            for e, x in zip(tgt.elts[i + 1:], vals[len(vals) - after:]):
                assign(cx, e, x, env)
            return
        if len(vals) != len(tgt.elts):
            raise_py(cx, ValueError, "unpack")
        for e, x in zip(tgt.elts, vals):
            assign(cx, e, x, env)
    else:
        raise Unsupported(f"assign {t.__name__}")


def cx_setattr(cx, obj, name, v):
    obj.op_setattr(cx, name, v)


def mkfunc(cx, node, env, name):
    defaults = [ev(cx, d, env) for d in node.args.defaults]
    kwd = {p.arg: ev(cx, d, env) for p, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
    return FuncV(node, env, name, defaults, kwd)


# ---------------------------------------------------------------------------
# loops

def run_loop(cx, segs, body):
    """Run body for each entry; True if left by break."""
    for seg in segs:
        if isinstance(seg, One):
            try:
                body(seg.val)
            except ContinueSig:
                pass
            except BreakSig:
                return True
        elif isinstance(seg, Bulk):
            if bulk_loop(cx, seg, body):
                return True
        else:
            raise Unsupported(f"loop over {seg!r}")
    return False


class Out:
    __slots__ = ("kind", "guard", "effects", "locals", "val")


def run_entries(cx, entries, body):
    for e in entries:
        if isinstance(e, Bulk):
            if bulk_loop(cx, e, body):
                raise BreakSig()
        elif isinstance(e, One):
            body(e.val)
        else:
            try:
                body(e)
            except ContinueSig:
                pass


def locname(loc):
    obj, attr = loc
    return f"{type(obj).__name__}.{attr}"


def bulk_loop(cx, seg, body):
    src = seg.src
    if any(a is src for a in cx.active):
        raise Unsupported("nested loop over the same sequence")
    start = serial()
    havoc = {}           # (id(obj), attr) -> (obj, attr, kind)
    flags = {}           # locations that hold a truth value and only ever flip one way
    facts = cx.src_facts(src)

    def iteration(pcmark):
        for (obj, attr, isdict), kind in [(h[0], h[1]) for h in havoc.values()]:
            if kind == "segs":
                cx.set(obj, attr, getattr(obj, attr) + (Opaque(f"prior:{src.key}", ("prior", src, obj)),))
            elif kind == "scalar":
                old = obj.get(attr) if isdict else getattr(obj, attr)
                fl = flags.get((id(obj), attr))
                (cx.setkey if isdict else cx.set)(obj, attr, old.widen(cx) if hasattr(old, "widen") else SBool(fl[0]) if fl else Havoc(str(attr)))
        mark = len(cx.journal)
        base_created = len(cx.created)
        cx.active.append(src)
        for f in facts:
            cx.assume(f)
        nfacts = len(cx.pc)
        kind, val = "normal", None
        try:
            entries = ()
            for g, es in seg.alts:
                if cx.decide(g):
                    entries = es
                    break
            for e in entries:
                if isinstance(e, Bulk):
                    if bulk_loop(cx, e, body):
                        raise BreakSig()
                else:
                    try:
                        body(e.val if isinstance(e, One) else e)
                    except ContinueSig:
                        pass
        except BreakSig:
            kind = "break"
        except ReturnSig as r:
            kind, val = "return", r.val
        except PyExc as e:
            kind, val = "raise", e.exc
        o = Out()
        o.kind, o.val = kind, val
        o.guard = zand(*cx.pc[nfacts:])
        o.locals = tuple(cx.created[base_created:])
        first = {}
        for obj, attr, old, isdict in cx.journal[mark:]:
            b = getattr(obj, "born", None)
            if b is None or b > start:
                continue
            key = (id(obj), attr)
            if key not in first:
                first[key] = (obj, attr, old, isdict)
        o.effects = {}
        for key, (obj, attr, old, isdict) in first.items():
            new = obj.get(attr, _ABSENT) if isdict else getattr(obj, attr)
            if isdict and old is not None and not isinstance(old, Val) and not isinstance(old, tuple):
                old = _ABSENT
            if new is old:
                continue
            if isinstance(new, tuple) and isinstance(old, tuple):
                if len(new) == len(old) and all(a is b for a, b in zip(new, old)):
                    continue
                if len(new) >= len(old) and all(a is b for a, b in zip(new, old)):
                    o.effects[key] = ("segs", obj, attr, isdict, new[len(old):])
                    continue
                if len(new) == len(old):
                    ch = [i for i in range(len(old)) if new[i] is not old[i]]
                    if all(isinstance(new[i], Bulk) and isinstance(old[i], Bulk) and new[i].src is src and old[i].src is src for i in ch):
                        o.effects[key] = ("point", obj, attr, isdict, {i: new[i] for i in ch})
                        continue
                raise Unsupported(f"loop effect on {locname((obj, attr))}: {old} -> {new}")
            if isinstance(new, Val) and isinstance(old, Val):
                if isinstance(new, (K, SInt, SStr, SBool, Sym)) and isinstance(old, (K, SInt, SStr, SBool, Sym)):
                    same = cx_is(cx, new, old) if not isinstance(new, (SInt,)) and not isinstance(old, SInt) else cx_eq(cx, new, old)
                    if same is True or (not isinstance(same, bool) and cx.prove(same)):
                        continue
            o.effects[key] = ("scalar", obj, attr, isdict, new)
        return o

    for _ in range(8):
        known = set(havoc)
        outs = cx.sub_explore(iteration)
        grew = False
        for o in outs:
            for key, eff in o.effects.items():
                k = eff[0]
                if k == "point":
                    k = "point"
                prev = havoc.get(key)
                if prev is None:
                    havoc[key] = ((eff[1], eff[2], eff[3]), k)
                    grew = True
                    old = (eff[1].get(eff[2]) if eff[3] else getattr(eff[1], eff[2])) if k == "scalar" else None
                    if old is not None and flag_term(old) is not None and flag_term(eff[4]) is not None:
                        flags[key] = (cx.fresh("flag", z3.BoolSort()), flag_term(old), not (isinstance(old, K) and old.v))
                elif flags.get(key) and key in known:
                    f, _, up = flags[key]
                    v = flag_term(eff[4])
                    if v is None or not cx.prove(z3.Implies(zand(*facts, o.guard, f == up), v == up)):
                        flags[key] = None        # it may flip back
                        grew = True
                elif prev[1] != k:
                    raise Unsupported(f"mixed loop effects on {locname((eff[1], eff[2]))}")
        if not grew:
            break
    else:
        raise Unsupported("loop effects do not stabilise")

    for key, ((obj, attr, isdict), kind) in havoc.items():
        if id(obj) in src.counted and kind == "segs":
            one = all(len(es) == 1 and not isinstance(es[0], Bulk) for _, es in seg.alts) and not seg.partial
            for o in outs:
                eff = o.effects.get(key)
                one = one and eff is not None and len(eff[4]) == 1 and isinstance(eff[4][0], One)
            if not one:
                raise Unsupported("length of a list that does not grow by one in each iteration")
    normal = [o for o in outs if o.kind == "normal"]
    exits = [o for o in outs if o.kind != "normal"]
    fl = {k: f for k, f in flags.items() if f}
    consts = [f[0] for f in fl.values()]
    names = {str(c) for c in consts}
    if any(n in repr(eff[4]) for n in names for o in outs for k, eff in o.effects.items() if k not in fl):
        raise Unsupported("loop effect that depends on a flag")
    if consts and any(occurring(consts, o.guard) or k in fl and not isinstance(e[4], K) for o in outs for k, e in [*o.effects.items(), (None, None)]):
        return flag_loop(cx, seg, body, outs, havoc, fl)
    if exits:
        cond = zor(*[o.guard for o in exits])
        locs = [c for o in exits for c in o.locals]
        known = cx.has_witness(src, cond)
        m = cx.exists(src, cond, locs)
        if m:
            if len(m) == len(src.gens) and not known:
                # the element the loop is left at is the first to do so
                i = V_.idx_fn(src)
                cx.add_forall(src, z3.Implies(i(*src.gens) < i(*[b for _, b in m]), z3.Not(cond)))
            apply_effects(cx, src, normal, havoc, partial=True)
            w = dict((a.get_id(), b) for a, b in m)
            sub = [(a, b) for a, b in m]
            for g, es in seg.alts:
                if cx.decide(z3.substitute(g, *sub)):
                    for e in es:
                        if isinstance(e, Bulk):
                            raise Unsupported("exit from nested bulk")
                        try:
                            body(V_.ent_subst(e.val if isinstance(e, One) else e, sub))
                        except BreakSig:
                            return True
                        except ContinueSig:
                            pass
                    break
            raise Infeasible()       # the chosen element does not leave the loop
    apply_effects(cx, src, normal, havoc)
    return False


def flag_term(v):
    if isinstance(v, K) and isinstance(v.v, bool):
        return z3.BoolVal(v.v)
    return v.b if isinstance(v, SBool) else None


def flag_loop(cx, seg, body, outs, havoc, flags):
    """The rest of a loop whose steps depend on truth values that earlier steps
    may have flipped.  A flag is flipped after the loop (or before the element
    the loop is left at) iff some element flips it when it is not yet flipped."""
    src = seg.src
    consts = [f[0] for f in flags.values()]
    for key, ((obj, attr, isdict), kind) in havoc.items():
        if key not in flags and any(key in o.effects for o in outs):
            if kind != "scalar":
                raise Unsupported(f"loop effect on {locname((obj, attr))} that depends on a flag")
    if any(o.locals for o in outs if occurring(consts, o.guard)):
        raise Unsupported("choice inside a loop that depends on a flag")

    def bounds(g, own=None):
        """What g says whatever the flags are, and what it may say."""
        every, some = [], []
        rest = [c for c in consts if c is not own]
        for vs in itertools.product((True, False), repeat=len(rest)):
            h = z3.substitute(g, *[(c, z3.BoolVal(v)) for c, v in zip(rest, vs)])
            every.append(h)
            some.append(h)
        return zand(*every), zor(*some)
    flips = {}
    for key, (c, b0, up) in flags.items():
        g = zor(*[zand(o.guard, flag_term(o.effects[key][4]) == up) for o in outs if key in o.effects])
        flips[key] = bounds(z3.substitute(g, (c, z3.BoolVal(not up))), c)
    exits = [o for o in outs if o.kind != "normal"]
    may = bounds(zor(*[o.guard for o in exits]))[1] if exits else None
    i = V_.idx_fn(src)

    def settle(before):
        state, first = [], []
        for key, (c, b0, up) in flags.items():
            obj, attr, isdict = havoc[key][0]
            must_flip, may_flip = flips[key]
            if cx.decide(b0 == up):
                val = up
                state.append((c, z3.BoolVal(up)))
            elif cx.choose("flipped"):
                # the first element that does it
                e = cx.witness(src)
                at = i(*[b for _, b in e])
                cx.assume(z3.substitute(may_flip, *e))
                cx.add_forall(src, z3.Implies(i(*src.gens) < at, z3.Not(must_flip)))
                cx.add_forall(src, z3.Implies(i(*src.gens) == at, zand(*[a == b for a, b in e])))
                if before is not None:
                    cx.assume(at < before)
                val = up
                state.append((c, (at < i(*src.gens)) == up))
            else:
                cx.add_forall(src, z3.Not(must_flip) if before is None else z3.Implies(i(*src.gens) < before, z3.Not(must_flip)))
                val = not up
                state.append((c, z3.BoolVal(not up)))
            cx.require_feasible()
            (cx.setkey if isdict else cx.set)(obj, attr, K(val))
        if exits:
            # no element so far left the loop, the flags being what they were then
            out = z3.Not(z3.substitute(zor(*[o.guard for o in exits]), *state))
            cx.add_forall(src, out if before is None else z3.Implies(i(*src.gens) < before, out))
            cx.require_feasible()
        for key, ((obj, attr, isdict), kind) in havoc.items():
            if key not in flags:
                (cx.setkey if isdict else cx.set)(obj, attr, Havoc(str(attr)))
    if exits and cx.choose("left"):
        m = cx.witness(src)
        cx.assume(z3.substitute(may, *m))
        cx.require_feasible()
        at = i(*[b for _, b in m])
        settle(at)
        for g, es in seg.alts:
            if cx.decide(z3.substitute(g, *m)):
                for e in es:
                    if isinstance(e, Bulk):
                        raise Unsupported("exit from nested bulk")
                    try:
                        body(V_.ent_subst(e.val if isinstance(e, One) else e, m))
                    except BreakSig:
                        return True
                    except ContinueSig:
                        pass
                break
        raise Infeasible()
    settle(None)
    return False


_ABSENT = type("Absent", (), {"__repr__": lambda s: "<absent>"})()


def apply_effects(cx, src, normal, havoc, partial=False):
    for key, ((obj, attr, isdict), kind) in havoc.items():
        if kind == "segs":
            alts = []
            locs = []
            for o in normal:
                eff = o.effects.get(key)
                alts.append((o.guard, tuple(conv_entry(x) for x in eff[4]) if eff else ()))
                locs.extend(o.locals)
            if any(es for _, es in alts):
                new = Bulk(src, alts, locs, partial)
                cur = obj[attr] if isdict else getattr(obj, attr)
                (cx.setkey if isdict else cx.set)(obj, attr, cur + (new,))
        elif kind == "point":
            cur = list(obj[attr] if isdict else getattr(obj, attr))
            for i, old in enumerate(cur):
                if not (isinstance(old, Bulk) and old.src is src):
                    continue
                if partial:
                    raise Unsupported("partial pointwise update")
                alts = []
                locs = list(old.locals)
                changed = False
                for o in normal:
                    eff = o.effects.get(key)
                    nb = eff[4].get(i) if eff else None
                    if nb is not None:
                        changed = True
                    for g, es in (nb or old).alts:
                        gg = zand(o.guard, g)
                        if not z3.is_false(gg):
                            alts.append((gg, es))
                    locs.extend(o.locals)
                if changed:
                    cur[i] = Bulk(src, alts, locs)
            (cx.setkey if isdict else cx.set)(obj, attr, tuple(cur))
        else:
            writers = [o for o in normal if key in o.effects]
            vals = [o.effects[key][4] for o in writers]
            if vals and all(isinstance(v, K) for v in vals) and len({(type(v.v), repr(v.v)) for v in vals}) == 1:
                cond = zor(*[o.guard for o in writers])
                locs = [c for o in writers for c in o.locals]
                if partial:
                    hit = cx.choose("wrote")
                else:
                    hit = cx.exists(src, cond, locs)
                if hit:
                    (cx.setkey if isdict else cx.set)(obj, attr, vals[0])
                continue
            old = obj.get(attr) if isdict else getattr(obj, attr)
            if hasattr(old, "widen"):
                # what the next iteration starts from must be what it was run on
                if not all(old.covers(v) for v in vals) or getattr(old, "steps", False) and len(writers) != len(normal):
                    raise Unsupported(f"loop leaves the domain of {locname((obj, attr))}")
                (cx.setkey if isdict else cx.set)(obj, attr, old.widen(cx))
                continue
            (cx.setkey if isdict else cx.set)(obj, attr, Havoc(str(attr)))


def conv_entry(x):
    """Segment of an appended suffix -> entry of a bulk alternative."""
    if isinstance(x, One):
        return x.val
    if isinstance(x, Bulk):
        return x
    raise Unsupported(f"loop appends {x!r}")


# ---------------------------------------------------------------------------
# expressions

def ev(cx, e, env):
    f = _EV.get(type(e))
    if f is None:
        raise Unsupported(f"expression {type(e).__name__}")
    return f(cx, e, env)


def ev_const(cx, e, env):
    return K(e.value)


def ev_name(cx, e, env):
    return env.lookup(cx, e.id)


def cx_getattr(cx, obj, name):
    return obj.op_getattr(cx, name)


def ev_attr(cx, e, env):
    return cx_getattr(cx, ev(cx, e.value, env), e.attr)


def ev_index(cx, s, env):
    if isinstance(s, ast.Slice):
        return SliceV(*[None if x is None else ev(cx, x, env) for x in (s.lower, s.upper, s.step)])
    return ev(cx, s, env)


def ev_subscript(cx, e, env):
    o = ev(cx, e.value, env)
    return o.op_getitem(cx, ev_index(cx, e.slice, env))


def ev_call(cx, e, env):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
        q = env
        while q is not None and "self" not in q.vars and "cls" not in q.vars:
            q = q.parent
        s = q.vars.get("self", q.vars.get("cls"))
        return SuperV(env.selfcls, s)
    if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
        return DictV([One((K(k), v)) for k, v in env.vars.items()])
    f = ev(cx, e.func, env)
    if isinstance(f, K) and f.v is super and len(e.args) == 2:
        c, s = (ev(cx, a, env) for a in e.args)
        if isinstance(c, K) and isinstance(c.v, type):
            return SuperV(c.v, s)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            segs = iter_segs(cx, ev(cx, a.value, env))
            if all(isinstance(s, One) for s in segs):
                args.extend(s.val for s in segs)
            else:
                if a is not e.args[-1]:
                    raise Unsupported("star argument not last")
                segs = list(segs)
                while isinstance(segs[0], One):
                    args.append(segs.pop(0).val)
                args.append(StarV(segs))
        else:
            args.append(ev(cx, a, env))
    kwargs = {}
    for k in e.keywords:
        v = ev(cx, k.value, env)
        if k.arg is None:
            for s in V_.as_pairs(cx, v):
                if isinstance(s, One):
                    c = s.val[0].conc()
                    if not isinstance(c, str):
                        kwargs.setdefault("**", DictV())
                        kwargs["**"] = DictV(kwargs["**"].segs + (s,))
                        continue
                    kwargs[c] = s.val[1]
                else:
                    kwargs.setdefault("**", DictV())
                    kwargs["**"] = DictV(kwargs["**"].segs + (s,))
        else:
            kwargs[k.arg] = v
    return f.op_call(cx, args, kwargs)


def ev_boolop(cx, e, env):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
        v = ev(cx, x, env)
        if i == len(e.values) - 1:
            return v
        t = truth(cx, v)
        if t != isand:
            return mkbool(t) if isinstance(v, SBool) else v
    return v


def ev_unary(cx, e, env):
    v = ev(cx, e.operand, env)
    if isinstance(e.op, ast.Not):
        t = v.op_truth(cx)
        return mkbool(znot(t))
    if isinstance(e.op, ast.USub):
        c = v.conc()
        if c is not _NOTCONC:
            return K(-c)
        return mkint(-as_int(cx, v))
    raise Unsupported("unary operator")


def ev_ifexp(cx, e, env):
    return ev(cx, e.body if truth(cx, ev(cx, e.test, env)) else e.orelse, env)


def ev_compare(cx, e, env):
    left = ev(cx, e.left, env)
    res = None
    for op, r in zip(e.ops, e.comparators):
        right = ev(cx, r, env)
        c = compare(cx, op, left, right)
        if res is not None or len(e.ops) > 1:
            if not truth(cx, c):
                return K(False)
            c = K(True)
        res = c
        left = right
    return res


def compare(cx, op, a, b):
    t = type(op)
    if t is ast.Is:
        return mkbool(cx_is(cx, a, b))
    if t is ast.IsNot:
        return mkbool(znot(cx_is(cx, a, b)))
    if t is ast.Eq:
        return mkbool(cx_eq(cx, a, b))
    if t is ast.NotEq:
        return mkbool(znot(cx_eq(cx, a, b)))
    if t is ast.In:
        return mkbool(b.op_contains(cx, a))
    if t is ast.NotIn:
        return mkbool(znot(b.op_contains(cx, a)))
    ca, cb = a.conc(), b.conc()
    if ca is not _NOTCONC and cb is not _NOTCONC:
        try:
            r = {ast.Lt: lambda: ca < cb, ast.LtE: lambda: ca <= cb, ast.Gt: lambda: ca > cb, ast.GtE: lambda: ca >= cb}[t]()
        except TypeError:
            raise_py(cx, TypeError, "comparison")
        return K(bool(r))
    h = getattr(b, "op_superset", None)
    if t is ast.LtE and h is not None:
        return mkbool(h(cx, a))
    h = getattr(a, "op_order", None)
    if h is not None:
        r = h(cx, t, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, (SetV,)) or isinstance(b, (SetV,)) or (ca is not _NOTCONC and isinstance(ca, (set, frozenset))):
        if t is ast.LtE:
            return mkbool(V_.subset(cx, a, b))
        if t is ast.GtE:
            return mkbool(V_.subset(cx, b, a))
        raise Unsupported("set ordering")
    for x in (a, b):
        if isinstance(x, (SStr, ListV, TupV, DictV)):
            raise Unsupported("ordering of non integers")
        if isinstance(x, Sym):
            ok = z3.Or(smt.typeof(x.t) == cx.L.tconst(int), smt.typeof(x.t) == cx.L.tconst(bool))
            if not cx.prove(ok):
                h = cx.hooks.get("order")
                if h is not None:
                    return h(cx, t, a, b)
                raise Unsupported("ordering of opaque objects")
    x, y = as_int(cx, a), as_int(cx, b)
    return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])


def binop(cx, op, a, b):
    t = type(op)
    ca, cb = a.conc(), b.conc()
    if ca is not _NOTCONC and cb is not _NOTCONC:
        import operator as o
        fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
              ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.Pow: o.pow, ast.LShift: o.lshift}.get(t)
        if fn is None:
            raise Unsupported("operator")
        try:
            return K(fn(ca, cb))
        except Exception as e:
            raise PyExc(ExcV(type(e), [K(x) for x in e.args]))
    h = getattr(a, "op_binop", None)
    if h is not None:
        r = h(cx, t, b)
        if r is not NotImplemented:
            return r
    h = getattr(b, "op_rbinop", None)
    if h is not None:
        r = h(cx, t, a)
        if r is not NotImplemented:
            return r
    if t is ast.Add:
        sa, sb = V_.is_strlike(cx, a, True), V_.is_strlike(cx, b, True)
        if sa and sb:
            return mkstr(strs.cat(as_str(cx, a), as_str(cx, b)))
        if isinstance(a, (ListV, TupV)):
            pt = type(a)
            if isinstance(b, K) and not isinstance(b.v, a.pytype):
                raise_py(cx, TypeError, "concatenate")
            if isinstance(b, Val) and V_.exact_of(cx, b) is a.pytype:
                return pt(a.segs + tuple(iter_segs(cx, b)))
        if isinstance(a, K) and isinstance(a.v, (list, tuple)) and isinstance(b, (ListV, TupV)):
            return type(b)(tuple(a.op_iter(cx)) + b.segs)
    if t is ast.Mult and isinstance(a, ListV) and cb is not _NOTCONC:
        return ListV(a.segs * cb)
    if t is ast.Mod and V_.is_strlike(cx, a, True):
        return SStr(cx.fresh("fmt", smt.S))
    if t is ast.BitOr and isinstance(a, (SetV,)) :
        return SetV(a.segs + tuple(iter_segs(cx, b)))
    if t in (ast.Add, ast.Sub, ast.Mult):
        if not (intlike(cx, a) and intlike(cx, b)):
            raise Unsupported(f"arithmetic on {a!r}, {b!r}")
        x, y = as_int(cx, a), as_int(cx, b)
        return mkint({ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[t])
    raise Unsupported(f"operator {t.__name__}")


def intlike(cx, v):
    if isinstance(v, (SInt, SBool)) or (isinstance(v, K) and isinstance(v.v, int)):
        return True
    return isinstance(v, Sym) and bool(cx.prove(smt.typeof(v.t) == cx.L.tconst(int)))


def ev_binop(cx, e, env):
    return binop(cx, e.op, ev(cx, e.left, env), ev(cx, e.right, env))


def fmt_str(cx, v, conversion=-1):
    if conversion == 114:
        v = v.op_repr(cx)
    if isinstance(v, K):
        return strs.sval(str(v.v))
    if isinstance(v, SStr):
        return v.s
    if isinstance(v, SInt):
        return strs.int2str(v.i)
    if isinstance(v, Sym) and V_.is_strlike(cx, v, True):
        return smt.str_of(v.t)
    return z3.Function("str()", smt.V, smt.S)(v.term(cx))


def ev_joined(cx, e, env):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(strs.sval(v.value))
        else:
            parts.append(fmt_str(cx, ev(cx, v.value, env), v.conversion) if v.format_spec is None
                         else (ev(cx, v.value, env), cx.fresh("fmt", smt.S))[1])
    if not parts:
        return K("")
    return mkstr(strs.cat(*parts))


def ev_lambda(cx, e, env):
    return mkfunc(cx, e, env, "<lambda>")


def seq_elts(cx, elts, env):
    segs = []
    for x in elts:
        if isinstance(x, ast.Starred):
            segs.extend(iter_segs(cx, ev(cx, x.value, env)))
        else:
            segs.append(One(ev(cx, x, env)))
    return segs


def ev_tuple(cx, e, env):
    return TupV(seq_elts(cx, e.elts, env))


def ev_list(cx, e, env):
    return ListV(seq_elts(cx, e.elts, env))


def ev_set(cx, e, env):
    s = SetV()
    for seg in seq_elts(cx, e.elts, env):
        if isinstance(seg, One):
            s.m_add(cx, seg.val)
        else:
            cx.set(s, "segs", s.segs + (seg,))
    return s


def ev_dict(cx, e, env):
    d = DictV()
    for k, v in zip(e.keys, e.values):
        if k is None:
            d.m_update(cx, ev(cx, v, env))
        else:
            kk = ev(cx, k, env)
            d.op_setitem(cx, kk, ev(cx, v, env))
    return d


def comp(cx, gens, env, emit):
    g = gens[0]
    it = ev(cx, g.iter, env)
    sub = Env(env.globs, env, env.fname, env.selfcls)

    def rec(i, scope):
        if i == len(gens):
            emit(scope)
            return
        segs = iter_segs(cx, it if i == 0 else ev(cx, gens[i].iter, scope))

        def body(entry):
            assign(cx, gens[i].target, entry, scope)
            for c in gens[i].ifs:
                if not truth(cx, ev(cx, c, scope)):
                    return
            rec(i + 1, scope)
        run_loop(cx, segs, body)
    rec(0, sub)


def ev_listcomp(cx, e, env):
    out = ListV()
    comp(cx, e.generators, env, lambda sc: out.m_append(cx, ev(cx, e.elt, sc)))
    return out


def ev_setcomp(cx, e, env):
    out = SetV()

    def emit(sc):
        v = ev(cx, e.elt, sc)
        check_hash(cx, v)
        cx.set(out, "segs", out.segs + (One(v),))
    comp(cx, e.generators, env, emit)
    return out


def check_hash(cx, v):
    h = cx.hooks.get("hash")
    if h is not None:
        h(cx, v)
    elif isinstance(v, (ListV, DictV, SetV)):
        raise_py(cx, TypeError, "unhashable type")


def ev_dictcomp(cx, e, env):
    out = DictV()

    def emit(sc):
        k = ev(cx, e.key, sc)
        out.op_setitem(cx, k, ev(cx, e.value, sc))
    comp(cx, e.generators, env, emit)
    return out


def ev_genexp(cx, e, env):
    return GenV(lambda cx: ev_listcomp(cx, e, env))


def ev_yield(cx, e, env):
    q = env
    v = ev(cx, e.value, env) if e.value is not None else K(None)
    while q.yields is None:
        q = q.parent
        if q is None:
            raise Unsupported("yield outside generator")
    q.yields.m_append(cx, v)
    return K(None)


def ev_yieldfrom(cx, e, env):
    env.yields.m_extend(cx, ev(cx, e.value, env))
    return K(None)


def ev_named(cx, e, env):
    v = ev(cx, e.value, env)
    assign(cx, e.target, v, env)
    return v


_EV = {
    ast.Constant: ev_const, ast.Name: ev_name, ast.Attribute: ev_attr,
    ast.Subscript: ev_subscript, ast.Call: ev_call, ast.BoolOp: ev_boolop,
    ast.UnaryOp: ev_unary, ast.IfExp: ev_ifexp, ast.Compare: ev_compare,
    ast.BinOp: ev_binop, ast.JoinedStr: ev_joined, ast.Lambda: ev_lambda,
    ast.Tuple: ev_tuple, ast.List: ev_list, ast.Set: ev_set, ast.Dict: ev_dict,
    ast.ListComp: ev_listcomp, ast.SetComp: ev_setcomp, ast.DictComp: ev_dictcomp,
    ast.GeneratorExp: ev_genexp, ast.Yield: ev_yield, ast.YieldFrom: ev_yieldfrom,
    ast.NamedExpr: ev_named,
}
