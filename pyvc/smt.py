"""Logic layer: sorts, uninterpreted functions and the solver.

Every Python value that is not known concretely is a term of the
uninterpreted sort V.  Facts about it are given through uninterpreted
functions (class, attributes, integer/str view, identity).  Classes are terms
of sort T; the classes the analysed code names are constants with their real
subclass relation (asked of the running interpreter) as background axioms.
"""
import builtins
import collections
import types
import z3

V = z3.DeclareSort("V")
T = z3.DeclareSort("T")
B = z3.BoolSort()
I = z3.IntSort()
from .strs import S, sval, seq, Facts

typeof = z3.Function("typeof", V, T)
tid = z3.Function("tid", T, I)
int_of = z3.Function("int_of", V, I)
str_of = z3.Function("str_of", V, S)
truthy = z3.Function("truthy", V, B)
ident = z3.Function("ident", V, I)
unident = z3.Function("unident", I, V)
alloc = z3.Function("alloc", V, I)
tval = z3.Function("tval", T, V)          # class as a value
pyeq = z3.Function("pyeq", V, V, B)
repr_of = z3.Function("repr_of", V, S)
tname = z3.Function("tname", T, S)        # importable name of a class
tsimple = z3.Function("tsimple", T, S)    # __name__

NONE = z3.Const("None", V)
TRUE = z3.Const("True", V)
FALSE = z3.Const("False", V)

BASIC = [type(None), bool, int, float, str, bytes, bytearray, list, tuple, set,
         dict, type, object, types.FunctionType, types.BuiltinFunctionType,
         types.MethodType, types.ModuleType, frozenset, complex]
# classes whose instances have incompatible layouts: no class derives from two
LAYOUT = [int, float, str, bytes, bytearray, list, tuple, set, dict, type,
          types.FunctionType, types.BuiltinFunctionType, types.MethodType,
          types.ModuleType, frozenset, complex, type(None)]


class Logic:
    """Background axioms plus one incremental solver shared by all paths."""

    def __init__(self, timeout_ms=8000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", 0)
        self.strings = Facts(self.solver)
        self.types = {}
        self.type_rev = []
        self.type_ids = {}
        self.done = set()
        self.proxies = {}
        self.cache = {}
        self.memo = {}          # formulas built before, with the terms they are about
        self.queries = 0
        self.unknown = 0
        self.solver_time = 0.0
        for c in BASIC:
            self.tconst(c)
        bg = self.solver.add
        bg(typeof(NONE) == self.tconst(type(None)))
        bg(typeof(TRUE) == self.tconst(bool), typeof(FALSE) == self.tconst(bool))
        bg(truthy(TRUE), z3.Not(truthy(FALSE)), z3.Not(truthy(NONE)))
        bg(TRUE != FALSE, int_of(TRUE) == 1, int_of(FALSE) == 0)
        for c in (NONE, TRUE, FALSE):
            bg(alloc(c) == 0, ident(c) > 0, unident(ident(c)) == c)
        self.sub_names = {}
        self.seen_subs = {}
        self.symtypes = {}      # term id -> list of classes already related

    def bg(self, key, *facts):
        if key in self.done:
            return
        self.done.add(key)
        for f in facts:
            self.strings.add(f)
        self.solver.add(*facts)

    # -- classes ---------------------------------------------------------
    def tconst(self, cls):
        key = id(cls)
        got = self.types.get(key)
        if got is None:
            n = len(self.type_rev)
            got = z3.Const(f"T{n}:{getattr(cls, '__name__', cls)}", T)
            self.types[key] = got
            self.type_rev.append((cls, got))
            self.type_ids[got.get_id()] = cls
            self.solver.add(tid(got) == n)
            v = tval(got)
            self.solver.add(typeof(v) == self.tconst(type(cls)) if cls is not type
                            else typeof(v) == got)
            self.solver.add(truthy(v), alloc(v) == 0)
            # relate to the symbolic class terms seen so far
        return got

    def cls_of(self, t):
        """Concrete class of a T constant, or None."""
        return self.type_ids.get(t.get_id())

    def sub(self, t, cls):
        """Formula: class term t is a subclass of the concrete class cls."""
        if cls is object:
            return z3.BoolVal(True)
        got = self.memo.get((t.get_id(), id(cls)))
        if got is not None:
            return got[0]
        known = self.cls_of(t)
        if known is not None:
            try:
                return z3.BoolVal(issubclass(known, cls))
            except TypeError:
                return z3.BoolVal(False)
        f = z3.Function(f"sub:{self.tconst(cls)}", T, B)
        self.sub_names[f.name()] = cls
        key = ("sub", t.get_id(), id(cls))
        if key not in self.done:
            self.done.add(key)
            add = self.solver.add
            rel = self.symtypes.setdefault(t.get_id(), [])
            # exact matches
            for c, const in self.type_rev:
                if c in BASIC or c is cls:
                    try:
                        add(z3.Implies(t == const, f(t) == z3.BoolVal(issubclass(c, cls))))
                    except TypeError:
                        pass
            for d in rel:
                g = z3.Function(f"sub:{self.tconst(d)}", T, B)
                if _issub(cls, d):
                    add(z3.Implies(f(t), g(t)))
                if _issub(d, cls):
                    add(z3.Implies(g(t), f(t)))
                if _disjoint(cls, d):
                    add(z3.Not(z3.And(f(t), g(t))))
            # a class excluded by layout from every basic exact type
            for c, const in self.type_rev:
                if c in LAYOUT and _disjoint(cls, c):
                    add(z3.Implies(f(t), t != const))
            if cls in (bool, type(None), types.FunctionType, types.BuiltinFunctionType, types.MethodType):
                add(f(t) == (t == self.tconst(cls)))  # final classes
            rel.append(cls)
        r = f(t)
        self.memo[t.get_id(), id(cls)] = (r, t)
        return r

    def is_new(self, t):
        """The term stands for an object allocated by the code under proof."""
        return z3.is_const(t) and t.decl().name().startswith("new#")

    def relate(self, f):
        """Background facts for class tests that came about by substitution."""
        todo = [f]
        seen = self.seen_subs
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen or not z3.is_app(x):
                continue
            seen[k] = x
            n = x.num_args()
            if n == 1 and x.decl().name() in self.sub_names:
                self.sub(x.arg(0), self.sub_names[x.decl().name()])
            todo.extend(x.children())

    # -- solving ---------------------------------------------------------
    def _lit(self, f):
        got = getattr(f, "lit", None)
        if got is not None and got[0] is self:
            return got[1], got[2]
        key = f.get_id()
        p = self.proxies.get(key)
        if p is None:
            b = z3.Bool(f"p!{len(self.proxies)}")
            self.strings.add(f)
            self.relate(f)
            self.solver.add(z3.Implies(b, f))
            p = self.proxies[key] = (b.as_ast(), b.get_id(), b, f)
        f.lit = (self, p[0], p[1])
        return p[0], p[1]

    def check(self, pc, *extra, final=False):
        """Satisfiability of the conjunction.  Answers are remembered: facts
        are only ever added, so unsat stays unsat; a remembered sat may miss
        facts added since, which at worst keeps an infeasible path, and is
        not used for the verdict of an obligation (final)."""
        import time
        t0 = time.time()
        lits = [self._lit(f) for f in pc] + [self._lit(f) for f in extra]
        key = frozenset(i for _, i in lits)
        r = self.cache.get(key)
        if r is not None and (r == z3.unsat or not final):
            return r
        self.queries += 1
        r = self.cache[key] = self._check([a for a, _ in lits])
        self.solver_time += time.time() - t0
        if r == z3.unknown:
            self.unknown += 1
        return r

    def _check(self, asts):
        # Solver.check without its per-literal wrapping
        n = len(asts)
        arr = (z3.Ast * n)(*asts)
        return z3.CheckSatResult(z3.z3core.Z3_solver_check_assumptions(self.solver.ctx.ref(), self.solver.solver, n, arr))

    def last_model(self):
        """The model of the last satisfiable query, one constant per line."""
        m = self.solver.model()
        out = []
        for d in m.decls():
            n = d.name()
            if n.startswith("p!") or n[0] == "T" and ":" in n:
                continue
            v = m[d]
            if d.arity() == 0:
                out.append(f"{n} = {v}")
            elif d.arity() == 1 and n in ("str_of", "int_of", "typeof", "tname"):
                out.append(f"{n}: {v}"[:400])
        return "\n".join(out[:80])


def _issub(a, b):
    try:
        return issubclass(a, b)
    except TypeError:
        return False


def _disjoint(a, b):
    """True when CPython forbids a class deriving from both."""
    if _issub(a, b) or _issub(b, a):
        return False
    la = next((x for x in LAYOUT if _issub(a, x)), None)
    lb = next((x for x in LAYOUT if _issub(b, x)), None)
    return la is not None and lb is not None and la is not lb and not _issub(la, lb) and not _issub(lb, la)
