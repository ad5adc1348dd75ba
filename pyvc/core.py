"""Execution context: path exploration, path condition, journaled state."""
import itertools
import time
import z3
from . import smt
from .smt import V, T


_serial = itertools.count(1)


def serial():
    return next(_serial)


class Heap(dict):
    """A journaled dict belonging to the analysed program's state."""

    def __init__(self, *a):
        super().__init__(*a)
        self.born = serial()


class Unsupported(Exception):
    """The analysed code uses something outside the supported subset."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable; the path is dropped."""


class Budget(Exception):
    """Path or time budget exhausted: undecided, never a violation."""


class PyExc(Exception):
    """A Python exception raised by the analysed code."""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        return f"PyExc({self.exc})"


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame:
    __slots__ = ("prefix", "pos", "alts")

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []


class One:
    """One entry of a sequence / mapping / log."""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return f"{self.val!r}"


class Del:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"Del({self.key!r})"


class Bulk:
    """Entries produced by a loop over a symbolic source: for every element e
    of src in order, the entries of the alternative whose guard holds of e."""
    __slots__ = ("src", "alts", "locals", "partial")

    def __init__(self, src, alts, locals_=(), partial=False):
        self.src = src
        self.alts = tuple(alts)        # ((z3 guard, (entry, ...)), ...)
        self.locals = tuple(locals_)
        self.partial = partial         # True: only some prefix of the elements

    def __repr__(self):
        return f"Bulk<{self.src.key}>{list(self.alts)}"


class Opaque:
    """Unknown further content (frame of a call by contract, prior iterations)."""
    __slots__ = ("name", "info")

    def __init__(self, name, info=None):
        self.name = name
        self.info = info

    def __repr__(self):
        return f"Opaque({self.name})"


def occurring(consts, f):
    """Those of the constants that occur in the formula."""
    want = {c.get_id(): c for c in consts}
    out, todo, seen = [], [f], set()
    while todo and want:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in want:
            out.append(want.pop(k))
        todo.extend(x.children())
    return out


class Src:
    """A symbolic finite sequence; gens are its canonical generic element."""

    def __init__(self, key, kind, gens, facts, owner=None):
        self.key = key
        self.kind = kind
        self.gens = gens
        self.facts = facts
        self.owner = owner
        self.counted = set()     # lists whose length was taken during a loop over this

    def __repr__(self):
        return f"Src({self.key})"


class Stats:
    def __init__(self):
        self.paths = 0
        self.covered = {}
        self.contract_uses = {}
        self.assumptions = {}


class Cx:
    """One execution of a harness along one path."""

    def __init__(self, logic, prefix, stats, limits, report):
        self.L = logic
        self.frames = [Frame(prefix)]
        self.pc = []
        self.journal = []
        self.counter = 0
        self.created = []
        self.stats = stats
        self.limits = limits
        self.report = report
        self.srcs = {}
        self.forall = {}
        self.exists_memo = {}
        self.active = []          # sources whose generic element is in scope
        self.contracts = {}
        self.globals_over = {}
        self.ghost = {}
        self.depth = 0
        self.uid = 0
        self.hooks = {}
        self.trace = []

    # -- names -----------------------------------------------------------
    def fresh(self, name, sort):
        self.counter += 1
        c = z3.Const(f"{name}!{self.counter}", sort)
        self.created.append(c)
        return c

    def newid(self):
        self.uid += 1
        return self.uid

    # -- state -----------------------------------------------------------
    def set(self, obj, attr, new):
        self.journal.append((obj, attr, getattr(obj, attr), False))
        setattr(obj, attr, new)

    def setkey(self, dct, key, new):
        self.journal.append((dct, key, dct.get(key, _MISSING), True))
        dct[key] = new

    def delkey(self, dct, key):
        self.journal.append((dct, key, dct.get(key, _MISSING), True))
        dct.pop(key, None)

    def rollback(self, mark, keep_after=None):
        """Undo state changes; objects created after serial `keep_after` keep
        their final state (they are only reachable from the summary)."""
        j = self.journal
        while len(j) > mark:
            obj, attr, old, isdict = j.pop()
            if keep_after is not None and getattr(obj, "born", 0) > keep_after:
                continue
            if isdict:
                if old is _MISSING:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            else:
                setattr(obj, attr, old)

    # -- path condition --------------------------------------------------
    def tick(self):
        if time.time() > self.limits["deadline"]:
            raise Budget("time")

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)

    def feasible(self, *extra):
        return self.L.check(self.pc, *extra) != z3.unsat

    def require_feasible(self):
        if not self.feasible():
            raise Infeasible()

    def prove(self, f, final=False):
        """True if the path condition entails f; False if refuted; None unknown."""
        if isinstance(f, bool):
            if f:
                return True
            r = self.L.check(self.pc, final=final)
        else:
            f = z3.simplify(f)
            if z3.is_true(f):
                return True
            r = self.L.check(self.pc, z3.Not(f), final=final)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def decide(self, cond):
        """Branch on a condition, exploring both outcomes where feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            self.pc.append(cond if d else z3.simplify(z3.Not(cond)))
            return d
        self.tick()
        neg = z3.simplify(z3.Not(cond))
        can_t = self.feasible(cond)
        can_f = self.feasible(neg) if can_t else True
        if can_t and can_f:
            fr.alts.append(fr.prefix[: fr.pos] + [False])
            d = True
        elif can_t:
            d = True
        else:
            d = False
            if not self.feasible(neg):
                raise Infeasible()
        fr.prefix.append(d)
        fr.pos += 1
        self.pc.append(cond if d else neg)
        return d

    def choose(self, name):
        return self.decide(self.fresh(name, z3.BoolSort()))

    def pick(self, name, options):
        """One of the options, each explored on its own path."""
        for o in options[:-1]:
            if self.choose(name):
                return o
        return options[-1]

    def sub_explore(self, fn):
        """All outcomes of fn() from the current state; state is rolled back.
        fn returns a picklable summary computed before the rollback."""
        work = [[]]
        out = []
        while work:
            self.tick()
            prefix = work.pop()
            mark, pcmark = len(self.journal), len(self.pc)
            born = serial()
            fr = Frame(prefix)
            self.frames.append(fr)
            nact = len(self.active)
            depth = self.depth
            try:
                res = fn(pcmark)
                out.append(res)
                if len(out) > self.limits["subpaths"]:
                    raise Budget("subpaths")
            except Infeasible:
                pass
            finally:
                self.frames.pop()
                self.rollback(mark, born)
                del self.pc[pcmark:]
                del self.active[nact:]
                self.depth = depth
            work.extend(fr.alts)
        return out

    # -- symbolic sources --------------------------------------------------
    def src(self, kind, owner_term, ngens=1, facts=None):
        key = f"{kind}({owner_term.sexpr()})"
        s = self.srcs.get(key)
        if s is None:
            gens = tuple(z3.Const(f"{'e' if ngens == 1 else 'kv'[i]}@{key}", V) for i in range(ngens))
            fs = [smt.alloc(g) <= 0 for g in gens]
            if facts:
                fs += facts(gens)
            s = Src(key, kind, gens, fs, owner_term)
            self.srcs[key] = s
        return s

    def src_facts(self, src):
        return list(src.facts) + list(self.forall.get(src.key, ()))

    def add_forall(self, src, f):
        self.setkey(self.forall, src.key, tuple(self.forall.get(src.key, ())) + (f,))
        ws = self.forall.get(("witnesses", src.key), ())
        for m in ws:
            self.assume(z3.substitute(f, *m))
        if ws:
            self.require_feasible()

    def witness(self, src, name="w"):
        ws = tuple(self.fresh(name, V) for _ in src.gens)
        m = list(zip(src.gens, ws))
        for f in self.src_facts(src):
            self.assume(z3.substitute(f, *m))
        wk = ("witnesses", src.key)
        self.setkey(self.forall, wk, self.forall.get(wk, ()) + (m,))
        return m

    def has_witness(self, src, cond):
        return (src.key, z3.simplify(cond).sexpr()) in self.exists_memo

    def exists(self, src, cond, locals_=()):
        """Branch on "some element of src satisfies cond"; on the true branch
        returns the substitution to a witness, else False and the negation is
        recorded for all elements."""
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_false(cond):
            return False
        if locals_:
            locals_ = occurring(locals_, cond)
        key = (src.key, cond.sexpr())
        if key in self.exists_memo:
            return self.exists_memo[key]
        alt = [(g, self.fresh("q", V)) for g in src.gens]
        loc = [(c, self.fresh("ql", c.sort())) for c in locals_]
        fs = [z3.substitute(f, *alt) for f in self.src_facts(src)]
        if not self.feasible(*fs, z3.substitute(cond, *alt, *loc)):
            return False
        if self.choose("some"):
            m = self.witness(src)
            ml = [(c, self.fresh("wl", c.sort())) for c in locals_]
            self.assume(z3.substitute(cond, *m, *ml))
            self.require_feasible()
            self.setkey(self.exists_memo, key, m + ml)
            return m + ml
        if not locals_:
            self.add_forall(src, z3.Not(cond))
        self.setkey(self.exists_memo, key, False)
        return False

    # -- obligations -------------------------------------------------------
    def oblige(self, name, cond, detail=""):
        """Check an obligation on the current path."""
        r = cond if cond is None else self.prove(cond, final=True)
        self.report(self, name, r, detail() if callable(detail) and r is not True else detail)
        return r

    def assumption(self, text):
        self.stats.assumptions[text] = self.stats.assumptions.get(text, 0) + 1


_MISSING = object()


class Explorer:
    """Runs a harness over every feasible path."""

    def __init__(self, timeout_s=120, max_paths=4000, subpaths=400, solver_ms=8000):
        self.timeout_s = timeout_s
        self.max_paths = max_paths
        self.subpaths = subpaths
        self.logic = None
        self.solver_ms = solver_ms

    def run(self, harness, report):
        logic = self.logic = smt.Logic(self.solver_ms)
        stats = Stats()
        limits = {"deadline": time.time() + self.timeout_s, "subpaths": self.subpaths}
        work = [[]]
        done = 0
        status, note = "complete", ""
        while work:
            prefix = work.pop()
            cx = Cx(logic, prefix, stats, limits, report)
            try:
                harness(cx)
                done += 1
            except Infeasible:
                pass
            except Unsupported as e:
                status, note = "unsupported", str(e)
                break
            except Budget as e:
                status, note = "budget", str(e)
                break
            except z3.Z3Exception as e:
                status, note = "solver-error", str(e)
                break
            work.extend(cx.frames[0].alts)
            if done > self.max_paths:
                status, note = "budget", "paths"
                break
        stats.paths = done
        stats.status, stats.note = status, note
        stats.queries, stats.unknown = logic.queries, logic.unknown
        stats.solver_time = logic.solver_time
        return stats
