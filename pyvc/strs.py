"""Strings as an uninterpreted sort with ground facts.

The analysed code compares strings, tests fixed prefixes/suffixes, glues
strings together and cuts fixed prefixes off.  These operations are
uninterpreted functions here; `Facts` adds their true ground instances for
every string term that reaches the solver (never anything that is false of
real strings, so nothing is provable that does not hold).
"""
import z3

S = z3.DeclareSort("Str")
B = z3.BoolSort()
I = z3.IntSort()

sid = z3.Function("sid", S, I)
slen_ = z3.Function("slen", S, I)
cat_ = z3.Function("cat", S, S, S)
untail = z3.Function("untail", S, S, S)      # untail(cat(a,b), a) = b
unhead = z3.Function("unhead", S, S, S)      # unhead(cat(a,b), b) = a
sub_ = z3.Function("substr", S, I, I, S)     # start, length
has_ = z3.Function("contains", S, S, B)
int2str_ = z3.Function("int2str", I, S)
unint = z3.Function("unint", S, I)
pre_ = z3.Function("prefixof", S, S, B)      # prefix not a constant
suf_ = z3.Function("suffixof", S, S, B)

_consts = {}


def sval(c):
    t = z3.Const("s:" + repr(c), S)
    _consts["s:" + repr(c)] = c
    return t


def const_of(t):
    if z3.is_app(t) and t.num_args() == 0:
        return _consts.get(t.decl().name())
    return None


EMPTY = sval("")


def seq(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca == cb)
    return a == b


def is_cat(t):
    return z3.is_app(t) and t.decl().name() == "cat" and t.num_args() == 2


def parts(t):
    return parts(t.arg(0)) + parts(t.arg(1)) if is_cat(t) else [t]


def cat(*ts):
    """Right-nested concatenation of the non-empty parts, constants merged."""
    flat = []
    for t in ts:
        for p in parts(t):
            c = const_of(p)
            if c == "":
                continue
            if c is not None and flat and const_of(flat[-1]) is not None:
                flat[-1] = sval(const_of(flat[-1]) + c)
            else:
                flat.append(p)
    if not flat:
        return EMPTY
    out = flat[-1]
    for p in reversed(flat[:-1]):
        out = cat_(p, out)
    return out


def slen(t):
    c = const_of(t)
    return z3.IntVal(len(c)) if c is not None else slen_(t)


def prefix(p, s):
    """s.startswith(p)"""
    cp, cs = const_of(p), const_of(s)
    if cp is None:
        return z3.BoolVal(True) if p.eq(s) else pre_(p, s)
    if cp == "":
        return z3.BoolVal(True)
    if cs is not None:
        return z3.BoolVal(cs.startswith(cp))
    return z3.Function("prefix:" + repr(cp), S, B)(s)


def suffix(p, s):
    cp, cs = const_of(p), const_of(s)
    if cp is None:
        return z3.BoolVal(True) if p.eq(s) else suf_(p, s)
    if cp == "":
        return z3.BoolVal(True)
    if cs is not None:
        return z3.BoolVal(cs.endswith(cp))
    return z3.Function("suffix:" + repr(cp), S, B)(s)


def contains(s, sub):
    cs, cb = const_of(s), const_of(sub)
    if cs is not None and cb is not None:
        return z3.BoolVal(cb in cs)
    if cb == "":
        return z3.BoolVal(True)
    return has_(s, sub)


def substr(s, lo, n):
    """s[lo:lo+n], lo and n given as z3 ints with 0 <= lo, 0 <= n."""
    c = const_of(s)
    lo, n = z3.simplify(lo), z3.simplify(n)
    if c is not None and z3.is_int_value(lo) and z3.is_int_value(n):
        return sval(c[lo.as_long():lo.as_long() + n.as_long()])
    return sub_(s, lo, n)


def drop(s, k):
    """s[k:] for a concrete k >= 0."""
    c = const_of(s)
    if c is not None:
        return sval(c[k:])
    if k == 0:
        return s
    ps = parts(s)
    c = const_of(ps[0])
    if c is not None and len(ps) > 1 and len(c) >= k:
        return cat(sval(c[k:]), *ps[1:])
    return z3.Function(f"drop:{k}", S, S)(s)


def int2str(i):
    i = z3.simplify(i)
    return sval(str(i.as_long())) if z3.is_int_value(i) else int2str_(i)


class Facts:
    def __init__(self, solver):
        self.solver = solver
        self.seen = {}
        self.consts = {}     # term id -> (term, str)
        self.cats = []
        self.fns = {}        # ("prefix"|"suffix"|"drop", const) -> decl
        self.terms = []      # arguments of prefix functions
        self.hassub = {}
        self.drops = []      # (k, argument, drop term)
        self.glued = set()
        self.add(EMPTY)

    def add(self, f):
        todo = [f]
        new = []
        while todo:
            t = todo.pop()
            k = t.get_id()
            if k in self.seen:
                continue
            self.seen[k] = t
            if z3.is_app(t):
                todo.extend(t.children())
                new.append(t)
        for t in new:
            self.term(t)

    def axiom(self, f):
        self.solver.add(f)
        self.add(f)

    def term(self, t):
        name = t.decl().name()
        if t.num_args() == 0:
            if name in _consts and t.sort() == S:
                self.const(t, _consts[name])
            return
        if name.startswith(("prefix:", "suffix:", "drop:")):
            kind, c = name.split(":", 1)
            c = eval(c)
            d = t.decl()
            if (kind, c) not in self.fns:
                self.fns[kind, c] = d
                for ct, cs in list(self.consts.values()):
                    self.fn_const(kind, c, d, ct, cs)
                for ct in list(self.cats):
                    self.fn_cat(kind, c, d, ct)
                if kind != "drop":
                    for x in list(self.terms):
                        self.fn_term(kind, c, d, x)
            x = t.arg(0)
            if kind == "drop":
                if not is_cat(x) and const_of(x) is None:
                    self.drops.append((c, x, t))
            self.glue()
            if kind != "drop" and not any(y.eq(x) for y in self.terms):
                self.terms.append(x)
                for (kd, c2), d2 in list(self.fns.items()):
                    if kd != "drop":
                        self.fn_term(kd, c2, d2, x)
            return
        if name == "cat":
            a, b = t.arg(0), t.arg(1)
            self.axiom(slen_(t) == slen_(a) + slen_(b))
            self.axiom(z3.And(untail(t, a) == b, unhead(t, b) == a))
            self.axiom(z3.And(slen_(a) >= 0, slen_(b) >= 0))
            self.cats.append(t)
            c = const_of(a)
            if c is not None:
                self.fns.setdefault(("prefix", c), z3.Function("prefix:" + repr(c), S, B))
                for ct, cs in list(self.consts.values()):
                    self.fn_const("prefix", c, self.fns["prefix", c], ct, cs)
                    if cs.startswith(c):
                        self.axiom(untail(ct, a) == sval(cs[len(c):]))
            for (kind, c2), d in list(self.fns.items()):
                self.fn_cat(kind, c2, d, t)
        elif name == "slen":
            x = t.arg(0)
            self.axiom(z3.And(t >= 0, (t == 0) == (x == EMPTY)))
        elif name == "substr":
            x, lo, n = t.children()
            self.axiom(z3.And(slen_(t) >= 0, slen_(t) <= slen_(x)))
            self.axiom(z3.Implies(z3.And(lo == 0, n == slen_(x)), t == x))
        elif name == "contains":
            c = const_of(t.arg(1))
            if c is not None:
                self.hassub[c] = t.arg(1)
                for ct, cs in list(self.consts.values()):
                    self.axiom(has_(ct, t.arg(1)) == z3.BoolVal(c in cs))
            c = const_of(t.arg(0))
            if c is not None and c == "":
                self.axiom(t == (t.arg(1) == EMPTY))
        elif name == "int2str":
            self.axiom(z3.And(unint(t) == t.arg(0), t != EMPTY))
        elif name == "prefixof" or name == "suffixof":
            self.axiom(z3.Implies(t.arg(0) == EMPTY, t))
            self.axiom(z3.Implies(t.arg(0) == t.arg(1), t))

    def glue(self):
        """s.startswith(p) implies s == p + s[len(p):]"""
        for (kind, p), d in list(self.fns.items()):
            for k, x, t in list(self.drops):
                if kind == "prefix" and len(p) == k and (p, x.get_id()) not in self.glued:
                    self.glued.add((p, x.get_id()))
                    self.axiom(z3.Implies(d(x), x == cat(sval(p), t)))

    def const(self, t, c):
        if t.get_id() in self.consts:
            return
        n = len(self.consts)
        self.consts[t.get_id()] = (t, c)
        self.solver.add(sid(t) == n, slen_(t) == len(c))
        for (kind, p), d in list(self.fns.items()):
            self.fn_const(kind, p, d, t, c)
        for x in list(self.cats):
            a = const_of(x.arg(0))
            if a is not None and c.startswith(a):
                self.axiom(untail(t, x.arg(0)) == sval(c[len(a):]))
        for sub, st in list(self.hassub.items()):
            self.axiom(has_(t, st) == z3.BoolVal(sub in c))

    def fn_const(self, kind, p, d, t, c):
        if kind == "prefix":
            self.solver.add(d(t) == z3.BoolVal(c.startswith(p)))
        elif kind == "suffix":
            self.solver.add(d(t) == z3.BoolVal(c.endswith(p)))
        else:
            self.axiom(d(t) == sval(c[p:]))

    def fn_cat(self, kind, p, d, t):
        ps = parts(t)
        if kind == "drop":
            c = const_of(ps[0])
            if c is not None and len(c) >= p:
                self.axiom(d(t) == drop(t, p))
            return
        end = ps[0] if kind == "prefix" else ps[-1]
        c = const_of(end)
        rest = (cat(*ps[1:]) if kind == "prefix" else cat(*ps[:-1]))
        if c is None:
            # the part alone decides when it is long enough
            if kind == "prefix":
                self.axiom(z3.Implies(d(end), d(t)))
                self.axiom(z3.Implies(slen_(end) >= len(p), d(t) == d(end)))
            else:
                self.axiom(z3.Implies(d(end), d(t)))
                self.axiom(z3.Implies(slen_(end) >= len(p), d(t) == d(end)))
            return
        if kind == "prefix":
            if c.startswith(p):
                self.solver.add(d(t))
            elif not p.startswith(c):
                self.solver.add(z3.Not(d(t)))
            else:
                self.axiom(d(t) == prefix(sval(p[len(c):]), rest))
        else:
            if c.endswith(p):
                self.solver.add(d(t))
            elif not p.endswith(c):
                self.solver.add(z3.Not(d(t)))
            else:
                self.axiom(d(t) == suffix(sval(p[:len(p) - len(c)]), rest))

    def fn_term(self, kind, p, d, x):
        self.solver.add(z3.Implies(d(x), slen_(x) >= len(p)))
        for (k2, q), e in list(self.fns.items()):
            if k2 != kind or q == p:
                continue
            if kind == "prefix":
                if p.startswith(q):
                    self.solver.add(z3.Implies(d(x), e(x)))
                elif q.startswith(p):
                    self.solver.add(z3.Implies(e(x), d(x)))
                else:
                    self.solver.add(z3.Not(z3.And(d(x), e(x))))
            else:
                if p.endswith(q):
                    self.solver.add(z3.Implies(d(x), e(x)))
                elif q.endswith(p):
                    self.solver.add(z3.Implies(e(x), d(x)))
                else:
                    self.solver.add(z3.Not(z3.And(d(x), e(x))))
