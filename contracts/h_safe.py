"""Safe mode: nothing taken from a document is evaluated.

Three parts.  Which functions can evaluate text at all is read off the
sources of the whole package.  The dispatch on tags, and the function that
serves a legacy repr entry, are run on an arbitrary entry with safe mode on:
reaching eval, exec or compile there is a failed obligation.  The option
itself reaches nested decodes because they use the same decoder, and nothing
but the constructor stores it.
"""
import ast
import builtins
import importlib
import os
import z3
from pyvc import smt, interp
from .reg import harness
from .rt import *
from .h_core import item, options
from .h_entry import capture, bound, called, same
from .h_doc import Doc, payload, doc, JSON

EVAL = {"eval", "exec", "compile", "execfile", "__builtins__", "builtins", "runpy", "code", "codeop", "marshal", "pickle", "cPickle", "dill", "cloudpickle"}
PKG = os.path.join(interp.REPO, "jsonpickle")


def functions():
    """(module, qualified name, ast) of every function, methods and the module
    level included."""
    out = []
    for d, _, fs in sorted(os.walk(PKG)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            with open(path) as fd:
                tree = ast.parse(fd.read())
            mod = os.path.relpath(path, interp.REPO)[:-3].replace(os.sep, ".")

            def visit(node, qual):
                own = []
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        visit(n, qual + [n.name])
                        own += n.decorator_list + [n.args]
                    elif isinstance(n, ast.ClassDef):
                        visit(n, qual + [n.name])
                    else:
                        own.append(n)
                out.append((mod, ".".join(qual), own))
            visit(tree, [])
    return out


def mentions(nodes):
    names = set()
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name):
                names.add(m.id)
            elif isinstance(m, ast.Attribute):
                if m.attr in ("eval", "exec", "compile"):
                    if not (m.attr == "compile" and isinstance(m.value, ast.Name) and m.value.id == "re"):
                        names.add(m.attr)
                names.add("." + m.attr)
            elif isinstance(m, (ast.Import, ast.ImportFrom)):
                for a in m.names:
                    names.add(a.name.split(".")[0])
                if isinstance(m, ast.ImportFrom) and m.module and not m.level:
                    names.add(m.module.split(".")[0])
    return names


def evaluating(stop):
    """Functions that mention an evaluating builtin, or mention by name a
    function that does; not followed through the names in stop."""
    fs = [(m, q, mentions(b)) for m, q, b in functions()]
    found = {(m, q) for m, q, n in fs if n & EVAL}
    while True:
        simple = {q.rsplit(".", 1)[-1] for m, q in found if q} - stop
        more = {(m, q) for m, q, n in fs if n & simple or {x[1:] for x in n if x[0] == "."} & simple} - found
        if not more:
            return found
        found |= more


def stores(attr):
    return [(m, q) for m, q, b in functions() for n in b for x in ast.walk(n)
            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, (ast.Store, ast.Del))]


@harness("safe.sources", {"C12": None})
def sources(cx):
    """Outside the dispatch on tags, no function of the package can come to
    evaluate text."""
    found = evaluating({"_restore_tags"})
    ok = {("jsonpickle.unpickler", q) for q in ("loadrepr", "Unpickler._restore_repr", "Unpickler._restore_tags")}
    extra = sorted(found - ok)
    if extra:
        raise Unsupported(f"functions that may evaluate text: {extra}")
    cx.oblige("evaluation-only-behind-the-dispatch", ("jsonpickle.unpickler", "loadrepr") in found)
    st = stores("safe")
    if any(x != ("jsonpickle.unpickler", "Unpickler.__init__") for x in st):
        raise Unsupported(f"the option is stored in {st}")
    cx.oblige("option-stored-only-by-constructor", len(st) > 0)


class Reached(V_.Val):
    """Some object found by importing a module and following attribute names."""

    def __repr__(self): return "an imported object or an attribute of one"
    def op_getattr_sym(self, cx, name, *default): return follow(cx, *default)
    def op_getattr(self, cx, name): return follow(cx)
    def op_hasattr(self, cx, name): return cx.choose("hasattr")
    def op_is(self, cx, o): return o is self or cx.choose("same")
    def op_truth(self, cx): return cx.choose("truth")
    def term(self, cx): return z3.Const("reached", V)
    def subst(self, m): return self

    def widen(self, cx): return Reached()
    def covers(self, v): return isinstance(v, Reached)


def follow(cx, *default):
    if cx.choose("no such attribute"):
        if default:
            return default[0]
        raise_py(cx, AttributeError, "no such attribute")
    return Reached()


def import_(cx, a, k):
    if cx.choose("import fails"):
        raise_py(cx, ImportError, "no such module")
    return Reached()


def split(cx, s, a):
    sep = a[0].conc() if a else None
    if sep == "/":
        n = cx.pick("parts", [1, 2, 3])
        return ListV([One(SStr(cx.fresh("part", smt.S))) for _ in range(n)])
    if sep == ".":
        src = cx.src("parts", s.term(cx), 1, lambda g: [typeof(g[0]) == cx.L.tconst(str)])
        return ListV([One(SStr(cx.fresh("first", smt.S))), Bulk(src, [(z3.BoolVal(True), (Sym(src.gens[0]),))])])
    raise Unsupported("split")


class Modules(V_.Val):
    """sys.modules: has imported modules only."""

    def op_type(self, cx): return K(dict)

    def op_getitem(self, cx, k):
        if cx.choose("not imported"):
            raise_py(cx, KeyError, "not imported")
        return Reached()


class World12(Doc):
    def __init__(self, cx, **o):
        Doc.__init__(self, cx, **o)
        m = cx.hooks["models"]
        for f in (eval, exec, compile):
            m[id(f)] = lambda cx, a, k, f=f: self.evaluated(f)
        m[id(builtins.__import__)] = m[id(importlib.import_module)] = import_
        spec = Spec()
        spec.attrs["modules"] = Modules()
        cx.globals_over[("jsonpickle.unpickler", "sys")] = Sym(z3.Const("sys", V), spec)
        cx.hooks["str_split"] = split
        self.evals = 0

    def evaluated(self, f):
        cx = self.cx
        cx.oblige("no-evaluation", z3.Not(self.safe(cx)), lambda: f"{f.__name__} is called on text of the document")
        self.evals += 1
        return Sym(cx.fresh("evaluated", V))

    def safe(self, cx):
        v = self.U.fields["safe"].op_truth(cx)
        return z3.BoolVal(v) if isinstance(v, bool) else v


@harness("safe.repr", {"C12": None})
def repr_(cx):
    w = World12(cx)
    p, c = payload(cx)
    try:
        r = w.restore(doc(tags.REPR, p))
    except PyExc:
        return
    if w.evals:
        return
    ok = isinstance(r, Reached) or isinstance(r, K) and r.v is None
    cx.oblige("only-imports-and-attributes", z3.Or(z3.Not(w.safe(cx)), ok) if not isinstance(ok, bool) or not ok else True, lambda: f"{r!r}")


@harness("safe.dispatch", {"C12": None})
def dispatch(cx):
    """Whatever tags an entry has, the function chosen for it does not
    evaluate text in safe mode, or is the one safe.repr runs."""
    w = World12(cx, safe=K(True))
    found = {q for m, q in evaluating({"_restore_tags"})}
    j = item(cx, "entry", dict)
    cx.hooks["itemfacts"] = lambda g: [typeof(g[0]) == cx.L.tconst(str)]
    f = interp.call(cx, w.U.op_getattr(cx, "_restore_tags"), [j])
    g = f.func.conc() if isinstance(f, V_.BoundV) else f.conc() if isinstance(f, K) else None
    if not callable(g):
        raise Unsupported(f"dispatch gives {f!r}")
    if g.__qualname__ in found:
        # may still be guarded inside: run on a repr entry with safe mode on
        try:
            interp.call(cx, f, [doc(tags.REPR, item(cx, "text", str))])
        except PyExc:
            pass
    cx.oblige("dispatch-is-safe", True)


@harness("safe.nested", {"C12": None})
def nested(cx):
    """A nested decode of a key is done by the same decoder."""
    w = World12(cx, keys=K(True))
    log = []
    capture(cx, ["jsonpickle.unpickler.Unpickler.restore"], log, lambda cx, n: Sym(cx.fresh("result", V)))
    cx.contracts["jsonpickle.backend.JSONBackend.decode"] = lambda cx, a, k: Sym(cx.fresh("parsed", V))
    key = SStr(z3.Const("key", smt.S))
    from pyvc import strs
    cx.assume(strs.prefix(strs.sval(tags.JSON_KEY), key.s))
    interp.call(cx, w.U.op_getattr(cx, "_restore_pickled_key"), [key])
    called(log)
    for n, a, k in log:
        inner = bound(U.Unpickler.restore, a, k)["self"]
        if not isinstance(inner, InstV) or "safe" not in inner.fields:
            raise Unsupported("another decoder")
        cx.oblige("nested-decode-keeps-the-choice", inner is w.U or same(cx, inner.fields["safe"], w.U.fields["safe"]), lambda: f"{inner!r}")
