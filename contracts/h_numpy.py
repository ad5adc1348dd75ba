"""The NumPy handlers: how an array is stored, and that the constructor call
made on decoding is given what the array said about itself.  The equations
between NumPy's constructors and accessors are assumed (they are listed) and
covered by the bounded check."""
import ast
import json
import z3
from pyvc import smt, strs, interp
from pyvc.core import Infeasible
try:
    import numpy as np
    from jsonpickle.ext import numpy as ext
except Exception:       # the harnesses then give no answer
    np = ext = None
from .reg import harness
from .rt import *
from .h_core import both, item
from .h_std import method, agree
from .h_pandas import Raw, codec_models, compression, a_of, utf8, arg

S, BOOL, INT = smt.S, z3.BoolSort(), z3.IntSort()
dtext = z3.Function("dtype text", V, S)
native = z3.Function("native dtype", V, V)
order_of = z3.Function("byte order", V, S)
ordered = z3.Function("dtype in byte order", V, S, V)
plain = z3.Function("dtype without fields", V, BOOL)
isobj = z3.Function("object dtype", V, BOOL)
content = z3.Function("content", V, V)          # tobytes(order="A")
jtext = z3.Function("JSON text", V, S)


class DType(V_.Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"dtype {self.t}"
    def term(self, cx): return self.t
    def op_type(self, cx): return K(np.dtype)
    def op_str(self, cx): return SStr(dtext(self.t))
    def op_truth(self, cx): return True
    def op_eq(self, cx, o):
        if isinstance(o, K) and o.v is object:
            return isobj(self.t)
        raise Unsupported(f"dtype == {o!r}")

    def op_hasattr(self, cx, name):
        if name == "tostring":
            return False
        raise Unsupported(f"hasattr(dtype, {name})")

    def op_getattr(self, cx, name):
        if name == "byteorder":
            b = order_of(self.t)
            cx.L.bg(("order", b.get_id()), z3.Or(*[b == strs.sval(c) for c in "=<>|"]))
            return SStr(b)
        if name == "fields":
            return K(None) if cx.decide(plain(self.t)) else DictV([One((K("f"), K(1)))])
        if name == "isnative":
            b = machine(order_of(self.t))
            # of a structured dtype any field may be in another order
            f = z3.Function("native fields", V, BOOL)(self.t)
            return SBool(z3.If(plain(self.t), z3.Or(b == strs.sval("|"), b == strs.sval(ext.native_byteorder)), f))
        if name == "hasobject":
            return SBool(isobj(self.t))
        if name == "newbyteorder":
            def m(cx, a, k):
                s = V_.as_str(cx, a[0])
                if cx.prove(s == strs.sval("N")):
                    t = native(self.t)
                    # the byte order is all that differs
                    cx.L.bg(("native", t.get_id()), isobj(t) == isobj(self.t), plain(t) == plain(self.t))
                    return DType(t)
                return DType(ordered(self.t, s))
            return ModelFn("newbyteorder", m)
        raise Unsupported(f"dtype attribute {name}")


class Lit(V_.Val):
    """ast.literal_eval of a text"""
    def __init__(self, s): self.s = s


class Flags(V_.Val):
    def __init__(self, **f):
        self.f, self.born, self.off = f, serial(), K(False)

    def op_getattr(self, cx, name):
        if name not in self.f:
            raise Unsupported(f"flag {name}")
        return self.f[name]

    def op_setattr(self, cx, name, v):
        if name != "writeable" or v.conc() is not False:
            raise Unsupported(f"flag {name} = {v!r}")
        cx.set(self, "off", K(True))


class Made(V_.Val):
    """An array made by one of NumPy's constructors."""
    def __init__(self, ctor, a, k):
        self.ctor, self.a, self.k, self.born = ctor, list(a), dict(k), serial()
        self.flags, self.dt, self.copied, self.shape = Flags(), None, False, None

    def __repr__(self): return f"{self.ctor}({self.a}, {self.k})"
    def op_type(self, cx): return K(np.ndarray)
    def term(self, cx): return z3.Const("made array", V)

    def op_getattr(self, cx, name):
        if name == "flags":
            return self.flags
        if name == "dtype":
            return self.dt or arg((self.a, self.k), 1, "dtype")
        if name == "copy":
            def m(cx, a, k):
                o = arg((a, k), 0, "order").conc()
                cx.oblige("copy-keeps-the-memory-order", o in ("K", "A"), lambda: f"copy({a}, {k})")
                cx.set(self, "copied", True)
                return self
            return ModelFn("copy", m)
        if name == "reshape":
            def m(cx, a, k):
                cx.set(self, "shape", a[0])
                return self
            return ModelFn("reshape", m)
        raise Unsupported(f"array attribute {name}")

    def op_setattr(self, cx, name, v):
        if name != "dtype":
            raise Unsupported(f"array.{name} = {v!r}")
        cx.set(self, "dt", v)

    def op_getitem(self, cx, k):
        return Scalar(self)


class Scalar(V_.Val):
    def __init__(self, arr): self.arr = arr
    def __repr__(self): return f"scalar of {self.arr!r}"


def numpy_models(cx):
    codec_models(cx)
    m = cx.hooks["models"]

    def np_dtype(cx, a, k):
        x = a[0]
        s = x.s if isinstance(x, Lit) else V_.as_str(cx, x)
        if not a_of(s, dtext):
            raise Unsupported("dtype of other text")
        if not isinstance(x, Lit):
            cx.oblige("structured-dtype-text-is-evaluated", z3.Not(z3.Or(strs.prefix(strs.sval("["), s), strs.prefix(strs.sval("{"), s))))
        return DType(s.arg(0))
    m[id(ast.literal_eval)] = lambda cx, a, k: Lit(V_.as_str(cx, a[0]))
    m[id(np.dtype)] = np_dtype
    m[id(np.array)] = lambda cx, a, k: Made("array", a, k)
    m[id(np.ndarray)] = lambda cx, a, k: Made("ndarray", a, k)

    def dumps(cx, a, k):
        if not isinstance(a[0], ListV) or k:
            raise Unsupported("json.dumps")
        b = a[0].segs[0]
        cx.ghost["dumped"] = a[0]
        return SStr(jtext(b.src.gens[0]))
    m[id(json.dumps)] = dumps

    def loads(cx, a, k):
        s = V_.as_str(cx, a[0])
        if not a_of(s, jtext):
            raise Unsupported("json.loads of other text")
        return ListV(cx.ghost["dumped"].segs)
    m[id(json.loads)] = loads
    for e in ("numpy.dtype(str(d)) equals d, literals evaluated",):
        cx.assumption(e)


class Array:
    """An array x: dtype d, shape, memory order, writeable or not."""

    def __init__(self, cx, name="x"):
        self.x = x = item(cx, name, np.ndarray)
        self.d = z3.Const(name + ".dtype", V)
        cx.assume(z3.Not(strs.prefix(strs.sval("(numpy.record, "), dtext(self.d))))
        cx.assume(z3.Not(strs.prefix(strs.sval("(numpy.record, "), dtext(native(self.d)))))
        self.size = z3.Int(name + ".size")
        cx.assume(self.size >= 0)
        self.zero = z3.Bool(name + " has an empty dimension")
        self.ssrc = cx.src("shape", x.t, 1, lambda g: [typeof(g[0]) == cx.L.tconst(int)])
        self.fnc, self.ro, self.c = z3.Bool(name + ".fnc"), z3.Bool(name + " is read-only"), z3.Bool(name + ".c_contiguous")
        self.forc = z3.Bool(name + ".forc")
        # Fortran and not C; either
        cx.assume(self.fnc == z3.And(self.forc, z3.Not(self.c)))
        self.vsrc = src = cx.src("values", x.t, 1, lambda g: [z3.Not(isproxy(g[0]))])
        self.vals = ListV([Bulk(src, [(BT, (Sym(src.gens[0]),))])])
        x.spec = Spec()
        x.spec.attrs.update({
            "dtype": DType(self.d), "size": SInt(self.size), "shape": Shape(self),
            "flags": Flags(writeable=SBool(z3.Not(self.ro)), fnc=SBool(self.fnc), c_contiguous=SBool(self.c), forc=SBool(self.forc)),
            "tolist": method("tolist", self.vals), "base": K(None),
            "tobytes": ModelFn("tobytes", self.tobytes), "copy": ModelFn("copy", self.copy),
            "strides": JTok(z3.Const(name + ".strides", V)), "ctypes": address(name)})

    def tobytes(self, cx, a, k):
        o = arg((a, k), 0, "order").conc()
        cx.oblige("bytes-in-memory-order", o == "A", lambda: f"tobytes({a}, {k})")
        return Raw(content(self.x.t))

    def copy(self, cx, a, k):
        """An array of its own, in the memory order asked for."""
        o = arg((a, k), 0, "order")
        o = "C" if o.conc() is None else o.conc()
        if o not in ("A", "C", "F"):
            raise Unsupported(f"copy({a}, {k})")
        fort = self.fnc if o == "A" else z3.BoolVal(o == "F")
        y = item(cx, "copy", np.ndarray)
        y.spec = Spec()
        y.spec.attrs.update(self.x.spec.attrs, base=K(None), flags=Flags(writeable=K(True), fnc=SBool(fort), c_contiguous=SBool(z3.Not(fort)), forc=K(True)),
                            tobytes=ModelFn("tobytes", lambda cx, a, k: self.of_copy(cx, a, k, fort)))
        return y

    def of_copy(self, cx, a, k, fort):
        # the content of the array if the copy is in the order of the array
        r = self.tobytes(cx, a, k)
        return Raw(z3.If(fort == self.fnc, r.t, z3.Const("content in another order", V)))


def address(name):
    sp = Spec()
    sp.attrs["data"] = SInt(z3.Int(name + " at"))
    return Sym(z3.Const(name + ".ctypes", V), sp)


class Shape(V_.Val):
    def __init__(self, a): self.a = a
    def __repr__(self): return "shape"

    def term(self, cx):
        t = z3.Const("shape of " + str(self.a.x.t), V)
        cx.L.bg(("shape", t.get_id()), typeof(t) == cx.L.tconst(tuple))
        return t

    def op_type(self, cx): return K(tuple)
    def op_json(self, cx): return self

    def op_contains(self, cx, k):
        if k.conc() != 0:
            raise Unsupported("in shape")
        return self.a.zero


def handler(cx, cls, a, how):
    """A handler with any threshold and compression."""
    if how == "text":
        th = K(None) if cx.choose("no threshold") else SInt(z3.Int("size threshold"))
        if isinstance(th, SInt):
            cx.assume(th.i >= a.size)
    else:
        th = SInt(z3.Int("size threshold"))
        cx.assume(th.i < a.size)
    comp = K(None) if how == "uncompressed" else compression(cx, False)
    return interp.construct(cx, cls, [], dict({"size_threshold": th, "compression": comp}, **({"mode": K("ignore")} if cls is ext.NumpyNDArrayHandlerView else {})))


def store(cx, w, h, x):
    h = interp.call(cx, h, [w.P])
    data = DictV([One((K(tags.OBJECT), K("numpy.ndarray")))])
    return interp.call(cx, h.op_getattr(cx, "flatten"), [x, data])


def load(cx, w, h, j):
    h = interp.call(cx, h, [w.U])
    return interp.call(cx, h.op_getattr(cx, "restore"), [jsoncopy(cx, j)])


def same_dtype(cx, v, d):
    """The dtype but for its byte order."""
    return isinstance(v, DType) and zor(v.t == d, v.t == native(d))


P19 = {"C19": None, "C07": ("output-is-json",), "C02": ("reference",)}


def foreign(cx, a, kinds):
    """What the array x is made over, and cannot be stored by reference to:
    bytes or a bytearray (no fields), an object that gives no buffer, or
    nothing at all where the memory is not in one piece."""
    kind = cx.pick("base", kinds)
    if kind == "none":
        cx.assume(z3.Not(a.forc))
        return
    base = item(cx, "owner", bytes if kind == "bytes" else object)
    cx.assume(z3.Not(cx.L.sub(typeof(base.t), np.ndarray)))
    a.x.spec.attrs["base"] = base
    if kind == "bytes":
        cx.assume(plain(a.d))
    cx.hooks["models"][id(np.frombuffer)] = lambda cx, b, k: buffer_of(cx, base, b) if kind == "bytes" else raise_py(cx, cx.pick("error", [TypeError, ValueError]), "no buffer")


def buffer_of(cx, base, b):
    if b[0] is not base:
        raise Unsupported("buffer of something else")
    y = item(cx, "bytes of the owner", np.ndarray)
    y.spec = Spec()
    y.spec.attrs.update(flags=Flags(forc=K(True)), ctypes=address("owner"), tobytes=ModelFn("tobytes", lambda cx, a, k: owned(cx, base)))
    return y


def owned(cx, base):
    """The bytes an object holds, as a bytes object of their own."""
    y = item(cx, "bytes held", bytes)
    y.spec = Spec()
    y.spec.extra["by contract"] = True
    return y


def by_value(cls, how, copied=False):
    def h(cx):
        w = both(cx)
        numpy_models(cx)
        a = Array(cx)
        hd = handler(cx, getattr(ext, cls), a, how)
        if copied:
            # the kind of base has no say in how the copy is stored
            foreign(cx, a, ["bytes", "unknown", "none"] if how == "uncompressed" else ["unknown"])
        elif cls.endswith("View"):
            cx.assume(a.forc)
        j = store(cx, w, hd, a.x)
        r = load(cx, w, hd, j)
        if isinstance(r, Sym):
            raise Unsupported(f"{r!r}")
        if not cx.oblige("an-array-is-made", isinstance(r, Made), lambda: f"{r!r}"):
            return
        c = (r.a, r.k)
        dt, steps = arg(c, 1, "dtype"), []
        while isinstance(dt, DType) and a_of(dt.t, ordered):
            steps.insert(0, dt.t.arg(1))
            dt = DType(dt.t.arg(0))
        cx.oblige("dtype-restored", same_dtype(cx, dt, a.d), lambda: f"{r!r}")
        shape = (arg(c, 0, "shape") if r.ctor == "ndarray" else K(None)) if r.shape is None else r.shape
        has = isinstance(shape, Shape) and shape.a is a
        order = c[1].get("order", K("C"))
        fort = V_.as_str(cx, order) == strs.sval("F")
        if r.ctor == "array":
            cx.assumption("numpy.array(a.tolist(), dtype) equals a, and when a has no empty dimension has its shape too")
            v = c[0][0]
            es = nonempty_segs(cx, V_.iter_segs(cx, v))
            if not (len(es) == 1 and isinstance(es[0], Bulk) and es[0].alts == a.vals.segs[0].alts):
                seq_same(cx, V_.iter_segs(cx, v), a.vsrc, "values-restored")
            else:
                # objects that JSON itself can write
                cx.oblige("values-restored", zand(es[0].src is a.vsrc, isobj(a.d)), lambda: f"{v!r}")
            if cls.endswith("View") and how == "text":
                # for the views on it that the document may hold
                cx.oblige("memory-order-restored", fort == a.fnc, lambda: f"{order!r}")
                o, eff = machine(order_of(a.d)), z3.If(plain(a.d), strs.sval(ext.native_byteorder), machine(order_of(a.d)))
                for s in steps:
                    eff = z3.If(s == strs.sval("|"), eff, machine(s))
                cx.oblige("byte-order-restored", zor(o == strs.sval("|"), eff == o), lambda: f"{r!r}")
            # nested lists say the shape unless there is nothing in them
            cx.oblige("shape-restored", zor(has, z3.Not(a.zero)), lambda: f"{shape!r}")
        else:
            cx.assumption("numpy.ndarray(buffer=a.tobytes('A'), dtype=d, shape=a.shape, order='F' if Fortran-contiguous only else 'C'), d being a.dtype but for byte order, equals a once it has the byte order of a")
            b = c[1].get("buffer", K(None))
            cx.oblige("values-restored", isinstance(b, Raw) and b.t == content(a.x.t), lambda: f"{b!r}")
            cx.oblige("shape-restored", has, lambda: f"{shape!r}")
            cx.oblige("memory-order-restored", fort == a.fnc, lambda: f"{order!r}")
            cx.oblige("result-owns-its-memory", r.copied)
            if steps:
                raise Unsupported("byte order given to the constructor")
            o = order_of(a.d)
            sysorder = strs.sval(ext.native_byteorder)
            if r.dt is None:
                cx.oblige("byte-order-restored", o == strs.sval("|"), lambda: f"{r!r}")
            else:
                ok = isinstance(r.dt, DType) and a_of(r.dt.t, ordered)
                cx.oblige("byte-order-restored", zand(ok, same_dtype(cx, DType(r.dt.t.arg(0)), a.d) if ok else False,
                                                      r.dt.t.arg(1) == z3.If(o == strs.sval("="), sysorder, o) if ok else False), lambda: f"{r.dt!r}")
        if not copied:
            cx.oblige("writeable-as-before", r.flags.off.v == True if cx.prove(a.ro) else zand(z3.Not(a.ro), r.flags.off.v == False), lambda: f"{r.flags.off}")
        agree(cx, w)
    return h


for _h in ("text", "compressed", "uncompressed"):
    harness(f"numpy.view.copied.{_h}", P19)(by_value("NumpyNDArrayHandlerView", _h, True))


for _c in ("NumpyNDArrayHandlerBinary", "NumpyNDArrayHandlerView"):
    for _h in ("text", "compressed", "uncompressed"):
        harness(f"numpy.{_c[19:].lower()}.{_h}", P19)(by_value(_c, _h))


class Memory(V_.Val):
    """The bytes of a restored array, in the order they have in memory."""
    def __init__(self, t): self.t = t
    def __repr__(self): return f"memory of {self.t}"
    def term(self, cx): return z3.Function("memory", V, V)(self.t)


def restored_base(b, order):
    """What the decoded base array says about itself."""
    def h(cx, r, name):
        if not r.t.eq(b.x.t):
            return None
        if name == "dtype":
            return BaseDType(b.d, order)
        if name == "itemsize":
            return SInt(z3.Int("base item size"))
        if name == "data":
            return Memory(r.t)
        if name == "flags":
            return Flags(forc=SBool(b.forc))
        if name == "reshape":
            def m(cx, a, k):
                ok = len(a) == 1 and a[0].conc() == -1 and k.get("order", K("C")).conc() == "A"
                cx.oblige("base-memory-in-its-own-order", ok, lambda: f"reshape({a}, {k})")
                sp = Spec()

                def view(cx, a, k):
                    if len(a) != 1 or k or not (isinstance(a[0], K) and a[0].v is np.uint8):
                        raise Unsupported("view of the base")
                    return Memory(r.t)
                sp.attrs["view"] = ModelFn("view", view)
                return Sym(z3.Const("flat base", V), sp)
            return ModelFn("reshape", m)
        return None
    return h


class BaseDType(DType):
    """Dtype of the decoded base; its byte order is the one of the base if
    that was stored as bytes, else the machine's."""
    def __init__(self, t, order): self.t, self.order = t, order

    def op_getattr(self, cx, name):
        return SStr(self.order) if name == "byteorder" else super().op_getattr(cx, name)


def machine(o):
    """A byte order with the machine's own written out."""
    return z3.If(o == strs.sval("="), strs.sval(ext.native_byteorder), o)


def geometry(cx, a, r, base):
    """Offset, strides and shape as in x; gives the dtype with the changes of
    byte order made to it."""
    get = lambda n, d: r.k.get(n, K(d))
    cx.assumption("an array with the memory, offset, strides, shape and dtype of another is the same view")
    cx.oblige("offset-restored", V_.as_int(cx, get("offset", 0)) == z3.Int("x at") - z3.Int(base + " at"), lambda: f"{r!r}")
    st = get("strides", None)
    cx.oblige("strides-restored", zor(a.c, isinstance(st, JTok) and st.t == z3.Const("x.strides", V)), lambda: f"{st!r}")
    cx.oblige("strides-restored", zor(z3.Not(a.c), isinstance(st, K) and st.v is None), lambda: f"{st!r}")
    sh = get("shape", None)
    cx.oblige("shape-restored", isinstance(sh, Shape) and sh.a is a, lambda: f"{sh!r}")
    t, steps = get("dtype", None), []
    t = t.t if isinstance(t, DType) else None
    while t is not None and a_of(t, ordered):
        steps.insert(0, t.arg(1))
        t = t.arg(0)
    if cx.oblige("dtype-restored", t is not None and same_dtype(cx, DType(t), a.d), lambda: f"{r!r}"):
        return t, steps


@harness("numpy.view.buffer", P19)
def over_buffer(cx):
    """An array over the memory of some other object: over a copy of that
    memory, at the same offset, with the same strides, shape and byte order."""
    w = both(cx)
    numpy_models(cx)
    a = Array(cx)
    order_of_known(cx, a)
    cx.assume(z3.Or(plain(a.d), order_of(a.d) == strs.sval("|")))
    kind = cx.pick("owner", [bytes, bytearray, memoryview, object])
    base = item(cx, "owner", kind)
    base.spec = Spec()
    base.spec.extra["by contract"] = True
    cx.assume(z3.Not(isproxy(base.t)))
    held = [base]

    def hold(cx, *_):
        y = owned(cx, base)
        cx.assume(z3.Not(isproxy(y.t)))
        held.append(y)
        return y
    base.spec.attrs["tobytes"] = ModelFn("tobytes", hold)
    for c in (np.ndarray, bytes, bytearray, memoryview):
        if c is not kind:
            cx.assume(z3.Not(cx.L.sub(typeof(base.t), c)))
    if kind in (bytes, bytearray):
        cx.assume(z3.Not(plain(a.d)))
    a.x.spec.attrs["base"] = base

    def frombuffer(cx, b, k):
        y = buffer_of(cx, base, b)
        y.spec.attrs["tobytes"] = ModelFn("tobytes", hold)
        return y
    cx.hooks["models"][id(np.frombuffer)] = frombuffer
    hd = handler(cx, ext.NumpyNDArrayHandlerView, a, "compressed")
    j = store(cx, w, hd, a.x)
    r = load(cx, w, hd, j)
    if not cx.oblige("an-array-is-made", isinstance(r, Made), lambda: f"{r!r}"):
        return
    if r.ctor != "ndarray" or isinstance(r.k.get("buffer"), Raw):
        raise Unsupported("stored by value")
    t = geometry(cx, a, r, "owner")
    buf = r.k.get("buffer")
    mine = held[-1] if kind not in (bytes, bytearray) else base
    cx.oblige("values-restored", zand(isinstance(buf, (RTok, Sym)), is_image(cx, buf, mine.t) if isinstance(buf, (RTok, Sym)) else False, zor(kind in (bytes, bytearray), len(held) > 1)), lambda: f"{r!r}")
    if t is None:
        return
    t, steps = t
    o, none = machine(order_of(a.d)), strs.sval("|")
    eff = strs.sval(ext.native_byteorder)
    for s in steps:
        eff = z3.If(s == none, eff, machine(s))
        cx.oblige("byte-order-restored", s != strs.sval("S"), lambda: f"{r!r}")
    cx.oblige("byte-order-restored", z3.Or(o == none, eff == o), lambda: f"{r!r}")
    cx.oblige("writeable-as-before", r.flags.off.v == True if cx.prove(a.ro) else zand(z3.Not(a.ro), r.flags.off.v == False), lambda: f"{r.flags.off}")
    agree(cx, w)


@harness("numpy.view.by-reference", P19)
def view(cx):
    """A view of another array in the document: over that array's memory, at
    the same offset, with the same strides, shape and byte order."""
    w = both(cx)
    numpy_models(cx)
    a, b = Array(cx), Array(cx, "base")
    cx.assume(b.forc)
    cx.assume(z3.Not(isproxy(b.x.t)))
    for v in (a, b):
        cx.assume(z3.Or(plain(v.d), order_of(v.d) == strs.sval("|")))
        order_of_known(cx, v)
    b.x.spec.extra["by contract"] = True
    a.x.spec.attrs["base"] = b.x
    # the decoded base has its byte order (numpy.view.text and the other
    # harnesses that store by value)
    rb = z3.Const("byte order of the decoded base", S)
    cx.assume(machine(rb) == machine(order_of(b.d)))
    cx.hooks["rtok_getattr"] = restored_base(b, rb)
    hd = handler(cx, ext.NumpyNDArrayHandlerView, a, "compressed")
    j = store(cx, w, hd, a.x)
    r = load(cx, w, hd, j)
    if not cx.oblige("an-array-is-made", isinstance(r, Made) and r.ctor == "ndarray", lambda: f"{r!r}"):
        return
    t = geometry(cx, a, r, "base")
    cx.oblige("shares-the-memory-of-its-base", isinstance(r.k.get("buffer"), Memory) and r.k["buffer"].t == b.x.t, lambda: f"{r!r}")
    if t is None:
        return
    t, steps = t
    o = machine(order_of(a.d))
    none, swap = strs.sval("|"), strs.sval("S")
    eff = strs.sval(ext.native_byteorder)
    other = lambda s: z3.If(s == strs.sval("<"), strs.sval(">"), strs.sval("<"))
    for s in steps:
        eff = z3.If(s == none, eff, z3.If(s == swap, other(eff), machine(s)))
    cx.oblige("byte-order-restored", z3.Or(o == none, eff == o), lambda: f"{r!r}")
    cx.oblige("writeable-as-before", r.flags.off.v == True if cx.prove(a.ro) else zand(z3.Not(a.ro), r.flags.off.v == False), lambda: f"{r.flags.off}")
    agree(cx, w)


def order_of_known(cx, v):
    cx.assume(z3.Or(*[order_of(v.d) == strs.sval(c) for c in "=<>|"]))


@harness("numpy.view.readable", P19)
def readable(cx):
    """The values written next to a reference are decoration: afterwards the
    encoder's tables are what they were, whatever flattening them did."""
    w = both(cx)
    numpy_models(cx)
    a = Array(cx)
    hd = interp.construct(cx, ext.NumpyNDArrayHandlerView, [], {})
    before = {n: (DictV([Opaque("prior " + n)])) for n in ("_objs", "_flattened")}
    for n, d in before.items():
        if n not in w.P.fields:
            raise Unsupported(f"the state has no field {n} any more")
        w.P.fields[n] = d
    old = {n: d.segs for n, d in before.items()}
    called = []

    def flat(cx, args, k):
        called.append(1)
        for n in before:
            w.P.fields[n].op_setitem(cx, Sym(z3.Const("an id", V)), K(7))
        return args[2]
    cx.contracts["jsonpickle.ext.numpy.NumpyNDArrayHandler.flatten"] = flat
    h = interp.call(cx, hd, [w.P])
    data = DictV()
    interp.call(cx, h.op_getattr(cx, "_flatten_values_for_readability"), [a.x, data])
    if not called:
        raise Unsupported("the values are not flattened this way any more")
    for n in before:
        d = w.P.fields[n]
        cx.oblige("reference-tables-unchanged", isinstance(d, DictV) and len(d.segs) == len(old[n]) and all(p is q for p, q in zip(d.segs, old[n])), lambda: f"{n}: {d!r}")


@harness("numpy.scalar", P19)
def scalar(cx):
    w = both(cx)
    numpy_models(cx)
    x = item(cx, "x", np.float64)
    d = z3.Const("x.dtype", V)
    for t in (d, native(d)):
        cx.assume(z3.Not(strs.prefix(strs.sval("(numpy.record, "), dtext(t))))
    v = item(cx, "value")
    cx.assume(z3.Not(isproxy(v.t)))
    x.spec = Spec()
    x.spec.attrs.update({"dtype": DType(d), "tolist": method("tolist", v)})
    h = interp.construct(cx, ext.NumpyGenericHandler, [w.P], {})
    j = interp.call(cx, h.op_getattr(cx, "flatten"), [x, DictV([One((K(tags.OBJECT), K("numpy.float64")))])])
    h = interp.construct(cx, ext.NumpyGenericHandler, [w.U], {})
    r = interp.call(cx, h.op_getattr(cx, "restore"), [jsoncopy(cx, j)])
    cx.assumption("the only item of numpy.array(s.tolist(), s.dtype) equals the scalar s; its text does where tolist() gives a NumPy scalar")
    if not cx.oblige("a-scalar-is-made", isinstance(r, Scalar), lambda: f"{r!r}"):
        return
    c = (r.arr.a, r.arr.k)
    cx.oblige("dtype-restored", same_dtype(cx, arg(c, 1, "dtype"), d), lambda: f"{r!r}")
    got = c[0][0]
    own = is_image(cx, got, v.t) if not V_.is_strlike(cx, got, True) or isinstance(got, RTok) else False
    txt = V_.as_str(cx, got) == z3.Function("str()", V, S)(x.t) if isinstance(got, SStr) else False
    cx.oblige("value-restored", zor(own, zand(cx.L.sub(typeof(v.t), np.generic), txt)), lambda: f"{got!r}")
    agree(cx, w)


@harness("numpy.dtype", P19)
def dtype(cx):
    w = both(cx)
    numpy_models(cx)
    d = z3.Const("x", V)
    cx.assume(z3.Not(strs.prefix(strs.sval("(numpy.record, "), dtext(d))))
    h = interp.construct(cx, ext.NumpyDTypeHandler, [w.P], {})
    j = interp.call(cx, h.op_getattr(cx, "flatten"), [DType(d), DictV([One((K(tags.OBJECT), K("numpy.dtype")))])])
    h = interp.construct(cx, ext.NumpyDTypeHandler, [w.U], {})
    r = interp.call(cx, h.op_getattr(cx, "restore"), [jsoncopy(cx, j)])
    cx.oblige("dtype-restored", isinstance(r, DType) and r.t == d, lambda: f"{r!r}")


@harness("numpy.registered", {"C19": None, "C15": None})
def registration(cx):
    """Arrays, scalars and dtypes have handlers, the array handler the options
    given, and unregistering names every class that was registered."""
    mode, th, comp = (Sym(z3.Const(n, V)) for n in ("mode", "threshold", "compression"))
    log, gone = [], []

    def reg(cx, a, k):
        b = k["base"].conc() if "base" in k else a[2].conc() if len(a) > 2 else False
        log.append((a[0].conc(), a[1], b))
        return K(None)

    def unreg(cx, a, k):
        gone.append(a[0].conc())
        return K(None)
    cx.globals_over[(ext.__name__, "register")] = ModelFn("register", reg)
    cx.globals_over[(ext.__name__, "unregister")] = ModelFn("unregister", unreg)
    cx.hooks.setdefault("models", {})[id(np.dtype)] = lambda cx, a, k: K(np.dtype(a[0].conc()))
    interp.call_repo(cx, ext.register_handlers, [mode, th, comp], {})
    interp.call_repo(cx, ext.unregister_handlers, [], {})
    for c in (np.ndarray, np.dtype, np.generic, np.datetime64, np.ufunc, *{type(np.dtype(t)) for t in "?bhilqBHILQefdgFDGSUVO"}, type(np.dtype("M8")), type(np.dtype("m8"))):
        cx.oblige("registered", any(issubclass(c, k) and (b or k is c) for k, h, b in log), lambda: f"{c}")
    hs = [h for c, h, b in log if c is np.ndarray]
    ok = len(hs) == 1 and isinstance(hs[0], V_.InstV)
    cx.oblige("array-handler-has-the-options", ok and hs[0].fields.get("mode") is mode and hs[0].fields.get("size_threshold") is th and hs[0].fields.get("compression") is comp, lambda: f"{hs}")
    cx.oblige("unregisters-what-was-registered", set(c for c, _, _ in log) <= set(gone), lambda: f"{log} {gone}")
