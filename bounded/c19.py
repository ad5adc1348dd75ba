from .lib import *
import array
import bz2
import ctypes
import json
import warnings
import zlib
import numpy as np
import jsonpickle
import jsonpickle.handlers as H
from jsonpickle.ext import numpy as jnp

SUBARRAY = False
COMP = [zlib, bz2, None]
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
FLOATS = ["f2", "f4", "f8"]


class registered:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        jnp.register_handlers(**self.kw)
        return self

    def __exit__(self, *a):
        jnp.unregister_handlers()


def trip(x, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return jsonpickle.decode(jsonpickle.encode(x, **kw), keys=kw.get("keys", False))


def gdtype(r, structured=True, obj=False):
    k = r.randrange(14)
    if k < 3: return np.dtype(r.choice(INTS))
    if k < 5: return np.dtype(r.choice(FLOATS))
    if k == 5: return np.dtype(r.choice(["c8", "c16"]))
    if k == 6: return np.dtype("?")
    if k == 7: return np.dtype(f"U{r.randint(1, 5)}")
    if k == 8: return np.dtype(f"S{r.randint(1, 5)}")
    if k == 9: return np.dtype(r.choice(["M8[s]", "M8[ms]", "M8[us]", "M8[D]", "M8[h]", "M8[m]"]))
    if k == 10: return np.dtype(r.choice(["m8[s]", "m8[ms]", "m8[us]", "m8[D]", "m8[h]"]))
    if k == 11 and structured:
        return np.dtype([(f"f{i}", gdtype(r, False)) for i in range(r.randint(1, 3))])
    if k == 12 and structured and SUBARRAY:
        return np.dtype([("a", r.choice(INTS)), ("b", r.choice(FLOATS), (2,))])
    return np.dtype(r.choice(["i8", "f8"]))


def gscalar(r, dt):
    if dt.names is not None or dt.subdtype is not None:
        if dt.subdtype is not None:
            base, shape = dt.subdtype
            return [gscalar(r, base) for _ in range(shape[0])]
        return tuple(gscalar(r, dt[n]) for n in dt.names)
    k = dt.kind
    if k in "iu":
        ii = np.iinfo(dt)
        return r.choice([ii.min, ii.max, 0, 1, r.randint(int(ii.min), int(ii.max))])
    if k == "f": return dt.type(r.choice([0.0, -0.0, 1.5, -2.25, r.uniform(-100, 100), float(np.finfo(dt).max), float(np.finfo(dt).tiny)]))
    if k == "c": return complex(r.choice([0, 1.5, -2]), r.choice([0, 2.5, -1]))
    if k == "b": return r.random() < 0.5
    if k == "U": return "".join(r.choice("abé日z\U0001f600") for _ in range(r.randint(0, dt.itemsize // 4)))
    if k == "S": return bytes(r.choice(b"abz\x80\xff") for _ in range(r.randint(0, dt.itemsize)))
    if k == "M": return np.datetime64(r.choice([0, 1, 1000000, 86400 * 365, -86400]), np.datetime_data(dt)[0])
    if k == "m": return np.timedelta64(r.choice([0, 1, -1, 12345]), np.datetime_data(dt)[0])
    raise AssertionError(dt)


def gshape(r):
    return r.choice([(0,), (1,), (2,), (3,), (16,), (17,), (40,), (2, 3), (4, 5), (5, 4), (2, 0), (0, 3), (1, 1), (3, 2, 2), (3, 3, 3), (2, 1, 9), (6, 7)])


def garray(r, dt=None, shape=None):
    dt = dt or gdtype(r)
    shape = gshape(r) if shape is None else shape
    a = np.zeros(shape, dt)
    for i in np.ndindex(*shape):
        a[i] = gscalar(r, dt)
    return a


def layout(r, a):
    k = r.randrange(9)
    if k == 0: return np.asfortranarray(a).copy(order="F")
    if k == 1: return a.T
    if k == 2 and a.ndim: return a[::2]
    if k == 3 and a.ndim: return a[::-1]
    if k == 4 and a.ndim: return a[1:]
    if k == 5 and a.ndim > 1: return a[:, 1:]
    if k == 6 and a.ndim > 1: return a[:, ::2]
    if k == 7: return np.expand_dims(a, 0)
    return a


def arrays_equal(a, b, what="array", order=False):
    if type(a) is not type(b):
        raise Bad(f"{what}: type {type(a).__name__} became {type(b).__name__}", original=a, result=b)
    if a.dtype != b.dtype:
        raise Bad(f"{what}: dtype {a.dtype} became {b.dtype}", original=a, result=b)
    if a.shape != b.shape:
        raise Bad(f"{what}: shape {a.shape} became {b.shape}", original=a, result=b)
    if a.dtype == object:
        if a.tolist() != b.tolist():
            raise Bad(f"{what}: values differ", original=a, result=b)
    elif np.ascontiguousarray(a).tobytes() != np.ascontiguousarray(b).tobytes():
        raise Bad(f"{what}: values differ", original=a, result=b)
    if a.flags.writeable != b.flags.writeable:
        raise Bad(f"{what}: writeable flag differs", original=a, result=b)


def gconfig(r):
    return dict(ndarray_size_threshold=r.choice([16, 16, 0, 1, 1000, None]), ndarray_compression=r.choice(COMP), ndarray_mode="ignore")


@suite("C19", 2500)
def arrays(r, t):
    cfg = gconfig(r)
    a = layout(r, garray(r))
    if r.random() < 0.2 and a.base is None:
        a.flags.writeable = False
    t.note((cfg, a.dtype, a.shape, a.strides, a))
    kw = r.choice([{}, {}, {"keys": True}, {"make_refs": False}, {"use_base85": True}])
    with registered(**cfg):
        y = trip([a, [7]], **kw) if r.random() < 0.5 else [trip(a, **kw), [7]]
    arrays_equal(a, y[0])
    if y[1] != [7]:
        raise Bad("neighbour differs")


@suite("C19", 600)
def byteorders(r, t):
    cfg = gconfig(r)
    a = garray(r, np.dtype(r.choice(["i2", "u4", "i8", "f4", "f8", "c8", "U3", "M8[s]"])).newbyteorder(r.choice(["<", ">"])))
    a = r.choice([a, np.asfortranarray(a).copy(order="F"), a[::2], a.T])
    t.note((cfg, a.dtype, a.shape, a))
    with registered(**cfg):
        b = trip(a)
    if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
        raise Bad(f"dtype {a.dtype} became {b.dtype}")
    if a.shape != b.shape or a.tolist() != b.tolist():
        raise Bad("values differ", original=a, result=b)
    th = cfg["ndarray_size_threshold"]
    if a.base is None and a.flags.forc and th is not None and a.size > th and a.dtype != b.dtype:
        raise Bad(f"byte order of {a.dtype} became {b.dtype}")


@suite("C19", 500)
def other_handlers(r, t):
    h = r.choice([jnp.NumpyNDArrayHandler, jnp.NumpyNDArrayHandlerBinary(), jnp.NumpyNDArrayHandlerBinary(size_threshold=r.choice([0, 4, 16, None]), compression=r.choice(COMP))])
    a = layout(r, garray(r))
    t.note((h, a.dtype, a.shape, a))
    with registered():
        H.register(np.ndarray, h, base=True)
        b = trip([a])[0]
    arrays_equal(a, b)


@suite("C19", 500)
def scalars(r, t):
    dt = gdtype(r)
    v = garray(r, dt, (1,))[0]
    t.note((dt, v))
    with registered():
        w = trip(r.choice([[v], (v,), {"a": v}]))
        w = list(w.values())[0] if isinstance(w, dict) else w[0]
    if type(v) is not type(w) or v.dtype != w.dtype or v.tobytes() != w.tobytes():
        raise Bad("scalar differs", original=v, result=w, dtypes=(v.dtype, w.dtype))


@suite("C19", 400)
def dtypes(r, t):
    dt = gdtype(r) if r.random() < 0.8 else np.dtype([("x", gdtype(r)), ("y", gdtype(r, False), (r.randint(1, 3),))]) if r.random() < 0.5 else np.dtype({"names": ["a", "b"], "formats": [gdtype(r, False), gdtype(r, False)]}, align=r.random() < 0.5)
    if r.random() < 0.2:
        dt = dt.newbyteorder(">")
    t.note(dt)
    with registered():
        w = trip([dt, [1], dt])
    if w[0] != dt or w[2] != dt or type(w[0]) is not type(dt) or w[1] != [1]:
        raise Bad("dtype differs", original=dt, result=w)


@suite("C19", 400)
def objects(r, t):
    cfg = gconfig(r)
    n = r.choice([0, 1, 3, 16, 17, 40])
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = r.choice(["a", "é", 1, 2.5, None, True, "x" * 20, 10**20])
    if n == 40 and r.random() < 0.5:
        a = a.reshape(8, 5).copy()
    t.note((cfg, a))
    with registered(**cfg):
        b = trip([a])[0]
    arrays_equal(a, b)


def same_memory(a, b):
    return np.shares_memory(a, b)


def recast(a):
    """The same memory read as something else."""
    if a.dtype.names:
        return [a[n] for n in a.dtype.names]
    out = [] if a.dtype.kind == "U" else [a.view(a.dtype.newbyteorder("S"))]
    if not a.flags.c_contiguous or a.dtype.kind == "O":
        return out
    for c in ("u1", "<i2", ">i2", "S1", ">u4", [("x", "u1")], [("p", "<u2"), ("q", ">u2")]):
        n = np.dtype(c).itemsize
        if a.itemsize % n == 0 or n > a.itemsize and a.shape[-1] * a.itemsize % n == 0:
            out.append(a.view(c))
    if a.dtype.kind == "c":
        out += [a.real, a.imag]
    return out


@suite("C19", 1200)
def views(r, t):
    cfg = gconfig(r)
    base = garray(r, gdtype(r), r.choice([(4,), (17,), (20,), (4, 5), (3, 3, 3), (2, 9)]))
    if r.random() < 0.3:
        base = np.asfortranarray(base).copy(order="F")
    if r.random() < 0.15:
        base.flags.writeable = False
    if r.random() < 0.3 and base.dtype.kind in "iufcUM":
        base = base.astype(base.dtype.newbyteorder(">"), order="K")
    vs = []
    for _ in range(r.randint(1, 3)):
        v = r.choice([base[1:], base[::2], base[::-1], base.T, base[..., :1], base[1:2], base[:], base[1:][::2], base[..., -1:], base[2:].T, *recast(base)])
        if r.random() < 0.2:
            v.flags.writeable = False
        if v.base is base:
            vs.append(v)
    if not vs:
        vs = [base[1:]]
    first = r.random() < 0.5
    probe = [1]
    x = ([base] + vs if first else vs + [base]) + [probe, {"k": probe}, base, vs[0]]
    t.note((cfg, base.dtype, base.shape, [(v.shape, v.strides) for v in vs], "base first" if first else "base last"))
    with registered(**cfg):
        y = trip(x)
    n = len(vs)
    nb = y[0] if first else y[n]
    nv = y[1:n + 1] if first else y[:n]
    arrays_equal(base, nb, "base")
    for v, w in zip(vs, nv):
        arrays_equal(v, w, "view")
        if same_memory(v, base) and not same_memory(w, nb):
            raise Bad("view no longer shares memory with its array")
        if w.strides != v.strides and v.size > 1 and not (v.flags.c_contiguous and w.flags.c_contiguous):
            raise Bad("strides differ", original=v.strides, result=w.strides)
    for i, v in enumerate(vs):
        for j, v2 in enumerate(vs):
            if same_memory(v, v2) != same_memory(nv[i], nv[j]):
                raise Bad("memory shared between views differs")
    if y[n + 1] != [1] or y[n + 2]["k"] is not y[n + 1]:
        raise Bad("references after arrays are wrong", result=y[n + 1:n + 3])
    if y[n + 3] is not nb or y[n + 4] is not nv[0]:
        raise Bad("repeated arrays are not the same object")
    if nb.flags.writeable and nb.size and nb.dtype.kind in "iuf":
        nb[...] = 0
        for w in nv:
            if any(w.tobytes()):
                raise Bad("writing to the array does not reach its view")


def over_buffer(r):
    """An array on memory that some other object owns."""
    dt = r.choice([np.dtype(r.choice(INTS + FLOATS + ["c8", "?", "S2", "U1"])), np.dtype(r.choice(INTS + FLOATS)).newbyteorder(">"),
                   np.dtype([("a", "i2"), ("b", "f8")]), np.dtype([("a", ">u4"), ("b", "S3"), ("c", "?")])])
    n = r.choice([1, 2, 4, 16, 17, 30])
    own = garray(r, dt, (n,)).tobytes()
    pad = r.choice([0, 0, 3, 8])
    raw = bytes(pad) + own
    k = r.choice(["bytes", "bytearray", "memoryview", "slice", "array", "ctypes"])
    buf = {"bytes": lambda: raw, "bytearray": lambda: bytearray(raw), "memoryview": lambda: memoryview(raw), "slice": lambda: memoryview(b"12345" + bytearray(raw))[5:],
           "array": lambda: array.array("B", raw), "ctypes": lambda: (ctypes.c_ubyte * len(raw)).from_buffer_copy(raw)}[k]()
    a = np.ndarray((n,), dt, buf, pad) if r.random() < 0.5 else np.frombuffer(buf, dt, n, pad)
    if n % 2 == 0 and r.random() < 0.3:
        a = r.choice([np.ndarray((2, n // 2), dt, buf, pad, order="F"), np.ndarray((n // 2, 2), dt, buf, pad), np.ndarray((n // 2,), dt, buf, pad, strides=(2 * dt.itemsize,))])
    return k, pad, a


@suite("C19", 900)
def buffers(r, t):
    cfg = gconfig(r)
    k, pad, a = over_buffer(r)
    if r.random() < 0.2:
        a.flags.writeable = False
    probe = [1]
    x = [a, probe, r.choice([a, a[1:], a[::2]]), probe, {"p": probe}]
    t.note((cfg, k, pad, a.dtype, a.shape, a.strides, x[2].shape, a.flags.writeable))
    with registered(**cfg):
        y = trip(x, **r.choice([{}, {}, {"keys": True}, {"use_base85": True}]))
    for i in (0, 2):
        if x[i].dtype.newbyteorder("=") != y[i].dtype.newbyteorder("=") or x[i].shape != y[i].shape or x[i].tolist() != y[i].tolist():
            raise Bad("array over a buffer differs", original=x[i], result=y[i])
        if x[i].dtype.fields is not None:
            arrays_equal(x[i].copy(), y[i].copy())
    if y[1] != [1] or y[3] is not y[1] or y[4]["p"] is not y[1]:
        raise Bad("references after arrays are wrong", result=y[1:])
    if x[2] is a and y[2] is not y[0]:
        raise Bad("the same array twice became two")
    if x[2].base is a and a.flags.forc and same_memory(x[2], a) and not same_memory(y[2], y[0]):
        raise Bad("view no longer shares memory with its array")


@fixed("C19")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    for n in ("sin", "add", "multiply.reduce" if False else "exp", "logical_and"):
        @case(f"ufunc {n}")
        def _(n=n):
            with registered():
                if trip([getattr(np, n)])[0] is not getattr(np, n):
                    raise Bad("ufunc differs")

    for shape in [(0,), (0, 3), (3, 0), (2, 0, 4), (1, 0)]:
        for th in (16, 0, None):
            @case(f"empty {shape} threshold {th}")
            def _(shape=shape, th=th):
                for dt in ("f8", "i4", "U3", "?", "M8[s]", "c16"):
                    with registered(ndarray_size_threshold=th):
                        a = np.zeros(shape, dt)
                        arrays_equal(a, trip([a])[0])

    for size in (15, 16, 17):
        for comp in COMP:
            @case(f"threshold boundary {size} {comp and comp.__name__}")
            def _(size=size, comp=comp):
                with registered(ndarray_compression=comp):
                    for dt in ("f8", "i1", "u8", "c16", "U4", "S3"):
                        a = np.arange(size).astype(dt)
                        s = jsonpickle.encode(a)
                        if isinstance(json.loads(s)["values"], str) != (size > 16):
                            raise Bad("threshold is not respected", document=s)
                        arrays_equal(a, jsonpickle.decode(s))
                        b = np.asfortranarray(np.arange(size * 2).reshape(2, size).astype(dt)).copy(order="F")
                        arrays_equal(b, trip(b))

    @case("structured above and below the threshold, F order, read only")
    def _():
        dt = np.dtype([("a", "i4"), ("b", "f8"), ("c", "U3")])
        for n in (1, 16, 17, 30):
            for comp in COMP:
                a = np.zeros(n, dt)
                a["a"] = range(n)
                a["c"] = "xy"
                for ro in (False, True):
                    a.flags.writeable = not ro
                    with registered(ndarray_compression=comp):
                        arrays_equal(a, trip({"k": a})["k"])
                a.flags.writeable = True

    @case("extreme numbers")
    def _():
        with registered():
            for th in (16, 0):
                jnp.register_handlers(ndarray_size_threshold=th)
                for a in (np.array([0.1, 1 / 3, 1e308, 5e-324, -0.0]), np.array([0.1, 3.4e38, 1e-45], "f4"), np.array([2**63 - 1, -2**63]), np.array([2**64 - 1], "u8"), np.array([65504, 6e-8], "f2"), np.array(["", "a\0b", "é"]),
                          np.array([b"", b"\xff\xfe"]), np.array([True, False]), np.array(["NaT", "2020-01-01T00:00:01"], "M8[s]"), np.array([np.inf, -np.inf]), np.array([1 + 2j, 3 - 0j], "c8")):
                    arrays_equal(a, trip([a])[0])

    @case("handler modes for unknown bases")
    def _():
        a = np.frombuffer(bytes(range(40)), dtype="u1")
        for mode in ("warn", "ignore"):
            with registered(ndarray_mode=mode):
                b = trip([a])[0]
                if b.tolist() != a.tolist() or b.dtype != a.dtype:
                    raise Bad("values differ")
        with registered(ndarray_mode="raise"):
            try:
                trip([a])
            except ValueError:
                pass
            else:
                raise Bad("no error in raise mode")
        with registered(ndarray_mode="warn"), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            jsonpickle.encode([a])
            if not w:
                raise Bad("no warning in warn mode")

    @case("views of views and references")
    def _():
        for n in (6, 60):
            a = np.arange(n)
            c = a[2:][1:]
            x = [a, c, [1], a[::2]]
            x.append(x[2])
            with registered():
                y = trip(x)
            arrays_equal(c, y[1])
            if not same_memory(y[0], y[1]) or y[4] is not y[2] or y[2] != [1] or not same_memory(y[0], y[3]):
                raise Bad("sharing or references differ")

    @case("unregister removes every handler")
    def _():
        before = set(H.registry._handlers), set(H.registry._base_handlers)
        jnp.register_handlers()
        jnp.unregister_handlers()
        if (set(H.registry._handlers), set(H.registry._base_handlers)) != before:
            raise Bad("handlers left behind")
        for v in (np.zeros(2), np.dtype("f8"), np.float64(1), np.datetime64(1, "s"), np.sin):
            if H.registry.get(type(v)) is not None:
                raise Bad("handler left behind", type=type(v))
    return out
