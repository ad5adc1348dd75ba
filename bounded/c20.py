from .lib import *
import bz2
import itertools
import warnings
import zlib
import numpy as np
import pandas as pd
import jsonpickle
import jsonpickle.handlers as H
from jsonpickle.ext import pandas as jpd
from jsonpickle.ext import numpy as jnp

COMP = [zlib, bz2, None]


class registered:
    def __enter__(self):
        jpd.register_handlers()
        return self

    def __exit__(self, *a):
        jpd.unregister_handlers()


def trip(x, **kw):
    with registered(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return jsonpickle.decode(jsonpickle.encode(x, **kw), keys=kw.get("keys", False))


def frame_equal(a, b):
    try:
        pd.testing.assert_frame_equal(a, b, check_index_type=False, check_column_type=False, check_freq=False)
    except AssertionError as e:
        raise Bad("frame differs", why=str(e)[:500], original=a, result=b, dtypes=(list(a.dtypes), list(b.dtypes)))


def series_equal(a, b):
    try:
        pd.testing.assert_series_equal(a, b, check_index_type=False, check_freq=False)
    except AssertionError as e:
        raise Bad("series differs", why=str(e)[:500], original=a, result=b)


@suite("C20", 1500)
def rle(r, t):
    n = r.choice([0, 1, 2, 3, 5, 9, 30])
    xs = [r.choice(["a", "b", "c", "aa", ""]) if r.random() < 0.6 else "a" for _ in range(n)]
    if r.random() < 0.1:
        i = r.randint(0, len(xs))
        xs[i:i] = [r.choice("ab")] * r.choice([10, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 5000, 70000])
    t.note(xs)
    e = jpd.rle_encode(list(xs))
    if jpd.rle_decode(e) != xs or jpd.rle_decode([tuple(p) for p in e]) != xs:
        raise Bad("decode(encode(xs)) != xs", encoded=e)
    if any(p[1] < 1 for p in e) or any(p[0] == q[0] for p, q in zip(e, e[1:])):
        raise Bad("not run-length encoded", encoded=e)
    e2 = jsonpickle.decode(jsonpickle.encode(e))
    if jpd.rle_decode(e2) != xs:
        raise Bad("differs after JSON")


@suite("C20", 800)
def codec(r, t):
    th, comp = r.choice([None, 0, 1, 5, 500, 499, 501]), r.choice(COMP)
    n = r.choice([0, 1, 4, 5, 6, 499, 500, 501, 2000])
    buf = "".join(r.choice("ab,é日\U0001f600\n\0\"") for _ in range(n))
    meta = r.choice([None, {}, {"a": 1}])
    t.note((th, comp, n, meta))
    p = jpd.PandasProcessor(th, comp)
    d = p.flatten_pandas(buf, {"py/object": "x"}, meta)
    d2 = jsonpickle.backend.json.decode(jsonpickle.backend.json.encode(d))
    got = p.restore_pandas(d2)
    if got[0] != buf or got[1] != meta:
        raise Bad("payload differs", result=got)


def gcol(r, n):
    k = r.randrange(9)
    if k == 0: return [r.randint(-10**9, 10**9) for _ in range(n)]
    if k == 1: return [r.choice([0.5, -1.25, 1e10, 1 / 3]) for _ in range(n)]
    if k == 2: return [r.random() < 0.5 for _ in range(n)]
    if k == 3: return [r.choice(["a", "é", "", "x,y", "\"q\"", "1"]) for _ in range(n)]
    if k == 4: return np.array([r.randint(0, 100) for _ in range(n)], r.choice(["i1", "u1", "i2", "u2", "i4", "u4", "u8", "f4"]))
    if k == 5: return pd.to_datetime([f"20{r.randint(10, 30)}-0{r.randint(1, 9)}-1{r.randint(0, 9)} 01:02:0{r.randint(0, 9)}" for _ in range(n)])
    if k == 6: return pd.to_timedelta([r.randint(0, 10**6) for _ in range(n)], unit="s")
    if k == 7: return pd.Series([r.choice([[1], {"a": 2}, (1, 2), "s", 3]) if i else [1] for i in range(n)], dtype=object)
    return [complex(r.randint(0, 5), r.randint(0, 5)) for _ in range(n)]


def gindex(r, n):
    k = r.randrange(6)
    if k < 2: return None
    if k == 2: return [f"r{i}" for i in range(n)]
    if k == 3: return pd.Index([i // 2 * 3 if n % 2 else i * 3 for i in range(n)], name=gname(r))
    if k == 4 and n: return pd.MultiIndex.from_tuples([(f"a{i // 2}", i if n % 2 else i // 2) for i in range(n)], names=["x", gname(r)])
    if r.random() < 0.4: return pd.date_range("2021-03-04", periods=n, freq="D", name=gname(r))
    return pd.Index([i + 0.5 for i in range(n)])


def gname(r):
    return r.choice([None, "idx", "name", 3, 2.5, 0, "", False, ("a", 1), ("a", ("b", None))])


@suite("C20", 500)
def frames(r, t):
    n, m = r.choice([1, 2, 5, 40]), r.choice([1, 2, 3, 6])
    cols = {f"c{i}" if r.random() < 0.9 else f"é {i}": gcol(r, n) for i in range(m)}
    df = pd.DataFrame({k: list(v) if isinstance(v, pd.Series) and False else v for k, v in cols.items()})
    ix = gindex(r, n)
    if ix is not None:
        df.index = ix
    k = r.random()
    if k < 0.2:
        df.columns.name = gname(r)
    elif k < 0.3:
        df.columns = pd.MultiIndex.from_tuples([(f"t{i // 2}", i) for i in range(len(df.columns))], names=["p", gname(r)])
    elif k < 0.4:
        df.columns = [i * 2 for i in range(len(df.columns))]
    t.note(df)
    kw = r.choice([{}, {"keys": True}, {"make_refs": False}])
    x = trip([df, [1]], **kw)
    frame_equal(df, x[0])
    if list(df.index.names) != list(x[0].index.names) or list(df.columns.names) != list(x[0].columns.names):
        raise Bad("names differ")
    if x[1] != [1]:
        raise Bad("neighbour differs")


@suite("C20", 400)
def series(r, t):
    n = r.choice([1, 2, 5, 17, 40])
    v = gcol(r, n)
    if isinstance(v, pd.Series):
        v = [1.5] * n
    k = r.randrange(3)
    name = np.int64(5) if r.random() < 0.1 else gname(r)
    s = pd.Series(v, name=name)
    if k:
        s.index = pd.Index([f"r{i}" for i in range(n)] if k == 1 else [i * 2 for i in range(n)], name=gname(r))
    t.note(s)
    L = [1]
    x = trip([L, s, L])
    series_equal(s, x[1])
    if x[1].name != name or type(x[1].name) is not type(name):
        raise Bad("name differs", original=name, result=x[1].name)
    if x[2] is not x[0]:
        raise Bad("neighbour differs")


def gix(r):
    n = r.choice([1, 2, 5, 30, 200])
    k = r.randrange(8)
    nm = r.choice([None, None, "n", "name", 7, 0, "", ("a", "b")])
    if k == 0: return pd.Index([f"k{i}é" for i in range(n)], name=nm)
    if k == 1: return pd.Index(list(range(n)), name=nm)
    if k == 2: return pd.Index([i / 4 for i in range(n)], name=nm)
    if k == 3: return pd.period_range("2020-01", periods=n, freq=r.choice(["M", "D", "h", "Y", "Q"]), name=nm)
    if k == 4: return pd.MultiIndex.from_tuples([(f"a{i}", i) for i in range(n)], names=r.choice([["x", "y"], [None, None], ["x", None]]))
    if k == 5: return pd.Index([True, False] * n)
    if k == 6: return pd.date_range("2020-01-01", periods=n, freq="D", name=nm)
    return pd.RangeIndex(n, name=nm)


@suite("C20", 400)
def indexes(r, t):
    ix = gix(r)
    t.note(ix)
    y = trip([ix, [1]])
    if y[1] != [1]:
        raise Bad("neighbour differs")
    try:
        pd.testing.assert_index_equal(ix, y[0], exact=False, check_names=True)
    except AssertionError as e:
        raise Bad("index differs", why=str(e)[:500], original=ix, result=y[0])
    if ix.dtype != y[0].dtype:
        raise Bad("dtype differs", original=ix.dtype, result=y[0].dtype)


@suite("C20", 400)
def scalars(r, t):
    k = r.randrange(4)
    if k == 0: x = pd.Timestamp(2000 + r.randrange(50), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6), nanosecond=r.choice([0, 0, 7]), tz=r.choice([None, "UTC"]))
    elif k == 1: x = pd.Period(f"20{r.randint(10, 30)}-0{r.randint(1, 9)}-15", freq=r.choice(["M", "D", "h", "Y", "Q", "W-SUN", "min", "s"]))
    elif k == 2:
        a = r.randint(-5, 5)
        x = pd.Interval(a, a + r.randint(1, 9), closed=r.choice(["left", "right", "both", "neither"]))
    else:
        a = pd.Timestamp(2020, 1, r.randint(1, 9))
        x = pd.Interval(a, a + pd.Timedelta(days=2), closed=r.choice(["left", "right", "both", "neither"]))
    t.note(x)
    y = trip([x, [1], {"k": x}])
    if type(y[0]) is not type(x) or y[0] != x or y[2]["k"] != x or y[1] != [1]:
        raise Bad("value differs", original=x, result=y)
    if k == 1 and y[0].freqstr != x.freqstr:
        raise Bad("frequency differs", original=x, result=y)
    if k >= 2 and y[0].closed != x.closed:
        raise Bad("closed side differs", original=x, result=y)


@fixed("C20")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @case("run length encoding of every short list")
    def _():
        for n in range(8):
            for xs in itertools.product("abc", repeat=n):
                xs = list(xs)
                if jpd.rle_decode(jpd.rle_encode(xs)) != xs:
                    raise Bad("decode(encode(xs)) != xs", input=xs)

    @case("codec around the threshold")
    def _():
        for th in (None, 0, 1, 10):
            for comp in COMP:
                for n in (0, 1, 2, 9, 10, 11, 12):
                    for ch in ("a", "é", "\U0001f600"):
                        p = jpd.PandasProcessor(th, comp)
                        d = p.flatten_pandas(ch * n, {}, {"m": 1})
                        if d["txt"] != (th is None or n <= th):
                            raise Bad("threshold not respected", threshold=th, length=n, result=d)
                        if p.restore_pandas(d) != (ch * n, {"m": 1}):
                            raise Bad("payload differs", threshold=th, length=n)

    @case("multi-index columns and mixed types")
    def _():
        df = pd.DataFrame([[1, 2.5], [3, 4.5]], columns=pd.MultiIndex.from_tuples([("a", "x"), ("a", "y")], names=["p", "q"]))
        frame_equal(df, trip(df))
        df = pd.DataFrame({1: [1, 2], 2: [3.5, 4]})
        frame_equal(df, trip(df))

    @case("wide frames with alternating column types")
    def _():
        df = pd.DataFrame({f"c{i}": [1, 2] if i % 3 == 0 else ["a", "b"] if i % 3 == 1 else [True, False] for i in range(60)})
        frame_equal(df, trip(df))
        frame_equal(df, trip({"k": [df]})["k"][0])

    @case("large frame over the payload threshold")
    def _():
        df = pd.DataFrame({"a": range(1000), "b": ["é" * 5] * 1000})
        frame_equal(df, trip(df))

    @case("sharing and neighbours")
    def _():
        df = pd.DataFrame({"a": [1]})
        p = [1]
        y = trip([df, p, df, p, pd.Series([1, 2]), p, pd.Index(["a"]), p, pd.Timestamp(0), p])
        if y[0] is not y[2] or any(y[i] is not y[1] for i in (3, 5, 7, 9)) or y[1] != [1]:
            raise Bad("references differ", result=y)

    @case("every dtype of a frame")
    def _():
        for dt in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "object", "datetime64[ns]", "timedelta64[ns]", "complex128", "float16", "complex64", "str"):
            v = ["a", "b"] if dt in ("object", "str") else [1, 0]
            df = pd.DataFrame({"a": pd.Series(v).astype(dt), "z": [1.5, 2.5]})
            frame_equal(df, trip(df))

    @case("unregister removes every handler")
    def _():
        before = set(H.registry._handlers), set(H.registry._base_handlers)
        jpd.register_handlers()
        jpd.unregister_handlers()
        if (set(H.registry._handlers), set(H.registry._base_handlers)) != before:
            raise Bad("handlers left behind")
    return out
