"""Bounded cross-checks on the real code.

A suite is a list of cases.  A case gets its own random generator (derived
from VERIF_SEED, the suite name and the case number), runs the real library
and raises Bad when the property does not hold for the input it made.  These
runs validate the contracts that the deductive part trusts, give a failing
input when an obligation is refuted, and stand in (labelled bounded) where an
obligation could not be generated.
"""
import collections
import datetime
import decimal
import enum
import fractions
import math
import random
import signal
import sys
import traceback
import types

SUITES = {}      # property -> list of (name, fn, quick count, thorough count)


class Bad(Exception):
    """The property does not hold; args[0] says how."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = {k: short(v) for k, v in detail.items()}


class Stuck(BaseException):
    """A case did not finish."""


def short(v, n=1500):
    try:
        s = v if isinstance(v, str) else repr(v)
    except BaseException as e:
        s = f"<repr failed: {e!r}>"
    return s if len(s) <= n else s[:n] + f"... ({len(s)} chars)"


def suite(prop, quick=300, thorough=None):
    def deco(fn):
        SUITES.setdefault(prop, []).append((fn.__name__, fn, quick, thorough or quick * 8))
        return fn
    return deco


def fixed(prop):
    """A suite whose cases are the items of a list: fn() returns a list of
    (name, thunk)."""
    def deco(fn):
        cache = []

        def items():
            if not cache:
                cache.extend(fn())
            return cache

        def case(rng, t, i):
            name, thunk = items()[i]
            t.note(name)
            thunk()
        case.count = lambda: len(items())
        SUITES.setdefault(prop, []).append((fn.__name__, case, None, None))
        return fn
    return deco


class T:
    """Per-suite recorder."""

    def __init__(self):
        self.label = ""
        self.seen = set()
        self.samples = []
        self.case_input = None

    def note(self, what):
        """Record the input of the current case (first call wins)."""
        s = short(what, 400)
        if self.case_input is None:
            self.case_input = s
        return what

    def done(self):
        if self.case_input is not None:
            self.seen.add(hash(self.case_input))
            if len(self.samples) < 3 and len(self.case_input) > 8:
                self.samples.append(self.case_input)
        self.case_input = None


CASE_LIMIT = 25


def _alarm(sig, frame):
    raise Stuck()


def run_case(prop, name, i, seed):
    """Run one case; returns None or a failure dict."""
    for n, fn, q, th in SUITES[prop]:
        if n == name:
            break
    else:
        raise KeyError(name)
    t = T()
    rng = random.Random(f"{seed}:{prop}:{name}:{i}")
    return _one(fn, rng, t, i, prop, name, seed)


def _one(fn, rng, t, i, prop, name, seed):
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    fail = None
    try:
        if hasattr(fn, "count"):
            fn(rng, t, i)
        else:
            fn(rng, t)
    except Bad as e:
        fail = {"what": str(e), "detail": e.detail}
    except Stuck:
        fail = {"what": f"did not finish within {CASE_LIMIT} s", "detail": {}}
    except MemoryError:
        fail = {"what": "ran out of memory", "detail": {}}
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        fail = {"what": f"unexpected {type(e).__name__}: {short(str(e), 300)}", "detail": {"traceback": tb}}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if fail is not None:
        fail.update(property=prop, suite=name, case=i, seed=seed, input=t.case_input)
    t.done()
    return fail


def run_suites(prop, seed, tier, scale=1.0, only=None, deadline=None, out=None):
    """Run all suites of a property.  Returns a result dict."""
    import time
    signal.signal(signal.SIGALRM, _alarm)
    total = 0
    seen = set()
    samples = []
    fails = []
    per = {}
    for name, fn, q, th in SUITES.get(prop, []):
        if only and name not in only:
            continue
        n = fn.count() if hasattr(fn, "count") else int((th if tier == "thorough" else q) * scale)
        t = T()
        ran = 0
        for i in range(n):
            if deadline and time.time() > deadline:
                break
            rng = random.Random(f"{seed}:{prop}:{name}:{i}")
            f = _one(fn, rng, t, i, prop, name, seed)
            ran += 1
            if f is not None:
                fails.append(f)
                if len(fails) >= 5:
                    break
        total += ran
        per[name] = ran
        seen |= {(name, h) for h in t.seen}
        samples += [f"{name}: {s}" for s in t.samples[:2]]
        if len(fails) >= 5:
            break
    return {"evaluations": total, "distinct": len(seen), "samples": samples[:8], "fails": fails, "per": per}


# ------------------------------------------------------------------ comparing
ATOM = (type(None), bool, int, str, bytes, complex, decimal.Decimal, fractions.Fraction,
        datetime.date, datetime.time, datetime.timedelta, types.FunctionType,
        types.BuiltinFunctionType, types.ModuleType, type, range)


def same(a, b, ids=True, path="$", order=True):
    """Raise Bad unless b is an isomorphic copy of a: same types, values,
    attributes and (ids) the same sharing between mutable objects."""
    fwd, back, keep = {}, {}, []
    stack = [(a, b, path)]
    while stack:
        a, b, path = stack.pop()
        if type(a) is not type(b):
            raise Bad(f"type differs at {path}: {type(a).__name__} became {type(b).__name__}", original=a, result=b)
        if isinstance(a, float):
            if not (a == b and math.copysign(1, a) == math.copysign(1, b)) and not (a != a and b != b):
                raise Bad(f"value differs at {path}", original=a, result=b)
            continue
        if isinstance(a, ATOM) and not (isinstance(a, type) and False):
            if isinstance(a, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
                if a is not b:
                    raise Bad(f"not the same object at {path}", original=a, result=b)
            elif a != b or (type(a) in (datetime.datetime, datetime.time) and
                            (a.fold != b.fold or a.tzinfo != b.tzinfo)):
                raise Bad(f"value differs at {path}", original=a, result=b)
            continue
        if isinstance(a, bytearray):
            if a != b:
                raise Bad(f"value differs at {path}", original=a, result=b)
            continue
        if isinstance(a, enum.Enum):
            if a is not b:
                raise Bad(f"enum member differs at {path}", original=a, result=b)
            continue
        mutable = not isinstance(a, (tuple, set, frozenset)) or type(a) not in (tuple, set, frozenset)
        if id(a) in fwd:
            if mutable:
                if ids and fwd[id(a)] is not b:
                    raise Bad(f"sharing lost at {path}", original=a, result=b)
                if fwd[id(a)] is b:
                    continue
                if not ids:
                    if (id(a), id(b)) in back:
                        continue
            elif (id(a), id(b)) in back:
                continue
        elif ids and mutable and id(b) in back:
            raise Bad(f"objects merged at {path}", original=a, result=b)
        fwd.setdefault(id(a), b)
        back[id(b)] = a
        back[id(a), id(b)] = True
        keep.append((a, b))
        if isinstance(a, dict):
            if len(a) != len(b):
                raise Bad(f"dict size differs at {path}: {len(a)} vs {len(b)}", original=a, result=b)
            if order and isinstance(a, collections.OrderedDict):
                if [plain_key(k) for k in a] != [plain_key(k) for k in b]:
                    raise Bad(f"order differs at {path}", original=a, result=b)
            pairs = match_keys(list(dict.items(a)), list(dict.items(b)), path)
            for (k, v), (k2, v2) in pairs:
                stack.append((v, v2, f"{path}[{short(k, 30)}]"))
                stack.append((k, k2, f"{path}.key({short(k, 30)})"))
        elif isinstance(a, (list, tuple, collections.deque)):
            if len(a) != len(b):
                raise Bad(f"length differs at {path}: {len(a)} vs {len(b)}", original=a, result=b)
            it = list.__iter__ if isinstance(a, list) else iter
            for i, (x, y) in enumerate(zip(it(a), it(b))):
                stack.append((x, y, f"{path}[{i}]"))
            if isinstance(a, collections.deque) and a.maxlen != b.maxlen:
                raise Bad(f"maxlen differs at {path}", original=a, result=b)
        elif isinstance(a, (set, frozenset)):
            if len(a) != len(b):
                raise Bad(f"set size differs at {path}: {len(a)} vs {len(b)}", original=a, result=b)
            for (x, _), (y, _) in match_keys([(x, 0) for x in a], [(y, 0) for y in b], path):
                stack.append((x, y, f"{path}.member({short(x, 30)})"))
        elif isinstance(a, collections.Counter):
            pass
        if isinstance(a, collections.defaultdict):
            stack.append((a.default_factory, b.default_factory, path + ".default_factory"))
        da, db = attrs_of(a), attrs_of(b)
        if set(da) != set(db):
            raise Bad(f"attributes differ at {path}: {sorted(map(str, da))} vs {sorted(map(str, db))}", original=a, result=b)
        for k in da:
            stack.append((da[k], db[k], f"{path}.{k}"))
        if not isinstance(a, (dict, list, tuple, set, frozenset, collections.deque)) and not hasattr(a, "__dict__") and not slots_of(a):
            if type(a).__eq__ is not object.__eq__ and a != b:
                raise Bad(f"value differs at {path}", original=a, result=b)


def plain_key(k):
    try:
        return (type(k).__name__, repr(k)) if type(k).__repr__ is not object.__repr__ else (type(k).__name__,)
    except Exception:
        return (type(k).__name__,)


def match_keys(xs, ys, path):
    """Pair up entries by equal keys of equal type (identity-hashed keys by a
    comparison of their content)."""
    out = []
    rest = list(ys)
    for k, v in xs:
        for j, (k2, v2) in enumerate(rest):
            if type(k) is type(k2) and key_like(k, k2):
                out.append(((k, v), (k2, v2)))
                del rest[j]
                break
        else:
            raise Bad(f"key lost at {path}: {short(k, 80)}", missing=k, present=[y[0] for y in ys])
    return out


def key_like(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(key_like(x, y) for x, y in zip(a, b))
    if isinstance(a, frozenset):
        return len(a) == len(b)
    if type(a).__eq__ is object.__eq__ and not isinstance(a, (type, enum.Enum)):
        try:
            same(a, b, ids=False)
            return True
        except Bad:
            return False
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def slots_of(a):
    out = []
    for c in type(a).__mro__:
        s = c.__dict__.get("__slots__", ())
        for n in ((s,) if isinstance(s, str) else s):
            if n in ("__dict__", "__weakref__"):
                continue
            out.append(f"_{c.__name__.lstrip('_')}{n}" if n.startswith("__") and not n.endswith("__") else n)
    return out


def attrs_of(a):
    d = {}
    if not isinstance(a, type):
        try:
            d.update(object.__getattribute__(a, "__dict__"))
        except (AttributeError, TypeError):
            pass
        for n in slots_of(a):
            try:
                d[n] = object.__getattribute__(a, n)
            except AttributeError:
                pass
    return d


# ----------------------------------------------------------------- generating
TAGS = ["py/bytes", "py/bytea", "py/b64", "py/b85", "py/function", "py/id", "py/initargs", "py/iterator",
        "py/mod", "py/newargs", "py/newargsex", "py/newobj", "py/object", "py/property", "py/reduce",
        "py/default_factory", "py/ref", "py/repr", "py/seq", "py/set", "py/state", "py/tuple", "py/type"]

STRS = ["", "a", "b", "key", "0", "1", "null", "None", "True", "json", "json:/", "Json://x", "x json://", "py", "py/",
        "py/x", "py/tupl", "py/tuple2", "a/b", "/", ".", "..", "é", "日本", " ", "\x00", "\x7f", "\\", "\"", "'",
        "\n", "\t", " ", "a b", "😀", "\ud800", "__dict__x", "values", "keys", "items", "_", "__", "self", "id",
        "builtins.int", "a.b.c", "x" * 70, "{}", "[]", "{\"py/id\": 1}", "json"]


def gstr(r):
    k = r.random()
    if k < 0.6:
        return r.choice(STRS)
    if k < 0.8:
        return "".join(r.choice("abcxyz_/:. ") for _ in range(r.randint(0, 8)))
    return "".join(chr(r.choice([r.randint(32, 126), r.randint(160, 0x2fff), r.randint(0x10000, 0x10fff)]))
                   for _ in range(r.randint(0, 6)))


def gint(r):
    return r.choice([0, 1, -1, 2, 255, 256, -2**31, 2**31 - 1, 2**31, 2**53, 2**63 - 1, -2**63,
                     r.randint(-1000, 1000), r.randint(-10**15, 10**15)])


def gfloat(r):
    return r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, 2.0**53, 1e22, 1 / 3,
                     r.random(), r.uniform(-1e6, 1e6), float(r.randint(-10**6, 10**6))])


def gbytes(r):
    return r.choice([b"", b"a", b"\x00", b"\xff\xfe", b"abc" * 20, bytes(range(256)),
                     b"\x00" * r.choice([2, 65, 300]), b" \n" + b"x" * r.choice([64, 1000]) + b"\x00\x00",
                     bytes(r.randrange(256) for _ in range(r.randint(0, 40)))])


def gatom(r, nobytes=False):
    k = r.randrange(11 if not nobytes else 9)
    if k == 0: return None
    if k == 1: return r.choice([True, False])
    if k in (2, 3): return gint(r)
    if k == 4: return gfloat(r)
    if k < 9: return gstr(r)
    if k == 9: return gbytes(r)
    return bytearray(gbytes(r))


def ghashable(r, depth=2):
    k = r.randrange(8)
    if k == 0 and depth:
        return tuple(ghashable(r, depth - 1) for _ in range(r.randint(0, 3)))
    a = gatom(r)
    return bytes(a) if isinstance(a, bytearray) else a


def gkey(r):
    while True:
        k = gstr(r)
        if k not in TAGS and not k.startswith("json://"):
            return k


def gplain(r, depth=3, nobytes=False, width=4, key=gkey):
    """Random tree of plain data."""
    if depth <= 0 or r.random() < 0.25:
        return gatom(r, nobytes)
    k = r.randrange(8)
    n = r.choice([0, 1, 1, 2, 2, 3, width])
    if k < 3:
        return [gplain(r, depth - 1, nobytes, width, key) for _ in range(n)]
    if k < 5:
        return {key(r): gplain(r, depth - 1, nobytes, width, key) for _ in range(n)}
    if k < 7:
        return tuple(gplain(r, depth - 1, nobytes, width, key) for _ in range(n))
    out = set()
    for _ in range(n):
        x = ghashable(r)
        if nobytes and has_bytes(x):
            continue
        out.add(x)
    return out


def has_bytes(x):
    if isinstance(x, (bytes, bytearray)):
        return True
    return isinstance(x, tuple) and any(map(has_bytes, x))


def expect_same(a, b, **kw):
    same(a, b, **kw)


def jsonable(j, path="$", numeric_keys=False):
    """Raise Bad unless j is directly representable as JSON (tuples count as
    arrays)."""
    stack = [(j, path, ())]
    while stack:
        j, path, up = stack.pop()
        if id(j) in up and isinstance(j, (list, dict, tuple)):
            raise Bad(f"flattened output is cyclic at {path}")
        if len(up) > 400:
            raise Bad(f"flattened output too deep at {path}")
        up = up + (id(j),)
        if j is None or type(j) in (bool, int, float, str):
            continue
        if type(j) in (list, tuple):
            for i, x in enumerate(j):
                stack.append((x, f"{path}[{i}]", up))
        elif isinstance(j, dict):
            for k, x in j.items():
                if type(k) is not str and not (numeric_keys and type(k) in (int, float)):
                    raise Bad(f"key {short(k, 60)} of type {type(k).__name__} at {path} in the flattened output")
                stack.append((x, f"{path}.{short(k, 30)}", up))
        else:
            raise Bad(f"{type(j).__name__} at {path} in the flattened output", value=j)
