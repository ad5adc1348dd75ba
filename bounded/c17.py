from .lib import *
import json as stdjson
import sys
import types
import jsonpickle
import jsonpickle.backend as B

LOG = []


class EncErr(Exception):
    pass


class DecErr(Exception):
    pass


class OtherErr(Exception):
    pass


def fake(name):
    """A backend module that records its calls; the object given decides
    whether it fails (by the names listed in it)."""
    m = types.ModuleType(name)

    def dumps(obj, *a, **k):
        LOG.append((name, "enc", a, k))
        if name in obj.get("fail", ()):
            raise EncErr(name)
        return f"{name}!" + stdjson.dumps(obj)

    def loads(s, *a, **k):
        LOG.append((name, "dec", a, k))
        d = stdjson.loads(s)
        if name in d.get("fail", ()):
            raise DecErr(name)
        if name in d.get("crash", ()):
            raise OtherErr(name)
        return [name, d]
    m.dumps, m.loads, m.DecErr = dumps, loads, DecErr
    m.write, m.read = dumps, loads
    return m


NAMES = ["fb_a", "fb_b", "fb_c", "fb_d"]
for _n in NAMES:
    sys.modules[_n] = fake(_n)
_pkg = types.ModuleType("fb_pkg")
_pkg.sub = types.ModuleType("fb_pkg.sub")
_pkg.sub.deep = fake("fb_pkg.sub.deep")
sys.modules["fb_pkg"] = _pkg
sys.modules["fb_pkg.sub"] = _pkg.sub
sys.modules["fb_pkg.sub.deep"] = _pkg.sub.deep
_bad = types.ModuleType("fb_bad")
_bad.dumps = lambda o: "x"
sys.modules["fb_bad"] = _bad
ALL = NAMES + ["fb_pkg.sub.deep"]


def fresh():
    b = B.JSONBackend()
    for n in ("simplejson", "json", "ujson"):
        b.remove_backend(n)
    return b


class Model:
    def __init__(self):
        self.order, self.enc, self.dec = [], {}, {}
        self.fall = True


def gopt(r):
    a = tuple(r.randint(0, 9) for _ in range(r.choice([0, 0, 1, 2])))
    k = {c: r.randint(0, 9) for c in r.sample(["x", "y", "indent", "sort_keys", "separators"], r.choice([0, 1, 2]))}
    return a, k


def observe(b, m, r, ops):
    obj = {"fail": r.sample(ALL, r.choice([0, 0, 1, 2, 3, 5]))}
    kw = {}
    if r.random() < 0.3: kw["indent"] = r.choice([0, 2])
    if r.random() < 0.3: kw["separators"] = (",", ":")
    LOG.clear()
    try:
        got = (b.encode if r.random() < 0.5 else b.dumps)(obj, **kw)
        err = None
    except Exception as e:
        got, err = None, e
    log = list(LOG)

    def opts(n):
        a, k = m.enc.get(n, ((), {}))
        k = dict(k)
        k.update(kw)
        return (n, "enc", a, k)
    if not m.order:
        if not isinstance(err, AssertionError) or log:
            raise Bad(f"encoding without any backend: {got!r} {err!r}", operations=ops)
    else:
        tried = []
        want = None
        for n in m.order if m.fall else m.order[:1]:
            tried.append(opts(n))
            if n not in obj["fail"]:
                want = n
                break
        if log != tried:
            raise Bad("encoder calls differ", operations=ops, got=log, expected=tried)
        if want is None:
            if not isinstance(err, EncErr) or err.args != (tried[-1][0],):
                raise Bad(f"the error of the last backend tried did not propagate: {got!r} {err!r}", operations=ops)
        elif err is not None or not got.startswith(want + "!"):
            raise Bad(f"result is not that of {want}: {got!r} {err!r}", operations=ops)
    # decoding
    d = {"fail": r.sample(ALL, r.choice([0, 0, 1, 2, 4])), "crash": r.sample(ALL, r.choice([0, 0, 0, 1]))}
    s = stdjson.dumps(d)
    LOG.clear()
    try:
        got = (b.decode if r.random() < 0.5 else b.loads)(s)
        err = None
    except Exception as e:
        got, err = None, e
    log = list(LOG)
    if not m.order:
        if not isinstance(err, AssertionError) or log:
            raise Bad(f"decoding without any backend: {got!r} {err!r}", operations=ops)
        return
    tried, want, we = [], None, None
    for n in m.order if m.fall else m.order[:1]:
        a, k = m.dec.get(n, ((), {}))
        tried.append((n, "dec", a, k))
        if n in d["fail"]:
            we = (DecErr, n)
            continue
        if n in d["crash"]:
            we = (OtherErr, n)
            break
        want, we = n, None
        break
    if log != tried:
        raise Bad("decoder calls differ", operations=ops, got=log, expected=tried)
    if we:
        if type(err) is not we[0] or err.args != (we[1],):
            raise Bad(f"expected the error of {we[1]}: {got!r} {err!r}", operations=ops)
    elif err is not None or got != [want, d]:
        raise Bad(f"result is not that of {want}: {got!r} {err!r}", operations=ops)


@suite("C17", 2500)
def histories(r, t):
    b, m, ops = fresh(), Model(), []
    for _ in range(r.randint(1, 14)):
        k = r.randrange(10)
        n = r.choice(ALL)
        if k < 3:
            ops.append(("load", n))
            exc = r.choice([DecErr, "DecErr"])
            ok = b.load_backend(n, loads_exc=exc) if r.random() < 0.5 else b.load_backend(n, dumps="write", loads="read", loads_exc=exc)
            if ok is not True:
                raise Bad("load_backend did not return True", operations=ops)
            if n not in m.order:
                m.order.append(n)
        elif k == 3:
            ops.append(("remove", n))
            b.remove_backend(n)
            if n in m.order: m.order.remove(n)
            m.enc.pop(n, None), m.dec.pop(n, None)
        elif k == 4:
            ops.append(("prefer", n))
            try:
                b.set_preferred_backend(n)
                ok = True
            except AssertionError:
                ok = False
            if ok != (n in m.order):
                raise Bad(f"set_preferred_backend({n}): {ok}", operations=ops)
            if ok:
                m.order.remove(n)
                m.order.insert(0, n)
        elif k in (5, 6):
            a, kw = gopt(r)
            ops.append(("encopts", n, a, kw))
            b.set_encoder_options(n, *a, **kw)
            m.enc[n] = (a, kw)
        elif k == 7:
            a, kw = gopt(r)
            ops.append(("decopts", n, a, kw))
            b.set_decoder_options(n, *a, **kw)
            m.dec[n] = (a, kw)
        elif k == 8:
            m.fall = r.random() < 0.5
            ops.append(("fallthrough", m.fall))
            b.enable_fallthrough(m.fall)
        else:
            bad = r.choice(["no_such_backend_xyz", "fb_bad", "fb_pkg.nothing", "json.no.such"])
            ops.append(("load bad", bad))
            if b.load_backend(bad) is not False:
                raise Bad(f"loading {bad} did not return False", operations=ops)
        observe(b, m, r, ops)
    t.note(ops)


@fixed("C17")
def details():
    out = []

    def case(n):
        def deco(f):
            out.append((n, f))
            return f
        return deco

    @case("default preference order and options")
    def _():
        b = B.JSONBackend()
        # the order only matters through which library answers
        s = b.encode({"b": 1, "a": [1, "/"]})
        if stdjson.loads(s) != {"b": 1, "a": [1, "/"]} or list(stdjson.loads(s)) != ["b", "a"] or "\\/" in s:
            raise Bad("default encoding differs", result=s)
        for n in ("json", "simplejson", "ujson"):
            b.set_preferred_backend(n)
            s = b.encode({"b": 1, "a": [1, "/"]})
            if list(stdjson.loads(s)) != ["b", "a"] or "\\/" in s:
                raise Bad(f"{n}: keys sorted or slashes escaped by default", result=s)
            if b.decode(s) != {"b": 1, "a": [1, "/"]}:
                raise Bad(f"{n}: decode differs")

    @case("real backends: options apply to the named one only")
    def _():
        for n in ("json", "simplejson", "ujson"):
            b = B.JSONBackend()
            b.set_encoder_options(n, sort_keys=True)
            for q in ("json", "simplejson", "ujson"):
                b.set_preferred_backend(q)
                got = list(stdjson.loads(b.encode({"b": 1, "a": 2})))
                if got != (["a", "b"] if q == n else ["b", "a"]):
                    raise Bad(f"options of {n} while {q} is preferred: {got}")
        b1, b2 = B.JSONBackend(), B.JSONBackend()
        b1.set_encoder_options("json", sort_keys=True)
        b2.set_preferred_backend("json")
        b1.set_preferred_backend("simplejson")
        if list(stdjson.loads(b2.encode({"b": 1, "a": 2}))) != ["b", "a"]:
            raise Bad("options are shared between backend objects")
        if b2.encode([1]) != "[1]":
            raise Bad("differs")

    @case("decoder options of real backends")
    def _():
        import decimal
        for n in ("json", "simplejson"):
            b = B.JSONBackend()
            b.set_preferred_backend(n)
            b.set_decoder_options(n, parse_float=decimal.Decimal)
            if b.decode("1.5") != decimal.Decimal("1.5") or type(b.decode("1.5")) is not decimal.Decimal:
                raise Bad("decoder options not used")
            other = "json" if n == "simplejson" else "simplejson"
            b.set_preferred_backend(other)
            if type(b.decode("1.5")) is not float:
                raise Bad("decoder options used for another backend")

    @case("indent and separators go to the backend and are not kept")
    def _():
        b = B.JSONBackend()
        b.set_preferred_backend("json")
        if b.encode([1, {"a": 2}], indent=1) != stdjson.dumps([1, {"a": 2}], indent=1):
            raise Bad("indent ignored")
        if b.encode([1, {"a": 2}], separators=(",", ":")) != '[1,{"a":2}]':
            raise Bad("separators ignored")
        if b.encode([1, {"a": 2}]) != '[1, {"a": 2}]':
            raise Bad("options of one call are kept for the next")
        b.set_encoder_options("json", indent=3)
        if b.encode([1], indent=1) != "[\n 1\n]" or b.encode([1]) != "[\n   1\n]":
            raise Bad("indent of the call does not win over the option")

    @case("error when everything failed")
    def _():
        b = B.JSONBackend()
        for fall in (True, False):
            b.enable_fallthrough(fall)
            try:
                got = b.encode({"a": object()})
            except TypeError:
                pass
            except Exception as e:
                if type(e).__name__ not in ("OverflowError",):
                    raise Bad(f"other error {e!r}")
            else:
                raise Bad(f"encode returned {got!r} for something no backend can write")
            for bad in ("{", "", "[1,", "nope"):
                try:
                    got = b.decode(bad)
                except ValueError:
                    pass
                else:
                    raise Bad(f"decode of {bad!r} returned {got!r}")

    @case("no backend at all")
    def _():
        b = fresh()
        for f in (lambda: b.encode([1]), lambda: b.decode("[1]"), lambda: jsonpickle.encode([1], backend=b), lambda: jsonpickle.decode("[1]", backend=b)):
            try:
                got = f()
            except AssertionError:
                continue
            raise Bad(f"returned {got!r} without a backend")
        b.load_backend("json")
        if b.encode([1]) != "[1]" or b.decode("[1]") != [1]:
            raise Bad("unusable after loading one again")

    @case("module-level functions")
    def _():
        try:
            jsonpickle.load_backend("fb_a", loads_exc=DecErr)
            jsonpickle.set_preferred_backend("fb_a")
            jsonpickle.set_encoder_options("fb_a", 1, q=2)
            jsonpickle.set_decoder_options("fb_a", 3, w=4)
            LOG.clear()
            s = jsonpickle.encode({"k": 1})
            if LOG != [("fb_a", "enc", (1,), {"q": 2})] or not s.startswith("fb_a!"):
                raise Bad("preferred backend not used by encode", log=LOG)
            LOG.clear()
            y = jsonpickle.decode('{"k": 1}')
            if LOG != [("fb_a", "dec", (3,), {"w": 4})] or y != ["fb_a", {"k": 1}]:
                raise Bad("preferred backend not used by decode", log=LOG, result=y)
            jsonpickle.set_preferred_backend("json")
            LOG.clear()
            if jsonpickle.encode({"k": 1}) != '{"k": 1}' or LOG:
                raise Bad("another backend was used")
            jsonpickle.enable_fallthrough(False)
            jsonpickle.set_preferred_backend("fb_a")
            try:
                jsonpickle.encode({"fail": ["fb_a"]})
            except EncErr:
                pass
            else:
                raise Bad("error did not propagate with fallthrough off")
        finally:
            jsonpickle.enable_fallthrough(True)
            jsonpickle.remove_backend("fb_a")
            jsonpickle.set_preferred_backend("simplejson")

    @case("explicit backend argument")
    def _():
        b = fresh()
        b.load_backend("fb_b", loads_exc=DecErr)
        LOG.clear()
        s = jsonpickle.encode({"k": 1}, backend=b)
        y = jsonpickle.decode('{"k": [1]}', backend=b)
        if [e[:2] for e in LOG] != [("fb_b", "enc"), ("fb_b", "dec")] or y != ["fb_b", {"k": [1]}]:
            raise Bad("the given backend was not used", log=LOG, result=y)
        LOG.clear()
        jsonpickle.encode({(1, 2): 3}, backend=b, keys=True)
        if [e[:2] for e in LOG] != [("fb_b", "enc")] * 2:
            raise Bad("the given backend was not used for keys", log=LOG)
        LOG.clear()
    

    @case("preference survives a failed load and repeated loads")
    def _():
        b = fresh()
        for n in ("fb_a", "fb_b", "fb_c"):
            b.load_backend(n, loads_exc=DecErr)
        b.set_preferred_backend("fb_b")
        b.load_backend("no_such_backend_xyz")
        b.load_backend("fb_c", loads_exc=DecErr)
        b.remove_backend("fb_zzz")
        LOG.clear()
        b.encode({"fail": ["fb_b"]})
        if [e[0] for e in LOG] != ["fb_b", "fb_a"]:
            raise Bad("order differs", log=LOG)
        b.remove_backend("fb_b")
        b.remove_backend("fb_b")
        LOG.clear()
        b.encode({"fail": ["fb_a"]})
        if [e[0] for e in LOG] != ["fb_a", "fb_c"]:
            raise Bad("order differs after removal", log=LOG)

    @case("interrupts are not swallowed")
    def _():
        b = fresh()
        m = types.ModuleType("fb_int")

        def dumps(o, **k):
            raise KeyboardInterrupt
        m.dumps = dumps
        m.loads = lambda s: dumps(s)
        sys.modules["fb_int"] = m
        b.load_backend("fb_int")
        b.load_backend("fb_a", loads_exc=DecErr)
        for f in (lambda: b.encode({}), lambda: b.decode("{}")):
            try:
                f()
            except KeyboardInterrupt:
                continue
            raise Bad("KeyboardInterrupt swallowed")
    return out
