"""Functions the generator is tested on.  Each is run by CPython and by the
generator on the same concrete arguments; the results must agree."""


def arith(a, b):
    c = a * 3 - b
    if c > 10 and a < b or not c:
        return -c
    return c + 1


def loops(xs):
    out = []
    for i, x in enumerate(xs):
        if x == 3:
            continue
        if x > 8:
            break
        out.append((i, x))
    else:
        out.append("end")
    return out


def whiles(n):
    out = []
    while n > 0:
        n -= 2
        if n == 4:
            continue
        if n == 1:
            break
        out.append(n)
    else:
        out.append(None)
    return out


def tries(d, k):
    log = []
    try:
        try:
            v = d[k]
        except KeyError:
            log.append("missing")
            v = None
        else:
            log.append("found")
        finally:
            log.append("finally")
        if v is None:
            raise ValueError("none")
    except (TypeError, ValueError):
        log.append("value")
    return v, log


def dicts(d):
    e = dict(d)
    e["x"] = 1
    e.setdefault("y", []).append(2)
    e.pop("z", None)
    if "w" in e:
        del e["w"]
    return [(k, v) for k, v in e.items() if k != "q"], len(e), e.get("nope", 7)


def strings(s):
    return s.startswith("ab"), s[2:], s + "!", f"<{s}>", "b" in s, s == "abc", s.endswith(("x", "c"))


def closures(n):
    acc = []

    def add(k, by=n):
        acc.append(k + by)
        return len(acc)
    return [add(1), add(2, by=5), add(*[3], **{"by": 1})], acc


def comps(xs):
    return {x: [y for y in xs if y > x] for x in xs if x}, {x + 1 for x in xs}, tuple(x for x in xs)


def unpack(t):
    a, (b, *c) = t
    b, a = a, b
    return a, b, c


def gen(xs):
    for x in xs:
        if x:
            yield x
    yield from xs


def gens(xs):
    return list(gen(xs)), any(x > 2 for x in xs), all(x for x in xs), next((x for x in xs if x > 1), None)


def defaults(a, b=2, *args, c=3, **kw):
    return a, b, args, c, kw


def calls(x):
    return [defaults(x), defaults(x, 1, 5, 6), defaults(x, c=9, d=4), defaults(*[x, x], **{"c": x, "e": x})]


def is_same(a):
    b = a
    c = list(a)
    return a is b, a is c, a == c, a is not c, c is None


def chain(a, b, c):
    return a < b < c, a == b != c, 1 if a else 2, a and b, a or b


def nested(xs):
    out = []
    for x in xs:
        for y in xs:
            if y == 2:
                break
            out.append(x * y)
    return out


def slices(xs):
    ys = xs[1:]
    ys += [7] * 2
    ys[0] = 9
    return ys, ys[-1], xs[:2], ys[:-1]


CASES = [
    (arith, [(1, 2), (0, 0), (5, 1), (7, 2), (-3, 4)]),
    (loops, [([],), ([1, 2],), ([3, 4, 9, 1],), ([1, 3],)]),
    (whiles, [(0,), (5,), (6,), (9,)]),
    (tries, [({}, "a"), ({"a": 1}, "a"), ({"a": None}, "a")]),
    (dicts, [({},), ({"z": 1, "w": 2},), ({"q": 1, "y": [0]},)]),
    (strings, [("",), ("abc",), ("ab",), ("xbc",)]),
    (closures, [(1,), (10,)]),
    (comps, [([0, 1, 2],), ([],)]),
    (unpack, [((1, (2, 3, 4)),), ((1, (2,)),)]),
    (gens, [([0, 1, 2, 3],), ([],)]),
    (calls, [(1,), (0,)]),
    (is_same, [([1],)]),
    (chain, [(1, 2, 3), (0, 0, 1), (2, 2, 2)]),
    (nested, [([1, 3, 2],)]),
    (slices, [([1, 2, 3],)]),
]


# -- symbolic: (function, name of the obligation, holds)
def absval(x):
    return -x if x < 0 else x


def absval_broken(x):
    return -x if x < 1 else x + 0 if x != 1 else 2


def copy_list(xs):
    out = []
    for x in xs:
        out.append(x)
    return out


def copy_list_skips_none(xs):
    out = []
    for x in xs:
        if x is not None:
            out.append(x)
    return out


def copy_list_stops(xs):
    out = []
    for x in xs:
        if x is None:
            break
        out.append(x)
    return out


def copy_list_twice(xs):
    out = []
    for x in xs:
        out.append(x)
    for x in xs:
        out.append(x)
    return out


def copy_dict(d):
    return {k: v for k, v in d.items()}


def copy_dict_one_key(d):
    out = {}
    for k, v in d.items():
        if k == "a":
            k = "b"
        out[k] = v
    return out


def copy_dict_first_value(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, int):
            out[k] = v
        else:
            out[k] = None
    return out


def find_none(xs):
    for x in xs:
        if x is None:
            return True
    return False


def find_none_broken(xs):
    for x in xs:
        return x is None
    return False


def find_none_flag(xs):
    seen = False
    for x in xs:
        seen = seen or x is None
    return seen


def find_both(xs):
    a = b = False
    for x in xs:
        a = a or x is None
        b = b or x is True
        if a and b:
            return "both"
    return "none" if a else "true" if b else ""


def find_both_broken(xs):
    a = b = False
    for x in xs:
        a = a or x is None
        b = b or x is True
        if a or b:
            return "both"
    return "none" if a else "true" if b else ""


def find_both_late(xs):
    a = b = False
    for x in xs:
        if a and b:
            return "both"
        a = a or x is None
        b = b or x is True
    return "none" if a else "true" if b else ""


def all_none_flag(xs):
    every = True
    for x in xs:
        every = every and x is None
    return not every


def prefix_cut(s):
    if s.startswith("json://"):
        return s[len("json://"):]
    return "json://" + s


def prefix_cut_broken(s):
    if s.startswith("json:/"):
        return s[len("json://"):]
    return s
