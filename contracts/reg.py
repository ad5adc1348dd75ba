"""Registry of verification harnesses.

A harness runs real functions of /repo symbolically from an arbitrary state
that satisfies its precondition and states obligations.  It belongs to one or
more properties; for each it names the obligations (by prefix) that the
property depends on.
"""
import importlib
import pkgutil

HARNESSES = {}


class Harness:
    def __init__(self, name, fn, props, timeout, thorough):
        self.name, self.fn, self.props = name, fn, props
        self.timeout, self.thorough = timeout, thorough


def harness(name, props, timeout=100, thorough=False):
    """props: {property: None | tuple of obligation-name prefixes} or a str
    "C01 C02" (all obligations)."""
    if isinstance(props, str):
        props = {p: None for p in props.split()}

    def deco(fn):
        assert name not in HARNESSES, name
        HARNESSES[name] = Harness(name, fn, props, timeout, thorough)
        return fn
    return deco


def load():
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        if m.name.startswith("h_"):
            importlib.import_module(f"contracts.{m.name}")
    return HARNESSES


def for_prop(prop, tier):
    return [h for h in HARNESSES.values() if prop in h.props and (tier == "thorough" or not h.thorough)]


def relevant(h, prop, obligation):
    pre = h.props[prop]
    if obligation == "raises-nothing":
        return True
    return pre is None or any(obligation == p or obligation.startswith(p) for p in pre)
