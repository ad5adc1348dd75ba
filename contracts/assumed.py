"""What stands behind each contract that is used at a call site in place of the
body: the harnesses that discharge it, or nothing (then it is an assumption)."""
import fnmatch

INDUCTION = "induction hypothesis on the parts of a value; the step, shape by shape, is discharged by {}"
SHAPES = "core.*, container.*, inst.*, slots.*, newargs*, getstate.*, reduce.*, names.value.*, names.module, std.*, handler.*"

STANDS = {
    "jsonpickle.pickler.Pickler._flatten": INDUCTION.format(SHAPES),
    "jsonpickle.unpickler.Unpickler._restore": INDUCTION.format(SHAPES),
    "jsonpickle.pickler.Pickler.flatten": "discharged by state.pickler-reset, state.pickler-no-reset",
    "jsonpickle.unpickler.Unpickler.restore": "discharged by state.unpickler-reset, state.unpickler-no-reset",
    "jsonpickle.pickler.Pickler.reset": "discharged by state.pickler-reset",
    "jsonpickle.pickler.Pickler._determine_sort_keys": "discharged by state.sort-keys, for callers that did not ask a backend to sort keys",
    "jsonpickle.pickler.Pickler._get_flattener": "any flattener, returning or raising; nothing is assumed about it",
    "jsonpickle.pickler.encode": "discharged by entry.encode*",
    "jsonpickle.unpickler.decode": "discharged by entry.decode*",
    "jsonpickle.backend.JSONBackend.encode": "discharged by backend.encode.* up to the JSON library itself",
    "jsonpickle.backend.JSONBackend.decode": "discharged by backend.decode.* up to the JSON library itself",
    "jsonpickle.backend.JSONBackend.load_backend": "discharged by backend.load",
    "jsonpickle.backend.JSONBackend.remove_backend": "discharged by backend.remove",
    "jsonpickle.handlers.Registry.get": "discharged by registry.get, registry.get-default-is-none",
    "jsonpickle.handlers.Registry.register": "discharged by registry.register",
    "jsonpickle.handlers.handler_accepts_handler_context": "discharged by handler.signature-test",
    "jsonpickle.util.has_method": "discharged by method.getnewargs, method.getnewargs_ex, method.getinitargs",
    "jsonpickle.util.has_reduce": "discharged by method.reduce",
    "jsonpickle.util._is_reducible": "any answer for a class of the MRO; nothing is assumed about it",
    "jsonpickle.util.importable_name": "discharged by names.written.*",
    "jsonpickle.util.loadclass": "discharged by names.loadclass, names.loadclass.classes, names.loadclass.walk",
    "jsonpickle.unpickler._loadmodule": "discharged by names.module",
    "jsonpickle.ext.numpy.NumpyNDArrayHandler.flatten": "discharged by numpy.binary.text",
}

GENERAL = [
    "json.loads(json.dumps(x)) equals x for x of JSON shape (dict order and text kept); the same of the other backends",
    "attribute access, comparison and hashing of the objects encoded have no side effects on the library and agree with identity where the contract says so; user code does not replace attributes of the library",
    "one thread at a time uses a Pickler, an Unpickler, the registry or the backend",
    "no memory or recursion limit is reached",
]


def status(contract):
    return STANDS.get(contract, "ASSUMED, not discharged by any harness")


def unmet(names):
    """Harnesses named above that do not exist (checked by selftest.py)."""
    out = []
    for c, text in STANDS.items():
        if "discharged" in text:
            part = text.split("discharged by ", 1)[1].split(" up to ")[0].split(", for ")[0]
            for p in part.split(", "):
                if not fnmatch.filter(names, p.strip()):
                    out.append((c, p))
    return out
