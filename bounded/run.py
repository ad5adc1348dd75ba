"""python -m bounded.run PROP SEED TIER [--scale x] [--case suite n]: prints a JSON result."""
import importlib
import json
import os
import sys
import warnings


def load(prop):
    from . import lib
    importlib.import_module(f"bounded.{prop.lower()}")
    return lib


def main(argv):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop, seed, tier = argv[0], int(argv[1]), argv[2]
    real = os.dup(1)
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    lib = load(prop)
    if "--case" in argv:
        i = argv.index("--case")
        import signal
        signal.signal(signal.SIGALRM, lib._alarm)
        res = lib.run_case(prop, argv[i + 1], int(argv[i + 2]), seed)
    else:
        scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.0
        limit = float(argv[argv.index("--limit") + 1]) if "--limit" in argv else 600.0
        only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
        import time
        res = lib.run_suites(prop, seed, tier, scale, only, time.time() + limit)
    os.write(real, (json.dumps(res) + "\n").encode())


if __name__ == "__main__":
    main(sys.argv[1:])
