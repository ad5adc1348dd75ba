#!/opt/venv/bin/python
"""check.py PROPERTY            decide one property on /repo's working tree
check.py --replay FILE       run a recorded failing input again

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Anything else: error.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
REPO = "/repo"
PY = sys.executable
BACKEND = "z3 (through the pyvc generator in /verif/pyvc)"

TRUSTED = [
    "pyvc: the translation from the AST of the functions in /repo to verification conditions (self-tested against CPython by selftest.py)",
    "z3",
    "CPython and the standard library behave as their documentation says; the models of builtins in pyvc/models.py and pyvc/values.py",
]


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("KNOWN property=" + prop + " "):
                out.append(line)
    return out


def matches_known(fail, known):
    """A known finding names suite, and a text that must occur in the failing
    input: KNOWN property=C01 suite=<suite> input=<text> :: description"""
    for k in known:
        head = k.split(" :: ")[0]
        want = dict(x.split("=", 1) for x in head.split()[1:])
        if want.get("suite") == fail.get("suite") and want.get("input", "\0") in (fail.get("input") or ""):
            return k.split(" :: ", 1)[1]
    return None


def start_bounded(prop, seed, tier, *extra):
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([PY, "-m", "bounded.run", prop, str(seed), tier, *extra], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def finish_bounded(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "timeout"
    if p.returncode != 0:
        return None, f"exit {p.returncode}: {err.decode(errors='replace')[-1500:]}"
    return json.loads(out), None


def write_replay(prop, kind, n, body):
    d = os.path.join(HERE, "out", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{kind}-{n}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return os.path.relpath(path, HERE)


def replay(path):
    with open(path) as f:
        b = json.load(f)
    if b["kind"] == "input":
        p = start_bounded(b["property"], b["seed"], b["tier"], "--case", b["suite"], str(b["case"]))
        res, err = finish_bounded(p, 120)
        if err:
            print("error:", err)
            return 2
        print(json.dumps(res, indent=1) if res else "does not fail any more")
        return 1 if res else 0
    import pyvc  # noqa: F401
    from contracts import reg, run
    h = reg.load()[b["harness"]]
    o = run.run_one(h)
    ob = o["obligations"].get(b["obligation"])
    print(json.dumps({"status": o["status"], "obligation": ob}, indent=1))
    return 1 if ob and ob["refuted"] else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    for f in os.listdir(os.path.join(HERE, "out", prop)) if os.path.isdir(os.path.join(HERE, "out", prop)) else ():
        os.unlink(os.path.join(HERE, "out", prop, f))

    bp = start_bounded(prop, seed, tier, "--limit", "150" if tier == "quick" else "400")

    # deductive part
    import pyvc  # noqa: F401
    from contracts import assumed, reg, run
    reg.load()
    hs = reg.for_prop(prop, tier)
    results = run.run_many(hs, 7, time.time() + (200 if tier == "quick" else 400))
    bres, berr = finish_bounded(bp, 500)
    crashed = None
    if bres is None:
        if berr.startswith("exit -"):
            crashed = berr         # the library killed the interpreter
            bres = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "per": {}}
        else:
            print(f"bounded cross-check did not run: {berr}")
            return 3

    nobl = ndis = nunk = 0
    refuted, undecided, functions, uses, assumptions = [], [], {}, {}, {}
    solver = 0.0
    queries = paths = 0
    harness_report = []
    for h, o in zip(sorted(hs, key=lambda h: h.name), results):
        assert h.name == o["name"]
        rel = {k: v for k, v in o["obligations"].items() if reg.relevant(h, prop, k)}
        a = sum(v["checked"] for v in rel.values())
        d = sum(v["ok"] for v in rel.values())
        nobl += a
        ndis += d
        if o["status"] != "complete" or not rel:
            nobl += 1
            undecided.append(f"{h.name}: {o['status']} {o['note'][:300]}" if rel or o["status"] != "complete" else f"{h.name}: no obligation")
        for k, v in rel.items():
            nunk += v["unknown"]
            if v["unknown"] and not v["refuted"]:
                undecided.append(f"{h.name}/{k}: solver gave no answer on {v['unknown']} of {v['checked']}")
            if v["refuted"]:
                refuted.append((h.name, k, v))
        for f in o.get("covered", {}):
            functions[f] = functions.get(f, 0) + o["covered"][f]
        for f, n in o.get("contract_uses", {}).items():
            uses[f] = uses.get(f, 0) + n
        for f, n in o.get("assumptions", {}).items():
            assumptions[f] = assumptions.get(f, 0) + n
        solver += o.get("solver", 0.0)
        queries += o.get("queries", 0)
        paths += o.get("paths", 0)
        harness_report.append({"harness": h.name, "status": o["status"], "obligations": a, "discharged": d, "paths": o.get("paths", 0), "wall_s": round(o["wall"], 2)})

    known = known_findings(prop)
    fails = list(bres["fails"])
    # a refuted obligation: look harder for an input that fails
    extra_evals = 0
    if (refuted or undecided) and not fails and not crashed:
        procs = [start_bounded(prop, seed + 1000 + i, tier, "--scale", "4", "--limit", "100") for i in range(6)]
        for p in procs:
            r, e = finish_bounded(p, 300)
            if r is not None:
                extra_evals += r["evaluations"]
                fails += r["fails"]
            elif e.startswith("exit -"):
                crashed = e

    violations = []
    for i, f in enumerate(fails):
        k = matches_known(f, known)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k}")
            continue
        path = write_replay(prop, "input", i, dict(kind="input", tier=tier, refuted=[f"{h}/{k}" for h, k, _ in refuted], **f))
        violations.append((path, "", f"{f['suite']} case {f['case']}: {f['what']}; input {f['input']}"))
    if crashed:
        path = write_replay(prop, "crash", 0, {"kind": "crash", "property": prop, "seed": seed, "tier": tier, "what": crashed})
        violations.append((path, "", f"the interpreter was killed while the library ran: {crashed[:200]}"))
    if refuted and not violations:
        for i, (h, k, v) in enumerate(refuted):
            path = write_replay(prop, "obligation", i, {
                "kind": "obligation", "property": prop, "harness": h, "obligation": k, "refuted_on_paths": v["refuted"], "of": v["checked"],
                "detail": v["detail"], "model": v["model"], "path_condition": v["pc"], "back_end": BACKEND,
                "searched_inputs": bres["evaluations"] + extra_evals})
            violations.append((path, " no-failing-input-found", f"{h}/{k}: {v['detail']}"))

    with open(os.path.join(HERE, "levels.json")) as f:
        level = json.load(f)[prop]
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": f"VERIF_TIER={tier} VERIF_SEED={seed} {PY} {HERE}/check.py {prop}",
        "trusted_base": TRUSTED + [f"contract of {f} used at {n} call sites/paths: {assumed.status(f)}" for f, n in sorted(uses.items())],
        "back_end": BACKEND, "solver_time_s": round(solver, 2), "solver_queries": queries, "paths": paths, "solver_unknown": nunk,
        "functions_under_contract": sorted(functions), "harnesses": harness_report, "undecided": undecided,
        "refuted": [f"{h}/{k}" for h, k, _ in refuted],
        "bounded": {"label": "bounded cross-check of the real code, not counted as proved", "evaluations": bres["evaluations"] + extra_evals,
                    "distinct_nontrivial": bres["distinct"], "suites": bres["per"],
                    "rule": "each case is generated from VERIF_SEED, run through the real library and compared with the property's oracle; distinct means a different printed input"},
        "samples": bres["samples"],
    }
    if level == "other":
        cov["explanation"] = "bounded cross-check only; no obligation could be generated for this property"
    if level == "exploration":
        cov.update(evaluations=bres["evaluations"] + extra_evals, distinct_nontrivial=bres["distinct"], rule=cov["bounded"]["rule"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": assumed.GENERAL + sorted(assumptions) + [f"contract of {f}: {assumed.status(f)}" for f in sorted(uses) if f not in assumed.STANDS] + [f"undecided on this run: {u}" for u in undecided], "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{prop}: {ndis}/{nobl} obligations discharged over {len(functions)} functions ({paths} paths, {solver:.1f} s in z3); "
          f"bounded cross-check {bres['evaluations'] + extra_evals} cases; {time.time() - t0:.1f} s")
    for u in undecided:
        print(f"  undecided: {u}")
    for path, tail, what in violations:
        print("  " + what.replace("\n", " ")[:400])
    for path, tail, what in violations:
        print(f"VIOLATION property={prop} replay={path}{tail}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
