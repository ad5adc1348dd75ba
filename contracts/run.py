"""Runs harnesses in forked workers and returns plain results.

python -m contracts.run [NAME-PREFIX ...]   prints a report (development aid).
"""
import json
import os
import select
import signal
import sys
import time
import traceback


def run_one(h):
    import z3
    from pyvc import core, interp
    obs = {}
    reach = {"sat": 0, "other": 0}

    def report(cx, name, r, detail):
        o = obs.setdefault(name, {"checked": 0, "ok": 0, "refuted": 0, "unknown": 0, "detail": None, "model": None, "pc": None})
        o["checked"] += 1
        if r is True:
            o["ok"] += 1
        elif r is False:
            o["refuted"] += 1
            if o["detail"] is None:
                o["detail"] = str(detail)[:1500]
                try:
                    o["model"] = cx.L.last_model()[:3000]
                except Exception:
                    o["model"] = None
                o["pc"] = [str(f)[:200] for f in cx.pc[:60]]
        else:
            o["unknown"] += 1

    def wrapped(cx):
        try:
            h.fn(cx)
            cx.report(cx, "raises-nothing", True, "")
        except core.PyExc as e:
            cx.oblige("raises-nothing", False, lambda: f"{e.exc!r} escapes")
        # vacuity guard: the end of the path must be reachable
        if reach["sat"] < 3:
            r = cx.L.check(cx.pc)
            reach["sat" if r == z3.sat else "other"] += 1

    t0 = time.time()
    ex = core.Explorer(timeout_s=h.timeout)
    try:
        st = ex.run(wrapped, report)
        status, note = st.status, st.note
    except RecursionError:
        st, status, note = None, "unsupported", "recursion in the generator"
    except Exception:
        st, status, note = None, "internal-error", traceback.format_exc(limit=-4)
    out = {"name": h.name, "status": status, "note": str(note)[:600], "obligations": obs, "wall": time.time() - t0,
           "reach": reach}
    if st is not None:
        out.update(paths=st.paths, queries=st.queries, unknown=st.unknown, solver=st.solver_time,
                   covered={k: sorted(v) if isinstance(v, (set, list, tuple)) else v for k, v in st.covered.items()},
                   contract_uses=st.contract_uses, assumptions=st.assumptions)
        if status == "complete" and (not set(obs) - {"raises-nothing"} or not reach["sat"]):
            out["status"], out["note"] = "vacuous", "no obligation generated or no path reachable"
    return out


def run_many(hs, workers=7, deadline=None):
    todo = sorted(hs, key=lambda h: -h.timeout)
    live, out = {}, []
    while todo or live:
        while todo and len(live) < workers:
            h = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.dup2(2, 1)
                    sys.setrecursionlimit(20000)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
                    data = json.dumps(run_one(h)).encode()
                    while data:
                        n = os.write(w, data)
                        data = data[n:]
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (h, pid, [], time.time() + h.timeout * 1.5 + 20)
        rs, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in list(live):
            h, pid, buf, dl = live[r]
            if deadline:
                dl = min(dl, deadline)
            dead = None
            if r in rs:
                d = os.read(r, 1 << 16)
                if d:
                    buf.append(d)
                    continue
                dead = "ended"
            elif now > dl:
                os.kill(pid, signal.SIGKILL)
                dead = "killed"
            if dead:
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    res = json.loads(b"".join(buf)) if dead == "ended" else None
                except ValueError:
                    res = None
                if res is None:
                    res = {"name": h.name, "status": "budget" if dead == "killed" else "internal-error", "note": f"worker {dead}",
                           "obligations": {}, "wall": 0.0, "reach": {}}
                out.append(res)
    return sorted(out, key=lambda o: o["name"])


def main(argv):
    import pyvc  # noqa: F401
    from contracts import reg
    hs = [h for n, h in reg.load().items() if not argv or any(n.startswith(a) or a in h.props for a in argv)]
    bad = 0
    for o in run_many(hs):
        n = sum(x["checked"] for x in o["obligations"].values())
        ok = sum(x["ok"] for x in o["obligations"].values())
        good = o["status"] == "complete" and n == ok
        bad += not good
        print(f"{'ok  ' if good else 'BAD '}{o['name']}: {o['status']} {ok}/{n} paths={o.get('paths')} wall={o['wall']:.1f} solver={o.get('solver', 0):.1f} {o['note']}")
        for k, x in o["obligations"].items():
            if x["ok"] != x["checked"]:
                print(f"    {k}: {x['ok']}/{x['checked']} refuted={x['refuted']} unknown={x['unknown']} :: {' '.join(str(x['detail']).split())[:400]}")
    print("not ok:", bad)


if __name__ == "__main__":
    main(sys.argv[1:])
