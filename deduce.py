"""Deductive part of a check: run the contract tasks of one property.

    python deduce.py C01 --tier quick --seconds 200 --out f.json
"""
import argparse
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seconds", type=float, default=200)
ap.add_argument("--out", required=True)
a = ap.parse_args()
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
sys.setrecursionlimit(20000)
signal.alarm(int(a.seconds) + 120)  # ends even if whoever started it is gone
T0 = time.time()
res = {"tasks": [], "stubs": [], "error": None, "stats": {}}


def save():
    from vc import solve
    res["stats"] = {k: dict(v) if isinstance(v, dict) else v for k, v in getattr(solve, "STATS", {}).items()}
    res["secs"] = round(time.time() - T0, 2)
    with open(a.out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(a.out + ".tmp", a.out)


def run(engine, tasks, name, role, budget):
    fn, f = tasks[name]
    left = a.seconds - (time.time() - T0)
    t = engine.TaskRun(name, a.tier, deadline=time.time() + max(2, min(budget, left)))
    t.explore(f)
    ok = bool(t.ok)
    if role == "frames":
        t.obls = [o for o in t.obls if o.kind in plan.FRAME_KINDS]
        ok = bool(t.obls) and not t.unsupported and all(o.status == "discharged" for o in t.obls)
    res["tasks"].append({
        "task": name, "function": fn, "role": role, "ok": ok, "paths": t.paths, "secs": round(t.secs, 2),
        "unsupported": t.unsupported[:5],
        "obligations": [dict(o.row(), goal=o.goal, model=o.model) if o.status != "discharged" else o.row() for o in t.obls]})
    save()
    return t


try:
    import vc  # noqa: F401
    from vc import engine
    from contracts import common
    common.init()
    from contracts import tasks as T
    import plan
    helpers, tops = plan.PLAN[a.prop]
    per = 90 if a.tier == "quick" else 600
    done = {}
    for h in helpers:
        t = run(engine, T.TASKS, h, "helper", per)
        done[h] = t
        if t.ok and h in T.STUBS:
            owner, attr, factory = T.STUBS[h]
            C = owner()
            real = C.__dict__.get(attr)
            if real is not None:
                setattr(C, attr, factory(real))
                res["stubs"].append([h, attr])
                T.INSTALLED[h] = (C, attr, real)
    hit = False
    for name in tops:
        if hit and time.time() - T0 > 45:
            res["error"] = "stopped after a decisive refutation; %s and later not attempted" % name
            break
        saved = T.uninstall_for(name)
        t = run(engine, T.TASKS, name, "top", per)
        T.reinstall(saved)
        if not t.ok and T.INSTALLED:
            # the modular proof failed: try again with every callee's body
            first = res["tasks"].pop()
            keep = T.uninstall_all()
            t2 = run(engine, T.TASKS, name, "top", per)
            T.reinstall(keep)
            res["tasks"][-1]["modular_attempt"] = {"ok": False, "unsupported": first["unsupported"],
                                                   "failed": [o["name"] for o in first["obligations"] if o["status"] != "discharged"][:5]}
            t = t2
        hit = hit or any(plan.decisive(a.prop, r["role"], o) for r in res["tasks"] for o in r["obligations"])
        if not t.ok:
            for b in plan.BOUNDED.get(name, ()):
                keep = T.uninstall_all()
                run(engine, T.TASKS, b, "bounded", per)
                T.reinstall(keep)
    for name in plan.FRAMES.get(a.prop, ()):
        if hit:
            break
        keep = T.uninstall_all()
        run(engine, T.TASKS, name, "frames", per)
        T.reinstall(keep)
except BaseException as e:
    res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
save()
sys.stdout.flush()
os._exit(0)
