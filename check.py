"""Check one property of /repo's current working tree.

    python check.py C05            quick (VERIF_TIER=quick, the default) or thorough
    python check.py C05 --replay replays/C05.json

Exit 0: property holds on everything explored; exit 1 with a VIOLATION line:
it is broken.  See DESIGN.md.
"""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan  # noqa: E402

PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPO = os.environ.get("VERIF_REPO", "/repo")
LIM = {"quick": dict(deduce=300, wall=330, oracle=10, hinted=45),
       "thorough": dict(deduce=5400, wall=5600, oracle=300, hinted=600)}[TIER if TIER == "thorough" else "quick"]

TRUSTED = [
    "vc/: the symbolic executor, its numpy rules and the normaliser for rational expressions (own code)",
    "z3 4.x and cvc5 as back ends; sympy polynomial arithmetic in vc/ring.py",
    "CPython executes the repository's source, parsed on every run, with its loops and comprehensions instrumented mechanically "
    "(vc/instrument.py states the rewrites); pint executes for real on symbolic magnitudes",
]
ASSUME = [
    "floating-point numbers are treated as mathematical reals (no rounding, overflow or infinities); NaN is tracked exactly",
    "the unit registry is openscm_units' own, instantiated with exact rational conversion factors",
    "compatible units are multiplicative (no offset units such as degC)",
    "numpy and math functions behave as the rules in vc/npsym.py; len, range, enumerate, zip, list, all, any, int, float, bool, min, max, "
    "isinstance are shadowed so as to accept symbolic values",
    "exp is any function with exp(0)=1, exp>0, exp(x)<1 iff x<0, equal arguments give equal values",
]


def popen(args, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen([PY, "-W", "ignore"] + args, cwd=HERE, env=env, start_new_session=True, **k)


def wait(p, limit):
    try:
        p.wait(timeout=limit)
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return False


def load(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: "):])
    except OSError:
        pass
    return out


def main(pid, argv):
    t0 = time.time()
    if argv[:1] == ["--replay"]:
        r = json.load(open(argv[1]))
        if "case" not in r:
            print("no concrete input in this replay; failed obligations:")
            for o in r.get("obligations", []):
                print("  %s: %s" % (o["task"], o["name"]))
            return 1
        p = popen(["-m", "oracle", pid, "--replay", argv[1]])
        wait(p, 300)
        return p.returncode
    work = os.path.join(HERE, "work")
    for d in ("work", "replays", "evidence"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    f_o, f_d, f_h = (os.path.join(work, "%s.%s.json" % (pid, x)) for x in ("oracle", "deduce", "hinted"))
    f_hints = os.path.join(work, pid + ".hints.json")
    for f in (f_o, f_d, f_h, f_hints):
        if os.path.exists(f):
            os.unlink(f)
    log = open(os.path.join(work, pid + ".log"), "w")
    po = popen(["-m", "oracle", pid, "--seed", str(SEED), "--budget", str(LIM["oracle"]), "--tier", TIER, "--out", f_o], stdout=log, stderr=log)
    pd = popen(["deduce.py", pid, "--tier", TIER, "--seconds", str(LIM["deduce"]), "--out", f_d], stdout=log, stderr=log)
    wait(po, LIM["oracle"] + 200)
    viol_already = bool((load(f_o) or {}).get("violation"))
    # with a failing input at hand the verifier only adds the names of the failed obligations
    in_time = wait(pd, LIM["wall"] if not viol_already else min(LIM["wall"], 120))
    D = load(f_d) or {"tasks": [], "error": "no result from the verifier", "stubs": [], "stats": {}}
    O = load(f_o) or {"evaluations": 0, "violation": None, "errors": ["no result from the oracle"], "samples": [], "distinct": 0}
    if not in_time:
        D["error"] = D.get("error") or "verifier stopped after %d s" % LIM["wall"]

    tops = [t for t in D["tasks"] if t["role"] == "top"]
    failed, refuted, notes = [], [], []
    for t in D["tasks"]:
        for o in t["obligations"]:
            if o["status"] == "discharged":
                continue
            o = dict(o, role=t["role"], function=t["function"])
            failed.append(o)
            if plan.decisive(pid, t["role"], o):
                refuted.append(o)
        if t["unsupported"]:
            notes.append("%s: %s" % (t["task"], "; ".join(t["unsupported"][:2])))
    want = plan.PLAN[pid][1]
    proved = bool(want) and not D["error"] and [t["task"] for t in tops] == want and all(t["ok"] for t in tops)
    aux = [t for t in D["tasks"] if t["role"] == "frames"]
    proved = proved and [t["task"] for t in aux] == plan.FRAMES.get(pid, []) and all(t["ok"] for t in aux)
    vacuous = [t["task"] for t in tops if all(o["kind"] == "static state" for o in t["obligations"])]
    H = None
    viol = O.get("violation")
    src = O
    if not viol and not proved:
        hints = [{"task": o["task"], "name": o["name"], "model": o.get("model") or {}} for o in failed]
        seen, uniq = set(), []
        for h in sorted(hints, key=lambda h: not h["model"]):
            k = (h["task"], json.dumps(h["model"], sort_keys=True))
            if k not in seen:
                seen.add(k)
                uniq.append(h)
        with open(f_hints, "w") as fh:
            json.dump(uniq[:40], fh)
        outs = ["%s.%d" % (f_h, k) for k in range(4)]
        phs = [popen(["-m", "oracle", pid, "--seed", str(SEED + 1000 + k), "--budget", str(LIM["hinted"]), "--tier", TIER, "--out", outs[k]]
                     + (["--hints", f_hints] if k == 0 else []), stdout=log, stderr=log) for k in range(4)]
        live, t1 = list(range(4)), time.time()
        while live and time.time() - t1 < LIM["hinted"] + 200:
            time.sleep(0.2)
            live = [k for k in live if phs[k].poll() is None]
            if any(k not in live and (load(outs[k]) or {}).get("violation") for k in range(4)):
                break
        for k in live:
            wait(phs[k], 0)
        Hs = [h for h in (load(o) for o in outs) if h]
        for o in outs:
            if os.path.exists(o):
                os.unlink(o)
        if Hs:
            H = {"evaluations": sum(h["evaluations"] for h in Hs), "errors": [e for h in Hs for e in h["errors"]][:5],
                 "import_error": next((h["import_error"] for h in Hs if h.get("import_error")), None)}
        for h in Hs:
            if h.get("violation"):
                viol, src = h["violation"], h
                break
    imp = O.get("import_error") or (H or {}).get("import_error")
    code = 0
    replay = os.path.join(HERE, "replays", pid + ".json")
    if os.path.exists(replay):
        os.unlink(replay)
    known = known_findings(pid)
    lines = []
    for k in known:
        lines.append("KNOWN-FINDING: " + k)
    if viol or refuted or imp:
        code = 1
        rec = {"property": pid, "message": viol or imp or "obligation refuted", "obligations": (refuted or failed)[:20], "notes": notes[:20],
               "verifier_error": D["error"]}
        tail = ""
        if viol:
            rec["case"] = src.get("case")
            if src.get("before"):
                with open(replay, "w") as fh:
                    json.dump(rec, fh, default=str)
                p = popen(["-m", "oracle", pid, "--replay", replay], stdout=log, stderr=log)
                if wait(p, 60) and p.returncode == 0:  # not on its own: only after earlier calls
                    rec["before"] = src["before"]
        else:
            tail = " no-failing-input-found"
        with open(replay, "w") as fh:
            json.dump(rec, fh, indent=1, default=str)
        for o in (refuted or failed)[:6]:
            lines.append("failed obligation: %s / %s [%s, %s]" % (o["task"], o["name"], o["kind"], o["status"]))
        if viol:
            lines.append("failing input: %s" % viol)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, os.path.relpath(replay, HERE), tail))
    elif not proved:
        lines.append("proof not re-established (%s); bounded checks passed" % (
            D["error"] and D["error"].splitlines()[0] or "; ".join(notes[:3]) or ", ".join(sorted({o["task"] for o in failed}))[:200]))

    obs = [o for t in D["tasks"] for o in t["obligations"] if t["role"] != "bounded"]
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": len(obs), "discharged": sum(o["status"] == "discharged" for o in obs),
            "checker_cmd": "%s deduce.py %s" % (PY, pid),
            "trusted_base": TRUSTED,
            "verdict": "violation" if code else "proved" if proved else "not proved: bounded checks only",
            "functions_under_contract": sorted({"%s: %s" % (t["task"], t["function"]) for t in D["tasks"]}),
            "tasks": [{k: t.get(k) for k in ("task", "role", "ok", "paths", "secs", "unsupported", "modular_attempt")} |
                      {"obligations": len(t["obligations"])} for t in D["tasks"]],
            "callee_contracts_used": [s[0] for s in D["stubs"]],
            "helper_contracts_not_met": [t["task"] for t in D["tasks"] if t["role"] == "helper" and not t["ok"]],
            "backends": {k: {"obligations_or_subgoals": v[0], "seconds": round(v[1], 3)} if isinstance(v, (list, tuple)) else v
                         for k, v in D["stats"].items()},
            "undischarged": [{k: o.get(k) for k in ("task", "name", "kind", "status")} for o in failed[:40]],
            "vacuous_tasks": vacuous,
            "bounded_symbolic": [{"task": t["task"], "ok": t["ok"], "obligations": len(t["obligations"])} for t in D["tasks"] if t["role"] == "bounded"],
            "concrete_crosscheck": {"label": "bounded; never counted as proved", "evaluations": O["evaluations"], "distinct": O.get("distinct"),
                                    "hinted_evaluations": (H or {}).get("evaluations", 0), "errors": (O.get("errors") or []) + ((H or {}).get("errors") or [])},
            "samples": O.get("samples", [])[:3],
        },
        "assumptions": ASSUME + plan.ASSUME.get(pid, []),
        "wall_s": round(time.time() - t0, 2), "violations": int(bool(code)),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d of %d obligations discharged, %d concrete cases, %.1f s" % (
        pid, ev["coverage"]["discharged"], len(obs), O["evaluations"] + (H or {}).get("evaluations", 0), ev["wall_s"]))
    if not O["evaluations"] and not obs and not imp:
        print("nothing was checked: %s %s" % (D["error"], O["errors"]))
        return 2
    for line in lines:
        print(line)
    return code


if __name__ == "__main__":
    rc = main(sys.argv[1], sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
