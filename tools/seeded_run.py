"""Run checks against the planted bugs, each in scratch copies.

    python3 tools/seeded_run.py [-p C01,C02 | -a] [-j N] [ids...]      default: the bug's own property
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props, j, ids = None, 3, []
while args:
    x = args.pop(0)
    if x == "-p":
        props = args.pop(0).split(",")
    elif x == "-a":
        props = ["C%02d" % i for i in range(1, 19)]
    elif x == "-j":
        j = int(args.pop(0))
    else:
        ids.append(x)
ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))


def one(i):
    meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    d = tempfile.mkdtemp(prefix="seedrun_", dir="/tmp")
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", os.path.join(V, "seeded", i, "patch.diff")])
        os.makedirs(d + "/verif")
        for f in os.listdir(V):
            if f not in (".git", "seeded", "work", "evidence", "replays"):
                subprocess.check_call(["cp", "-a", os.path.join(V, f), d + "/verif/"])
        for p in props or [meta["property"]]:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "check.py", p], cwd=d + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            out.append("%-28s %s exit %d  %s" % (i, p, r.returncode, " | ".join(r.stdout.strip().splitlines())[:900] + r.stderr[-200:]))
    except Exception as e:
        out.append("%s: %s" % (i, e))
    shutil.rmtree(d, ignore_errors=True)
    return out


with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids):
        for line in r:
            print(line, flush=True)
