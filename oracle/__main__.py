"""Concrete checks of one property on the unmodified code.

    python -m oracle C05 --seed 1 --budget 8 [--hints f] [--replay f] --out f
"""
import argparse
import collections
import itertools
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=float, default=8)
ap.add_argument("--tier", default="quick")
ap.add_argument("--max", type=int, default=10 ** 7)
ap.add_argument("--hints")
ap.add_argument("--replay")
ap.add_argument("--out")
a = ap.parse_args()
res = {"evaluations": 0, "violation": None, "errors": [], "samples": [], "distinct": 0}


def finish(code=0):
    if a.out:
        with open(a.out, "w") as fh:
            json.dump(res, fh, indent=1)
    sys.stdout.flush()
    os._exit(code)


try:
    from . import base, props
except BaseException as e:  # the package cannot even be imported
    traceback.print_exc()
    res["import_error"] = "%s: %s" % (type(e).__name__, e)
    finish(3)
logging.disable(logging.WARNING)
P = props.PROPS[a.prop]
if a.prop == "C10":
    base.zygote()


class Slow(Exception):
    pass


def alarm(*_):
    raise Slow()


signal.signal(signal.SIGALRM, alarm)


def evaluate(case, limit=60):
    """(message or None); exceptions out of the code under test are violations."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return P.check(case)
    except Slow:
        res["errors"].append("case took over %d s" % limit)
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.join("src", "openscm_twolayermodel") in f.filename for f in tb):
            return "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
        if len(res["errors"]) < 5:
            res["errors"].append("".join(traceback.format_exception_only(type(e), e)).strip() + " at %s:%s" % (tb[-1].filename, tb[-1].lineno))
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


if a.replay:
    rec = json.load(open(a.replay))
    case = rec["case"]
    for c in rec.get("before", []):
        evaluate(c)
    res["violation"] = evaluate(case)
    print(res["violation"] or "property holds on this input")
    finish(1 if res["violation"] else 0)

hints = json.load(open(a.hints)) if a.hints else []
r = random.Random("%s-%d" % (a.prop, a.seed))
t0 = time.time()
seen = set()
before = collections.deque(maxlen=200)  # a failure may need what earlier cases left behind


def stream():
    for k in range(6):
        try:
            yield from P.gen(r, a.tier, hints if k == 0 else [], base.source_constants())
            return
        except Exception:  # a mistake in the generator: go on with a new one
            if len(res["errors"]) < 5:
                res["errors"].append(traceback.format_exc()[-600:])


try:
    for case in itertools.islice(stream(), a.max):
        msg = evaluate(case)
        res["evaluations"] += 1
        before.append(case)
        seen.add(hash(json.dumps(case, sort_keys=True, default=str)))
        if res["evaluations"] in (2, 11, 37):
            res["samples"].append(case if len(json.dumps(case, default=str)) < 1500 else {"t": case["t"], "kind": case.get("kind"), "note": "long case"})
        if msg:
            res["violation"], res["case"], res["before"] = msg, case, list(before)[:-1]
            break
        if time.time() - t0 > a.budget:
            break
except Exception:
    res["errors"].append(traceback.format_exc()[-600:])
res["distinct"] = len(seen)
res["secs"] = round(time.time() - t0, 2)
finish(0)
