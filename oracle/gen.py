"""Case generators (seeded), adversarial by construction."""
import math
import random

import numpy as np

from . import base as B
from .base import ALT, IR_U, RHO_C, TL_U, UNITS, YEAR


def loguni(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def in_units(r, value, like, mode="mix"):
    """[magnitude, unit] of an SI(default-unit) value in some compatible unit."""
    if mode == "default" or r.random() < 0.45:
        if r.random() < 0.15 and abs(value) > 3:
            return [int(round(value)), like]
        if r.random() < 0.1:
            return [{"np": "float64", "v": value}, like]
        return [value, like]
    if r.random() < 0.25:
        sc = r.choice([0.5, 2.0, 1000.0, 0.001, 3.7])
        return [value / sc, ["scaled", sc, like]]
    u = r.choice(ALT[like])
    return [B.mag(B.ur.Quantity(value, like), u), u]


def tl_values(r, stable=True, positive=False):
    v = dict(du=loguni(r, 5, 300), dl=loguni(r, 100, 6000), lambda0=loguni(r, 0.2, 4), eta=loguni(r, 0.05, 3),
             efficacy=r.choice([1.0, 1.0 + 1e-6, 1 - 1e-9, 1.5, loguni(r, 0.3, 3)]),
             a=r.choice([0.0, 0.0, 0.02, -0.03, 1e-9, r.uniform(-0.1, 0.1)]))
    if positive:
        v["a"] = 0.0
    elif not stable:
        k = r.random()
        if k < 0.1:
            v["lambda0"] = -v["lambda0"]
        elif k < 0.2:
            v["eta"] = r.choice([0.0, -v["eta"]])
        elif k < 0.3:
            v["efficacy"] = r.choice([0.0, -1.0])
        elif k < 0.4:
            v["lambda0"] = 0.0
        elif k < 0.5:
            v["dl"] = loguni(r, 0.1, 5)
    v["delta_t"] = r.choice([YEAR, YEAR / 12, 86400.0, loguni(r, 3600, YEAR)])
    if stable:
        m = 0.4 * v["du"] * RHO_C / (abs(v["lambda0"]) + v["efficacy"] * v["eta"] + 10 * abs(v["a"]))
        v["delta_t"] = min(v["delta_t"], m)
    return v


def ir_values(r):
    d1 = loguni(r, 0.3, 30)
    v = dict(q1=loguni(r, 0.05, 2), q2=loguni(r, 0.05, 2), d1=d1, d2=d1 * r.choice([1.05, 1.5, 3, loguni(r, 1.1, 200)]),
             efficacy=r.choice([1.0, 1.0 + 1e-6, 1 - 1e-7, 1.3, 0.7, loguni(r, 0.3, 3)]),
             delta_t=r.choice([1.0, 1 / 12, loguni(r, 0.001, 5), 30.0]))
    if r.random() < 0.1:
        v["q2"] = v["q1"]
    return v


def values(r, kind, **k):
    return tl_values(r, **k) if kind == "TL" else ir_values(r)


def as_params(r, kind, v, mode="mix"):
    p = {k: in_units(r, x, UNITS[kind][k], mode) for k, x in v.items()}
    for k in ("d1", "d2"):
        if k in p and isinstance(p[k][0], int):
            p[k] = [v[k], UNITS[kind][k]]
    return p


def forcing(r, n=None, nmax=300, scale=None, ints=True):
    if n is None:
        n = r.choice([1, 2, 3, 4, 7, 20, 60, r.randint(2, nmax)])
    s = scale or r.choice([1.0, 4.0, 10.0, 1.0, 4.0, 10.0, 0.05, 1e-5, 1e-8, 200.0])
    k = r.randrange(13)
    if k == 0:
        v = [0.0] * n
    elif k == 1:
        v = [s] * n
    elif k == 2:
        v = [-s] * n
    elif k == 3:
        v = [0.0] * n
        if n:
            v[r.randrange(n)] = s
    elif k == 4:
        v = [s * i / max(n, 1) for i in range(n)]
    elif k == 5 and ints:
        return {"v": [r.randint(-9, 9) for _ in range(n)], "dtype": "int64"}
    elif k == 6:
        v = [s * math.sin(i / 3) for i in range(n)]
    elif k == 7:  # quiet with isolated outliers
        v = [r.gauss(0, s) for _ in range(n)]
        for _ in range(r.choice([1, 1, 2])):
            if n:
                v[r.choice([0, n // 2, n - 1, r.randrange(n)])] = s * r.choice([-1, 1]) * r.choice([30, 3e3, 1e5])
    elif k == 8:  # many orders of magnitude
        v = [r.choice([-1, 1]) * s * 10 ** r.uniform(-9, 2) for _ in range(n)]
    elif k == 9:  # pulses, plateaus and zeros
        v, x = [], 0.0
        for _ in range(n):
            if r.random() < 0.3:
                x = r.choice([0.0, 0.0, s, -s, s * r.random()])
            v.append(x)
    elif k == 10:  # rising, then falling through zero
        v = [s * (1 - 3 * i / max(n, 1)) for i in range(n)]
    else:
        v = [r.gauss(0, s) for _ in range(n)]
    d = {"v": v}
    if r.random() < 0.2:
        d["layout"] = r.choice(["strided", "readonly", "reversed"])
    return d


def drv(r, mode="mix", **k):
    d = forcing(r, **k)
    if mode == "mix" and d.get("dtype", "float") == "float" and r.random() < 0.4:
        u = r.choice(ALT["W/m^2"] + [["scaled", 0.25, "W/m^2"]])
        f = B.mag(B.ur.Quantity(1.0, "W/m^2"), B.unit(u))
        d = dict(d, v=[x * f for x in d["v"]], u=u)
    return d


def run_case(r, kind, mode="mix", **k):
    drvk = {x: k.pop(x) for x in ("n", "nmax", "scale", "ints") if x in k}
    v = values(r, kind, **k)
    if kind == "IR":  # about 4 ms per step unless efficacy is 1
        if drvk.get("n") is None:
            drvk["nmax"] = min(drvk.get("nmax", 300), 60 if v["efficacy"] != 1 else 300)
        elif drvk["n"] > 450:
            v["efficacy"] = 1.0
    c = {"t": "run", "kind": kind, "params": as_params(r, kind, v, mode),
         "drivers": drv(r, mode, **drvk)}
    return past(r, c) if r.random() < 0.3 else c


def past(r, case):
    """Give the model of a case a past: built with some other parameters, used,
    then brought to the case's parameters by assignment."""
    kind = case["kind"]
    other = {}
    for n in r.choice([[], [r.choice(list(UNITS[kind]))], [r.choice(list(UNITS[kind]))], list(UNITS[kind])]):
        q = case["params"].get(n, B.DEFAULTS[kind][n])
        k = r.randrange(4)
        if k == 0 and isinstance(q[0], (int, float)):  # same number, other unit
            u = r.choice([x for x in ALT[UNITS[kind][n]] + [["scaled", 1.7, UNITS[kind][n]]] if x != q[1]] or [q[1]])
            other[n] = [q[0], u]
        elif k == 1:  # nearly the same
            other[n] = [float(B.scalar(q[0])) * (1 + r.choice([1e-3, -1e-2, 1e-7])), q[1]]
        else:
            v = values(r, kind)
            other[n] = in_units(r, v[n], UNITS[kind][n])
    use = [r.choice(["run", "run", "conv", "step", "derived", "drivers"]) for _ in range(r.choice([1, 1, 2, 3]))]
    return dict(case, past={"params": other, "use": use, "again": r.random() < 0.3, "late": case.get("t") == "run" and r.random() < 0.3,
                            "drivers": case["drivers"] if "drivers" in case and r.random() < 0.4 else {"v": [r.gauss(0, 4) for _ in range(r.choice([1, 3, 7]))]}})


def defaults_case(kind, n=20, v=3.7):
    return {"t": "run", "kind": kind, "params": {}, "drivers": {"v": [v] * n}}


# -- cases from verifier models --------------------------------------------------------

def _f(x):
    try:
        if "/" in x:
            a, b = x.split("/")
            return int(a) / int(b)
        return float(x)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


def hint_values(model, kind, r):
    """Parameter values (default units) and [magnitude, unit] from a verifier model."""
    g = {k: _f(v) for k, v in model.items()}
    g = {k: v for k, v in g.items() if v is not None and math.isfinite(v)}
    base = values(r, kind)
    p = as_params(r, kind, base, "default")
    for n, like in UNITS[kind].items():
        if n + "_si" in g and n in g and g[n]:
            sc = g[n + "_si"] / g[n]
            p[n] = [g[n], ["scaled", sc, like]] if sc != 1 and sc > 0 else [g[n], like]
        elif n in g and g.get("scale_" + n, 0) > 0:
            p[n] = [g[n], ["scaled", g["scale_" + n], like]]
        elif n in g:
            p[n] = [g[n], like]
    if kind == "IR" and "d2_minus_d1" in g:
        d1 = B.mag(B.Q(p["d1"]), "yr")
        S = d1 + g["d2_minus_d1"]
        p["d2"] = [g["d2"], ["scaled", S / g["d2"], "yr"]] if g.get("d2", 0) > 0 else [S, "yr"]
    if kind == "TL":
        for h, d in (("heat_capacity_upper", "du"), ("heat_capacity_lower", "dl")):
            if g.get(h, 0) > 0:
                p[d] = [g[h] / RHO_C, "m"]
    else:
        if g.get("d", 0) > 0:
            p["d1"], p["d2"] = [g["d"], "yr"], [g["d"] * 2, "yr"]
        if "q" in g:
            p["q1"] = [g["q"], IR_U["q1"]]
    return p, g


def hint_cases(hints, kinds=("TL", "IR")):
    r = random.Random(7)
    out = []
    for h in hints:
        for kind in kinds:
            if h["task"].startswith("TL") and kind == "IR" or h["task"].startswith("IR") and kind == "TL":
                continue
            if not h.get("model"):
                continue
            p, g = hint_values(h["model"], kind, r)
            case = {"t": "run", "kind": kind, "params": p, "hint": True}
            try:
                s = B.si(case)
            except Exception:
                continue
            n = g.get("n_F")
            idx = max([int(g[k]) for k in ("i", "k_step", "j", "jfin") if k in g] + [0])
            n = int(n) if n is not None else idx + 3
            n = max(1, min(n, 6000 if kind == "TL" else 1500))
            for F in (forcing(r, n=n, ints=False), {"v": [g.get("erf", g.get("F", 3.0))] * n}):
                out.append(dict(case, drivers=F))
            pre = reach(kind, s, g)
            if pre:
                f = g.get("erf", g.get("F", 1.0))
                out.append(dict(case, drivers={"v": pre + [f, f, 0.0]}))
    return out


def reach(kind, s, g):
    """Forcing that brings the model into the state of a kernel counterexample."""
    try:
        if kind == "TL":
            tu = g.get("t_upper", g.get("t_upper_prev", g.get("tu")))
            tl = g.get("t_lower", g.get("t_lower_prev", g.get("tl")))
            if tu is None or tl is None:
                return None
            Cu, Cl = B.tl_derived(s)
            dt = s["delta_t"]
            u1 = tl * Cl / (dt * s["eta"]) if tl else 0.0
            f0 = u1 * Cu / dt
            f1 = (tu - u1) * Cu / dt + (s["lambda0"] - s["a"] * u1) * u1 + s["efficacy"] * s["eta"] * u1
            v = [f0, f1]
        else:
            a, b = g.get("t1", g.get("t")), g.get("t2", g.get("t"))
            if a is None or b is None:
                return None
            M, e = [], []
            for q, d in ((s["q1"], s["d1"]), (s["q2"], s["d2"])):
                E = math.exp(-s["delta_t"] / d)
                M.append([q * (1 - E) * E, q * (1 - E)])
            v = list(map(float, np.linalg.solve(np.array(M), [a, b])))
        return v if all(math.isfinite(x) for x in v) else None
    except Exception:
        return None


def constant_cases(r, consts):
    """Inputs at, just below and just above numbers that occur in the source."""
    out = []
    for c in consts:
        for kind in ("TL", "IR"):
            for k in list(UNITS[kind]):
                if c <= 0 or c > 1e5 or k == "delta_t" and kind == "TL":
                    continue
                for x in (c, math.nextafter(c, 1e9), c * 1.001, c * 0.999):
                    v = values(r, kind)
                    v[k] = x
                    if kind == "IR" and k == "d1":
                        v["d2"] = x * 3
                    if kind == "IR" and k == "d2":
                        v["d1"] = x / 3
                    if kind == "TL" and v["delta_t"] > 0.4 * v["du"] * RHO_C / (abs(v["lambda0"]) + abs(v["efficacy"] * v["eta"]) + 1e-9):
                        v["delta_t"] = 3600.0
                    out.append({"t": "run", "kind": kind, "params": as_params(r, kind, v, "default"),
                                "drivers": forcing(r, n=6)})
            if c == int(c) and 3 <= c <= 3000:
                for n in (int(c) - 1, int(c), int(c) + 1, int(c) + 2):
                    out.append({"t": "run", "kind": kind, "params": as_params(r, kind, values(r, kind), "default"),
                                "drivers": forcing(r, n=n)})
            out.append({"t": "run", "kind": kind, "params": as_params(r, kind, values(r, kind), "default"),
                        "drivers": {"v": [c, -c, c * 1.01, 0.5 * c, -2 * c, c, 0, 0, c]}})
    r.shuffle(out)
    return out
