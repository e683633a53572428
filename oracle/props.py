"""Per property: case generator and decision on one case."""
import copy
import datetime as dt
import math
import os
import random
import tempfile

import numpy as np
import pint

from . import base as B, gen as G
from .base import ARR, IR_U, TL_U, UNITS, YEAR, Q, D, bad, cls, go, mag, model, otm, outputs, si, ur
from openscm_twolayermodel.errors import ModelStateError, UnitError

KINDS = ("TL", "IR")
PROPS = {}


def prop(pid, cap=None):
    def deco(c):
        PROPS[pid] = c
        return c
    return deco


def F_si(case, m=None):
    return np.atleast_1d(mag(D(case["drivers"]), "W/m^2"))


def ran(case):
    m = model(case)
    if case.get("past") and case["past"].get("late"):
        m.run()
    else:
        go(m, D(case["drivers"]))
    return m


def series(case):
    return outputs(ran(case), case["kind"])


def sane(case):
    """Numbers within the range where rounding cannot dominate."""
    try:
        s = si(case)
    except Exception:
        return False
    vals = list(s.values()) + [x for x in case.get("drivers", {}).get("v", []) if x is not None]
    for q in case["params"].values():
        m = B.scalar(q[0])
        vals.append(float(m))
        if isinstance(q[1], list):
            vals.append(q[1][1])
    return all(math.isfinite(x) and (x == 0 or 1e-9 <= abs(x) <= 1e12) for x in vals)


def valid(case):
    if case.get("hint") and not sane(case):
        return False
    s = si(case)
    if case["kind"] == "TL":
        return s["du"] > 0 and s["dl"] > 0 and s["delta_t"] > 0
    return s["q1"] > 0 and s["q2"] > 0 and s["efficacy"] > 0 and 0 < s["d1"] < s["d2"] and s["delta_t"] > 0


def run_gen(kinds, **kw):
    def g(r, tier, hints, consts):
        for c in G.hint_cases(hints, kinds):
            if valid(c):
                yield c
        for k in kinds:
            yield G.defaults_case(k)
            for n in (0, 1, 2, 3):
                yield G.run_case(r, k, n=n, **kw)
        cc = [c for c in G.constant_cases(r, consts) if c["kind"] in kinds]
        big = [400, 1500] if tier == "quick" else [400, 1500, 4000, 20000]
        i = 0
        while True:
            i += 1
            if cc and i % 3 == 0:
                c = cc.pop()
            elif i % 25 == 0 and big:
                c = G.run_case(r, r.choice(kinds), n=big.pop(0), **kw)
            else:
                c = G.run_case(r, r.choice(kinds), **kw)
            if valid(c):
                yield c
    return g


class C01:
    gen = staticmethod(run_gen(("TL",), stable=False))

    @staticmethod
    def check(case):
        s, F = si(case), F_si(case)
        tu, tl, rn = series(case)
        return B.check_tl_temps(s, F, tu, tl)


class C02:
    gen = staticmethod(run_gen(("TL",), stable=False))

    @staticmethod
    def check(case):
        s, F = si(case), F_si(case)
        tu, tl, rn = series(case)
        return B.check_tl_uptake(s, F, tu, tl, rn)


class C03:
    base_gen = staticmethod(run_gen(("IR",)))

    @staticmethod
    def gen(r, tier, hints, consts):
        i = 0
        for c in C03.base_gen(r, tier, hints, consts):
            yield c
            i += 1
            if i % 5 == 0:
                d = G.run_case(r, "IR", n=r.choice([2, 5, 12]))
                d["drivers"] = {"v": [r.uniform(-5, 5)] * len(d["drivers"]["v"])}
                yield dict(d, t="const", split=r.choice([2, 3, 7]))
            if i % 20 == 0:
                yield dict(small_scen(r, "IR"), t="sum")

    @staticmethod
    def check(case):
        if case["t"] == "sum":
            m = scen_model(case)
            out = m.run_scenarios(scen_input(case), driver_var=case["driver_var"], progress=False).timeseries().reset_index()
            tot = out[out["variable"] == "Surface Temperature"]
            for _, row in tot.iterrows():
                sel = out[(out["scenario"] == row["scenario"]) & (out["model"] == row["model"])]
                parts = [sel[sel["variable"] == "Surface Temperature|Box %d" % k] for k in (1, 2)]
                if any(len(p) != 1 for p in parts):
                    continue
                for t in scen_times(case):
                    if t not in out.columns:
                        continue
                    a, b = (float(p.iloc[0][t]) for p in parts)
                    if not math.isnan(a) and bad(float(row[t]), a + b, abs(a) + abs(b), 1e-12):
                        return "surface temperature %r is not the sum of the boxes %r + %r" % (float(row[t]), a, b)
            return None
        s, F = si(case), F_si(case)
        m = ran(case)
        t1, t2, rn = outputs(m, "IR")
        r = B.check_ir_temps(s, F, t1, t2)
        if r or case["t"] != "const":
            return r
        k, n, f = case["split"], len(F), float(F[0]) if len(F) else 0.0
        for x, q, d, nm in ((t1, s["q1"], s["d1"], "box 1"), (t2, s["q2"], s["d2"], "box 2")):
            for j in range(n):
                w = -q * f * math.expm1(-j * s["delta_t"] / d)
                if bad(x[j], w, abs(q * f)):
                    return "%s after %d steps of constant forcing is %r, expected %r" % (nm, j, float(x[j]), w)
        m.delta_t = m.delta_t / k
        go(m, ur.Quantity(np.full((n - 1) * k + 1, f), "W/m^2"))
        u1, u2, _ = outputs(m, "IR")
        for a, b, q in ((t1, u1, s["q1"]), (t2, u2, s["q2"])):
            if len(b) != (n - 1) * k + 1 or bad(b[-1], a[-1], abs(q * f)):
                return "dividing each step in %d changes the result" % k
        return None


class C04:
    gen = staticmethod(run_gen(("IR",)))

    @staticmethod
    def check(case):
        s, F = si(case), F_si(case)
        t1, t2, rn = series(case)
        return B.check_ir_uptake(s, F, t1, t2, rn)


def upto(a, b, i, what):
    for nm, x, y in zip(("first temperature", "second temperature", "heat uptake"), a, b):
        sc = np.nanmax(np.abs(np.concatenate([x, y, [0.0]])))
        for j in range(i):
            if j >= len(x) or j >= len(y):
                return "%s: %s has no entry %d" % (what, nm, j)
            if bad(float(x[j]), float(y[j]), 1e-4 * sc, 1e-9):
                return "%s changes %s[%d]: %r instead of %r" % (what, nm, j, float(x[j]), float(y[j]))
    return None


class C05:
    @staticmethod
    def gen(r, tier, hints, consts):
        g = run_gen(KINDS)
        for c in g(r, tier, hints, consts):
            n = len(c["drivers"]["v"])
            yield dict(c, t="pair", i=r.choice([0, n // 2, n - 1, r.randrange(n)]) if n else 0,
                       tail=[r.gauss(0, 20) for _ in range(r.choice([0, 1, 5]))])

    @staticmethod
    def check(case):
        kind, F, i = case["kind"], F_si(case), case["i"]
        a = series(case)
        for nm, x in zip(("first temperature", "second temperature", "heat uptake"), a):
            if len(x) and x[0] != 0:
                return "%s at the first point is %r" % (nm, float(x[0]))
        n = len(F)
        rr = random.Random(i + n)
        for what, H in (("changing the forcing from %d on" % i, np.concatenate([F[:i], [rr.gauss(0, 30) for _ in range(n - i)]])),
                        ("cutting the forcing off after %d" % i, F[:i + 1]),
                        ("extending the series", np.concatenate([F, case["tail"]]))):
            m = model(case)
            go(m, ur.Quantity(np.asarray(H, dtype=float), "W/m^2"))
            r = upto(a, outputs(m, kind), n if what.startswith("ext") else min(i + 1, n), what)
            if r:
                return r
        return None


def conv_gen(kind):
    def g(r, tier, hints, consts):
        for h in hints:
            for k in ((kind,) if kind else KINDS):
                if h.get("model"):
                    for q in range(2):
                        p, gg = G.hint_values(h["model"], k, r)
                        if k == "TL" and h["task"] != "TL.get_impulse_response_parameters:a":
                            p["a"] = [0.0, TL_U["a"]]
                        c = {"t": "conv", "kind": k, "params": p, "hint": True}
                        if sane(c) and (k == "IR" and valid(c) or k == "TL" and all(
                                si(c)[x] > 0 for x in ("du", "dl", "lambda0", "eta", "efficacy"))):
                            yield c
        cc = [c for c in G.constant_cases(r, consts) if c["kind"] == (kind or c["kind"])]
        for k in ((kind,) if kind else KINDS):
            yield {"t": "conv", "kind": k, "params": {}}
        i = 0
        while True:
            i += 1
            k = kind or r.choice(KINDS)
            if i % 4 == 0 and cc:
                c = cc.pop()
                c["params"]["a"] = [0.0, TL_U["a"]]
                if c["kind"] == "IR":
                    del c["params"]["a"]
                if valid(c):
                    yield dict(c, t="conv")
                continue
            if k == "TL":
                v = G.tl_values(r, positive=True)
                v["efficacy"] = r.choice([1.0, v["efficacy"]])
                c = {"t": "conv", "kind": k, "params": G.as_params(r, k, v)}
                yield G.past(r, c) if i % 3 == 1 else c
                if kind == "TL" and i % 3 == 0:
                    v["a"] = r.choice([1e-3, -1e-3, 1e-6, 1e-9, -1e-12, 1e-15, 1e-30, 1.0, -2.0])
                    p = G.as_params(r, k, v)
                    c = {"t": "conv-a", "kind": k, "params": p}
                    yield G.past(r, c) if r.random() < 0.4 else c
            else:
                c = {"t": "conv", "kind": k, "params": G.as_params(r, k, G.ir_values(r))}
                yield G.past(r, c) if i % 3 == 1 else c
    return g


def check_tl2ir(case):
    s = si(case)
    m = model(case)
    out = m.get_impulse_response_parameters()
    if set(out) != {"d1", "d2", "q1", "q2", "efficacy"}:
        return "keys %s" % sorted(out)
    e = B.tl_equiv(s)
    v = {k: mag(out[k], IR_U[k]) for k in out}
    tol = 1e-9 + 1e-14 * e["cond"]
    if tol > 1e-2:
        return None
    if v["efficacy"] != s["efficacy"]:
        return "efficacy %r became %r" % (s["efficacy"], v["efficacy"])
    for k in ("d1", "d2", "q1", "q2"):
        if bad(v[k], e[k], e[k], tol):
            return "%s is %r %s, the equivalent system has %r" % (k, v[k], IR_U[k], e[k])
    if bad(v["q1"] + v["q2"], 1 / s["lambda0"], 0, tol):
        return "q1 + q2 = %r, 1/lambda0 = %r" % (v["q1"] + v["q2"], 1 / s["lambda0"])
    if not 0 < v["d1"] < v["d2"]:
        return "timescales %r, %r" % (v["d1"], v["d2"])
    otm.ImpulseResponseModel(**out)
    return None


class C06:
    gen = staticmethod(conv_gen("TL"))

    @staticmethod
    def check(case):
        if case["t"] == "conv-a" or si(case)["a"] != 0:
            m = model(case)
            try:
                m.get_impulse_response_parameters()
            except ValueError:
                return None
            return "a = %s accepted" % m.a
        return check_tl2ir(case)


class C07:
    gen = staticmethod(conv_gen(None))

    @staticmethod
    def check(case):
        s = si(case)
        m = model(case)
        if case["kind"] == "IR":
            out = m.get_two_layer_parameters()
            if set(out) != {"lambda0", "du", "dl", "eta", "efficacy"}:
                return "keys %s" % sorted(out)
            e = B.ir_equiv(s)
            tol = 1e-9 + 1e-14 * e["cond"]
            v = {k: mag(out[k], TL_U[k]) for k in out}
            for k, w in (("lambda0", e["lam"]), ("du", e["C"] / B.RHO_C), ("dl", e["CD"] / B.RHO_C), ("eta", e["eta"])):
                if bad(v[k], w, w, tol) or not v[k] > 0:
                    return "%s is %r %s, the equivalent system has %r" % (k, v[k], TL_U[k], w)
            if v["efficacy"] != s["efficacy"]:
                return "efficacy %r became %r" % (s["efficacy"], v["efficacy"])
            e2 = B.tl_equiv(dict(v, a=0.0))
            tol = 1e-8 + 1e-13 * e["cond"] * e2["cond"]
            if tol > 1e-3:
                return None
            back = otm.TwoLayerModel(**out).get_impulse_response_parameters()
            for k in ("q1", "q2", "d1", "d2", "efficacy"):
                if bad(mag(back[k], IR_U[k]), s[k], s[k], tol):
                    return "round trip turned %s = %r %s into %r" % (k, s[k], IR_U[k], mag(back[k], IR_U[k]))
            return None
        if s["a"] != 0:
            return None
        e = B.tl_equiv(s)
        tol = 1e-8 + 1e-13 * e["cond"] ** 2
        if tol > 1e-3:
            return None
        back = otm.ImpulseResponseModel(**m.get_impulse_response_parameters()).get_two_layer_parameters()
        for k in ("du", "dl", "lambda0", "eta", "efficacy"):
            if bad(mag(back[k], TL_U[k]), s[k], s[k], tol):
                return "round trip turned %s = %r %s into %r" % (k, s[k], TL_U[k], mag(back[k], TL_U[k]))
        return None


def same_q(a, b):
    return str(a.units) == str(b.units) and np.array_equal(np.asarray(a.magnitude), np.asarray(b.magnitude), equal_nan=True)


def derived(m, kind):
    """Everything computed from parameters, in default units."""
    out = {}
    if kind == "TL":
        out["heat_capacity_upper"] = mag(m.heat_capacity_upper, "J/delta_degC/m^2")
        out["heat_capacity_lower"] = mag(m.heat_capacity_lower, "J/delta_degC/m^2")
        s = {k: mag(getattr(m, k), u) for k, u in TL_U.items()}
        if s["a"] == 0 and all(s[k] > 0 for k in ("lambda0", "eta", "efficacy")):
            p = m.get_impulse_response_parameters()
            out.update({"ir " + k: mag(v, IR_U[k]) for k, v in p.items()})
    else:
        p = m.get_two_layer_parameters()
        out.update({"tl " + k: mag(v, TL_U[k]) for k, v in p.items()})
    return out


class C08:
    @staticmethod
    def gen(r, tier, hints, consts):
        for c in G.hint_cases(hints):
            if valid(c):
                yield dict(c, t="units", assign=[])
        i = 0
        for kind in KINDS:
            for name, like in UNITS[kind].items():
                for u in ALT_all(like):
                    v = G.values(r, kind, **({"positive": True} if kind == "TL" else {}))
                    p = G.as_params(r, kind, v, "default")
                    f = mag(ur.Quantity(1.0, like), B.unit(u))
                    p[name] = [v[name] * f, u]
                    yield {"t": "units", "kind": kind, "params": p, "drivers": G.forcing(r, n=8), "assign": []}
                    yield {"t": "units", "kind": kind, "params": G.as_params(r, kind, v, "default"),
                           "drivers": G.forcing(r, n=8), "assign": [[name, p[name]]]}
        while True:
            kind = r.choice(KINDS)
            c = G.run_case(r, kind, nmax=40, **({"positive": r.random() < 0.5} if kind == "TL" else {}))
            ass = []
            for _ in range(r.choice([0, 1, 3, 6])):
                k = r.choice(list(UNITS[kind]))
                v = G.values(r, kind, **({"positive": True} if kind == "TL" else {}))
                if k in ("d1", "d2"):
                    s = si(c)
                    v[k] = s[k] * r.uniform(0.97, 1.02)
                q = G.in_units(r, v[k], UNITS[kind][k])
                if r.random() < 0.2:  # a very small change
                    q = G.in_units(r, mag(Q(dict(B.full_params(c), **dict(ass))[k]), UNITS[kind][k]) * (1 + 10 ** -r.uniform(2, 7.3)), UNITS[kind][k])
                elif r.random() < 0.3:  # the same number in another unit
                    old = dict(B.full_params(c), **dict(ass))[k]
                    us = [u for u in ALT_all(UNITS[kind][k]) if 0.02 < mag(ur.Quantity(1.0, B.unit(u)), UNITS[kind][k]) / max(
                        mag(ur.Quantity(1.0, B.unit(old[1])), UNITS[kind][k]), 1e-300) < 50]
                    if isinstance(old[0], (int, float)) and us and k not in ("d1", "d2"):
                        q = [old[0], r.choice(us)]
                ass.append([k, q])
            c.pop("past", None)
            yield dict(c, t="units", assign=ass, between=r.choice([None, "run", "derived"]))

    @staticmethod
    def check(case):
        kind = case["kind"]
        m = model(case)
        cur = {k: Q(v) for k, v in B.full_params(case).items()}
        for k, q in case["assign"]:
            if case.get("between") == "run":
                go(m, D(case["drivers"]))
            if case.get("between"):
                try:
                    derived(m, kind)
                except (ValueError, ZeroDivisionError):
                    pass
            q = Q(q)
            setattr(m, k, q)
            cur[k] = q
            if not same_q(getattr(m, k), q):
                return "%s assigned %s reads back %s" % (k, q, getattr(m, k))
        for k, q in cur.items():
            if k in case["params"] or any(a[0] == k for a in case["assign"]):
                if not same_q(getattr(m, k), q):
                    return "%s given as %s reads back %s" % (k, q, getattr(m, k))
        s = {k: mag(q, UNITS[kind][k]) for k, q in cur.items()}
        if kind == "IR" and not s["d1"] < s["d2"]:
            return None
        ref = cls(kind)(**{k: ur.Quantity(x, UNITS[kind][k]) for k, x in s.items()})
        F = D(case["drivers"])
        go(m, F)
        if not same_q(m.erf, F):
            return "drivers do not read back as given"
        go(ref, ur.Quantity(np.asarray(F_si(case), dtype=float), "W/m^2"))
        cond = B.ir_equiv(s)["cond"] ** 2 if kind == "IR" else 1
        for nm, x, y in zip(("first temperature", "second temperature", "heat uptake"), outputs(m, kind), outputs(ref, kind)):
            if len(x) != len(y):
                return "%s has %d entries instead of %d" % (nm, len(x), len(y))
            ok = np.isfinite(y) & (np.abs(y) < 1e6)
            sc = np.max(np.abs(np.append(y[ok], 0.0)))
            if sc > 1e3:
                continue
            for j in range(len(x)):
                if ok[j] and bad(float(x[j]), float(y[j]), sc + (np.max(np.abs(F_si(case))) if nm == "heat uptake" else 0), 1e-8 + 1e-14 * cond):
                    return "%s[%d] is %r, in default units %r" % (nm, j, float(x[j]), float(y[j]))
        a, b = derived(m, kind), derived(ref, kind)
        if kind == "TL" and "ir d1" in b:
            cond = B.tl_equiv(s)["cond"]
        for k in b:
            if k not in a or bad(a[k], b[k], b[k], 1e-8 + 1e-13 * cond):
                return "%s is %r, in default units %r" % (k, a.get(k), b[k])
        if kind == "TL":
            for nm, d in (("upper", "du"), ("lower", "dl")):
                if bad(a["heat_capacity_" + nm], s[d] * B.RHO_C, 0):
                    return "heat capacity of the %s layer is %r, expected %r" % (nm, a["heat_capacity_" + nm], s[d] * B.RHO_C)
        return None


def ALT_all(like):
    return B.ALT[like] + [["scaled", 3.7, like], ["scaled", 1e-3, like], ["scaled", 1e3, like]]


NONQ = {"int": 3, "float": 2.5, "zero": 0, "str": "5 m", "None": None, "list": [1.0, 2.0], "bool": True, "npfloat": np.float64(2.0),
        "nparray": np.arange(3.0), "array0": np.array(2.0), "tuple": (1.0, "m"), "complex": 1j, "dict": {"magnitude": 1}}


class Duck:
    """Looks like a quantity, is none."""
    magnitude, m, units, u, dimensionality, shape = 1.0, 1.0, "m", "m", "[length]", (3,)

    def to(self, *a):
        return self

    def check(self, *a):
        return True

    def is_compatible_with(self, *a):
        return True

    def __len__(self):
        return 3


def bad_value(k):
    if k == "duck":
        return Duck()
    if k == "Unit":
        return ur.Unit("m")
    return NONQ[k]


WRONG = ["m", "kg", "s", "kelvin", "W", "mol", "dimensionless", "W/m^2", "W/m^2/delta_degC", "W/m^2/delta_degC^2",
         "delta_degC/(W/m^2)", "yr", "ppm", "GtC", "m^2", "1/m", "W/m", "1/yr", "1/dimensionless", "J/m^2", "W/m^3", "degC", "kg CO2", "m*s"]


def wrong_units(like):
    d = ur.Unit(like).dimensionality
    out = []
    for u in WRONG:
        try:
            if ur.Unit(u).dimensionality != d:
                out.append(u)
        except Exception:
            pass
    return out


def state(m, kind):
    out = {}
    for k in list(UNITS[kind]) + ["erf"]:
        v = getattr(m, k)
        out[k] = (str(v.units), np.array(v.magnitude, copy=True)) if hasattr(v, "magnitude") else ("", np.array(v, copy=True))
    for a in ARR[kind]:
        out[a] = ("", np.array(getattr(m, a), dtype=float))
    out["idx"] = ("", np.array(m._timestep_idx, dtype=float))
    return out


def state_diff(a, b):
    for k in a:
        if a[k][0] != b[k][0] or not np.array_equal(a[k][1], b[k][1], equal_nan=True):
            return "%s: %s -> %s" % (k, a[k], b[k])
    return None


class C09:
    @staticmethod
    def gen(r, tier, hints, consts):
        todo = []
        for kind in KINDS:
            for name in list(UNITS[kind]) + ["erf"]:
                for v in list(NONQ) + ["duck", "Unit"]:
                    todo.append((kind, name, ["non", v]))
                for u in wrong_units(B.ERF if name == "erf" else UNITS[kind][name]):
                    todo.append((kind, name, ["unit", u]))
        r.shuffle(todo)
        while True:
            for kind, name, v in todo:
                c = G.run_case(r, kind, nmax=12)
                yield dict(c, t="reject", name=name, value=v, life=r.choice(["new", "set", "ran", "mid"]),
                           magn=r.choice([1.0, 0.0, -2.5, 1000.0, 3]))

    @staticmethod
    def check(case):
        kind, name, (how, v) = case["kind"], case["name"], case["value"]
        exc = TypeError if how == "non" else UnitError
        if how == "non":
            val = bad_value(v)
        else:
            x = case["magn"]
            val = ur.Quantity(np.full(4, float(x)), v) if name == "erf" else ur.Quantity(x, v)
        desc = "%s = %s" % (name, v if how == "non" else "%s %s" % (case["magn"], v))
        if name != "erf":
            try:
                cls(kind)(**dict({k: Q(q) for k, q in case["params"].items()}, **{name: val}))
                return "constructor accepted %s" % desc
            except exc:
                pass
            except Exception as e:
                return "constructor with %s raised %s instead of %s: %s" % (desc, type(e).__name__, exc.__name__, e)
        m, twin = model(case), model(case)
        F = D(case["drivers"])
        for x in (m, twin):
            if case["life"] in ("set", "ran", "mid"):
                x.set_drivers(F)
            if case["life"] == "ran":
                x.reset()
                x.run()
            if case["life"] == "mid":
                x.reset()
                for _ in range(min(2, len(case["drivers"]["v"]))):
                    x.step()
        before = state(m, kind)
        attempts = [("assigning", lambda: setattr(m, name, val), exc)]
        if name == "erf":
            strict = how == "unit" or isinstance(val, np.ndarray) and val.ndim == 1
            attempts.append(("set_drivers with", lambda: m.set_drivers(val), exc if strict else Exception))
        for what, f, e in attempts:
            try:
                f()
                return "%s %s was accepted" % (what, desc)
            except e:
                pass
            except Exception as x:
                return "%s %s raised %s instead of %s" % (what, desc, type(x).__name__, exc.__name__)
            d = state_diff(before, state(m, kind))
            if d:
                return "%s %s was rejected but changed the model: %s" % (what, desc, d)
        for x in (m, twin):
            if case["life"] in ("new", "set", "ran"):
                go(x, F)
            else:
                while not (x._timestep_idx >= len(case["drivers"]["v"]) - 1) and len(case["drivers"]["v"]):
                    x.step()
        d = state_diff(state(twin, kind), state(m, kind))
        if d:
            return "after rejected %s a later run differs: %s" % (desc, d)
        if kind == "TL":
            for p in ("heat_capacity_upper", "heat_capacity_lower"):
                if not same_q(getattr(m, p), getattr(twin, p)):
                    return "after rejected %s %s differs" % (desc, p)
        return None


def rand_op(r, kind, s, depth=0):
    k = r.randrange(14)
    if k < 4:
        n = r.choice(list(UNITS[kind]))
        v = G.values(r, kind)
        if n == "d1":
            v[n] = r.uniform(0.5, 8)
        if n == "d2":
            v[n] = r.uniform(9, 300)
        if n == "a":
            v[n] = r.choice([0.0, 0.0, 0.01])
        if kind == "TL" and n in ("delta_t",):
            v[n] = r.choice([3600.0, 86400.0, YEAR / 12])
        return ["set", n, G.in_units(r, v[n], UNITS[kind][n])]
    if k == 4:
        n = r.choice(list(UNITS[kind]) + ["erf"])
        return ["badset", n, r.choice(list(NONQ))]
    if k == 5:
        n = r.choice(list(UNITS[kind]))
        return ["badunit", n, r.choice(wrong_units(UNITS[kind][n])), r.choice([1.0, 7.0])]
    if k in (6, 7):
        d = G.drv(r, n=r.choice([0, 1, 2, 5, 9, 14]))
        if s and r.random() < 0.3:
            d = variant(r, s)
        if r.random() < 0.15 and d["v"] and d.get("dtype") is None:
            d["v"][r.randrange(len(d["v"]))] = None
        return ["drivers", d]
    if k == 8:
        return ["baddrivers", r.choice(["2d", "0d", "unit", "array", "3d"])]
    if k == 9:
        return ["reset"]
    if k == 10:
        return ["run"]
    if k == 11:
        return ["step", r.choice([1, 1, 2, 4])]
    if k == 12:
        return ["conv"]
    if depth == 0:
        return ["other", rand_op(r, r.choice(KINDS), s, 1)] if r.random() < 0.8 else ["scen", r.randrange(10 ** 6)]
    return ["reset"]


def variant(r, d):
    """Drivers that resemble d: same numbers in another unit, one value changed, cut, reversed, other dtype."""
    d = copy.deepcopy(d)
    k = r.randrange(5)
    if k == 0:
        d["u"] = r.choice([u for u in B.ALT["W/m^2"] + [["scaled", 0.25, "W/m^2"]] if u != d.get("u", "W/m^2")])
    elif k == 1 and d["v"] and d.get("dtype") is None:
        d["v"][r.randrange(len(d["v"]))] = r.gauss(0, 5)
    elif k == 2:
        d["v"] = d["v"][:-1]
    elif k == 3:
        d["v"] = d["v"][::-1]
    elif d.get("dtype") is None:
        d["v"] = [x * (1 + 1e-6) for x in d["v"]]
    return d


def do_op(m, kind, cur, op, others):
    k = op[0]
    try:
        if k == "set":
            q = Q(op[2])
            setattr(m, op[1], q)
            cur[op[1]] = op[2]
        elif k == "badset":
            setattr(m, op[1], bad_value(op[2]))
        elif k == "badunit":
            setattr(m, op[1], ur.Quantity(op[3], op[2]))
        elif k == "drivers":
            m.set_drivers(D(op[1]))
        elif k == "baddrivers":
            v = {"2d": lambda: ur.Quantity(np.ones((2, 2)), B.ERF), "0d": lambda: ur.Quantity(np.array(3.0), B.ERF),
                 "3d": lambda: ur.Quantity(np.ones((1, 2, 2)), B.ERF),
                 "unit": lambda: ur.Quantity(np.ones(3), "m"), "array": lambda: np.ones(3)}[op[1]]()
            m.set_drivers(v)
        elif k == "reset":
            m.reset()
        elif k == "run":
            m.run()
        elif k == "step":
            for _ in range(op[1]):
                m.step()
        elif k == "conv":
            m.get_impulse_response_parameters() if kind == "TL" else m.get_two_layer_parameters()
        elif k == "scen":
            c = small_scen(random.Random(op[1]), kind)
            m.run_scenarios(scen_input(c), progress=False)
            q = expected_step(scen_times(c))
            cur["delta_t"] = [float(q.magnitude), str(q.units)]
        elif k == "other":
            for o, ok, oc in others:
                do_op(o, ok, oc, op[1], [])
    except (ModelStateError, IndexError, TypeError, ValueError, AssertionError, AttributeError, NotImplementedError,
            pint.errors.PintError, ZeroDivisionError, KeyError):
        pass


def plain_history(r, kind):
    """A history over a handful of round numbers."""
    def par(n):
        o = {"du": [50, 100, 25], "dl": [50, 100, 600], "lambda0": [0.0, 0.0, 1.0], "a": [0.0], "efficacy": [1.0, 2.0], "eta": [0.0, 0.0, 1.0],
             "q1": [0.5, 1.0, 0.25], "q2": [0.5, 1.0, 0.25], "d1": [1.0, 2.0], "d2": [4.0, 8.0]}
        if n == "delta_t":
            return [r.choice([1.0, 2.0, 0.5]), "yr"]
        return [float(r.choice(o[n])), UNITS[kind][n]]

    def F():
        n = r.choice([1, 2, 3, 4])
        return {"v": r.choice([[float(r.choice([-1, 0, 0.5, 1, 2])) for _ in range(n)], [r.choice([0.5, 1.0, 2.0])] * n])}
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        ops += [["drivers", F()], ["reset"], r.choice([["run"], ["run"], ["step", 2]])]
        ops += [["set", n, par(n)] for n in r.sample(list(UNITS[kind]), r.choice([0, 1, 2]))]
    return {"t": "hist", "kind": kind, "params": {n: par(n) for n in UNITS[kind]}, "drivers": F(), "ops": ops, "same": r.random() < 0.3}


class C10:
    @staticmethod
    def gen(r, tier, hints, consts):
        lens = [int(c) for c in consts if c == int(c) and 3 < c < 3000]
        i = 0
        while True:
            i += 1
            kind = r.choice(KINDS)
            c = G.run_case(r, kind, nmax=15)
            c.pop("past", None)
            if i % 16 == 9 and lens and i > 40:  # lengths which the source mentions
                n = lens[(i // 16) % len(lens)] + r.choice([-1, 0, 1, 2])
                d = G.forcing(r, n=n)
                if kind == "TL":
                    c["params"]["delta_t"] = [3600.0, "s"]
                else:
                    c["params"]["d1"], c["params"]["d2"] = [r.uniform(0.5, 8), "yr"], [r.uniform(9, 300), "yr"]
                yield dict(c, t="hist", drivers=d, ops=[["drivers", {"v": d["v"][::-1]}], ["reset"], ["run"]], same=False)
                continue
            if i % 8 == 6:  # few distinct numbers, so that values recur
                for _ in range(12):
                    yield plain_history(r, r.choice(KINDS))
                continue
            if kind == "IR":
                c["params"]["d1"], c["params"]["d2"] = [r.uniform(0.5, 8), "yr"], [r.uniform(9, 300), "yr"]
            if i % 4 == 1:  # a look-alike of the final drivers just before them
                seq = [["drivers", variant(r, c["drivers"])]] + r.choice([[], [["reset"]], [["reset"], ["run"]], [["reset"], ["step", 2]]])
                if kind == "TL":
                    c["params"]["delta_t"] = [3600.0, "s"]
                yield dict(c, t="hist", ops=seq, same=r.random() < 0.3)
                continue
            if i % 4 == 3:
                k = r.choice([x for x in UNITS[kind] if x != "delta_t"])
                if kind == "IR" and r.random() < 0.7:
                    c["params"]["efficacy"] = [r.choice([0.7, 1.3, 2.0]), "dimensionless"]
                v = (c["params"].get(k) or B.DEFAULTS[kind][k])
                v = [float(B.scalar(v[0])) * r.choice([1.01, 0.8, 1.0, 1.0 + 1e-9]), r.choice([u for u in B.ALT.get(UNITS[kind][k], [UNITS[kind][k]])] + [v[1]] * 3)]
                if kind == "TL":
                    c["params"]["delta_t"] = [3600.0, "s"]
                yield dict(c, t="hist", ops=[rand_op(r, kind, c["drivers"]) for _ in range(r.choice([0, 0, 1, 3]))], same=False, sib={k: v}, alone=True)
                continue
            if kind == "TL":
                c["params"]["delta_t"] = [3600.0, "s"]
                c["params"]["a"] = [r.choice([0.0, 0.01]), TL_U["a"]]
            yield dict(c, t="hist", ops=[rand_op(r, kind, c["drivers"]) for _ in range(r.choice([1, 2, 4, 8, 15]))],
                       same=r.random() < 0.3)

    @staticmethod
    def check(case):
        kind = case["kind"]
        m = model(case)
        others = [(model(case), kind, {}), (cls("IR" if kind == "TL" else "TL")(), "IR" if kind == "TL" else "TL", {})]
        go(others[0][0], ur.Quantity(np.array([1.0, 2.0, 3.0]), B.ERF))
        quiet = model(case)
        go(quiet, D(case["drivers"]))
        qstate = state(quiet, kind)
        cur = dict(B.full_params(case))
        if case["same"]:
            go(m, D(case["drivers"]))
        if case.get("sib"):  # another model that differs in one parameter
            try:
                p = dict(case["params"])
                p.update(case["sib"])
                go(model(dict(case, params=p)), D(case["drivers"]))
            except ValueError:
                pass
        for op in case["ops"]:
            do_op(m, kind, cur, op, others)
        F = D(case["drivers"])
        keep = np.array(F.magnitude, copy=True)
        go(m, F)
        a = outputs(m, kind)
        if not np.array_equal(keep, F.magnitude):
            return "the run modified the caller's driver array"
        if case.get("alone"):
            b = B.pristine(dict(kind=kind, params=cur, drivers=case["drivers"]))
            if isinstance(b, list):
                r = same_out(a, b, "the run differs from that of a model in a fresh process")
                if r:
                    return r
        fresh = cls(kind)(**{k: Q(v) for k, v in cur.items()})
        go(fresh, D(case["drivers"]))
        b = outputs(fresh, kind)
        r = same_out(a, b, "the run differs from a fresh model's")
        if r:
            return r
        m.reset()
        m.run()
        r = same_out(outputs(m, kind), a, "repeating reset and run gives a different result")
        if r:
            return r
        d = state_diff(qstate, state(quiet, kind))
        if d:
            return "another model instance changed: %s" % d
        third = model(case)
        go(third, D(case["drivers"]))
        r = same_out(outputs(third, kind), outputs(quiet, kind), "a model built later behaves differently from one built before")
        return r


def same_out(a, b, what, rtol=1e-9):
    for nm, x, y in zip(("first temperature", "second temperature", "heat uptake"), a, b):
        if len(x) != len(y):
            return "%s: %s has %d entries, not %d" % (what, nm, len(x), len(y))
        ok = np.isfinite(y)
        sc = np.max(np.abs(np.append(y[ok], 0.0)))
        for j in range(len(x)):
            if bad(float(x[j]), float(y[j]), 1e-3 * sc if sc < 1e6 else sc, rtol):
                return "%s: %s[%d] is %r, not %r" % (what, nm, j, float(x[j]), float(y[j]))
    return None


class C11:
    @staticmethod
    def gen(r, tier, hints, consts):
        lens = [0, 1, 2, 3, 5, 13] + [int(c) + k for c in consts if c == int(c) and 3 < c < 1500 for k in (0, 2)] + [100, 731]
        for h in hints:
            if h.get("model"):
                n = [G._f(h["model"][k]) for k in h["model"] if k in ("n_F", "n", "n_oldh")]
                lens += [int(x) for x in n if x is not None and 0 <= x < 3000]
        for n in lens:
            for kind in KINDS:
                yield {"t": "drv", "kind": kind, "drivers": dict(G.forcing(r, n=n)), "before": None, "seed": 1}
                if n:  # a run of the same length came before
                    yield {"t": "drv", "kind": kind, "drivers": dict(G.forcing(r, n=n)), "before": n, "seed": 1}
                if n > 50:  # one missing value far into a long series
                    for k in (n - 1, n // 2):
                        d = G.forcing(r, n=n, ints=False)
                        d["v"][k] = None
                        yield {"t": "drv", "kind": kind, "drivers": d, "before": None, "seed": 1}
        for kind in KINDS:
            yield {"t": "never", "kind": kind}
            for nd, shape in ((0, None), (2, [2, 2]), (2, [1, 4]), (2, [4, 1]), (2, [0, 3]), (3, [1, 2, 2]), (2, [1, 1]), (3, [1, 1, 1])):
                for prev in (True, False):
                    n = int(np.prod(shape)) if shape else 1
                    yield {"t": "nd", "kind": kind, "drivers": dict(v=[1.0 + i for i in range(n)], nd=nd, shape=shape), "prev": prev}
        while True:
            kind = r.choice(KINDS)
            n = r.choice([1, 2, 3, 4, 8, 30])
            d = G.drv(r, n=n)
            if r.random() < 0.55 and d.get("dtype") is None:
                for i in set([r.choice([0, n - 1, r.randrange(n)])] + [r.randrange(n) for _ in range(r.choice([0, 0, 1, n]))]):
                    d["v"][i] = None
            elif r.random() < 0.1 and d.get("dtype") is None:  # not missing: reset must take them
                for i in {r.randrange(n) for _ in range(r.choice([1, 1, n]))}:
                    d["v"][i] = r.choice([math.inf, -math.inf, 1e300])
            yield {"t": "drv", "kind": kind, "drivers": d, "before": r.choice([None, 1, 2, 5, 40, n]), "steps": r.choice([None, None, 0, 1, 2, n - 1, n]),
                   "params": G.as_params(r, kind, G.values(r, kind)), "how": r.choice(["set_drivers", "erf"])}

    @staticmethod
    def check(case):
        kind = case["kind"]
        m = cls(kind)(**{k: Q(v) for k, v in case.get("params", {}).items()})
        if case["t"] == "never":
            try:
                m.reset()
                return "reset without drivers accepted"
            except ModelStateError:
                return None
        good = ur.Quantity(np.array([1.0, -2.0, 3.0]), B.ERF)
        if case["t"] == "nd":
            if case["prev"]:
                m.set_drivers(good)
            before = state(m, kind)
            try:
                m.set_drivers(D(case["drivers"]))
                return "%d-dimensional drivers of shape %s accepted" % (case["drivers"]["nd"], case["drivers"]["shape"])
            except AssertionError:
                pass
            d = state_diff(before, state(m, kind))
            if d:
                return "rejected drivers changed the model: %s" % d
            try:
                m.reset()
                if not case["prev"]:
                    return "reset succeeds after rejected drivers"
                m.run()
                if any(len(x) != 3 or np.isnan(x).any() for x in outputs(m, kind)):
                    return "previous drivers no longer in force"
            except ModelStateError:
                if case["prev"]:
                    return "previous drivers lost"
            return None
        if case.get("before"):
            go(m, ur.Quantity(np.arange(float(case["before"])), B.ERF))
        F = D(case["drivers"])
        if case.get("how") == "erf":
            m.erf = F
        else:
            m.set_drivers(F)
        n = len(case["drivers"]["v"])
        nan = any(x is None for x in case["drivers"]["v"])
        if case.get("steps") is not None and not nan:
            m.reset()
            for _ in range(min(case["steps"], n)):
                m.step()
        try:
            m.reset()
            if nan:
                return "drivers with NaN accepted by reset"
        except ModelStateError:
            if not nan:
                return "valid drivers refused by reset"
            return None
        wild = any(isinstance(x, float) and abs(x) > 1e100 for x in case["drivers"]["v"])
        for a, x in zip(ARR[kind], outputs(m, kind)):
            if len(x) != n:
                return "after reset %s has %d entries for %d drivers" % (a, len(x), n)
            if not np.isnan(x).all():
                return "after reset %s is not all NaN" % a
        if wild:
            return None
        m.run()
        for a, x in zip(ARR[kind], outputs(m, kind)):
            big = np.flatnonzero(np.concatenate([~(np.abs(y) < 1e30) & ~np.isnan(y) for y in outputs(m, kind)])) % max(n, 1)
            if len(x) != n or np.isnan(x[:big.min() if len(big) else n]).any():
                return "after run %s is not filled: %s" % (a, x[:5])
        return None


class C16:
    @staticmethod
    def gen(r, tier, hints, consts):
        for c in run_gen(KINDS, stable=True)(r, tier, hints, consts):
            if c["kind"] == "TL":
                c["params"]["a"] = [0.0, TL_U["a"]]
            n = len(c["drivers"]["v"])
            if r.random() < 0.3:  # scaling over many orders of magnitude
                yield dict(c, t="lin", G=[0.0] * n, x=10 ** r.uniform(-9, 2), y=1.0)
                continue
            yield dict(c, t="lin", G=[r.gauss(0, 3) for _ in range(n)], x=r.choice([1.0, -1.0, 2.5, 0.0, r.uniform(-3, 3)]),
                       y=r.choice([1.0, 0.0, -0.5, r.uniform(-3, 3)]))

    @staticmethod
    def check(case):
        kind = case["kind"]
        F, H = F_si(case), np.array(case["G"], dtype=float)
        s = si(case)

        def out(V):
            m = model(case)
            go(m, ur.Quantity(np.asarray(V, dtype=float), B.ERF))
            return outputs(m, kind)
        a, b, c, z = out(F), out(H), out(case["x"] * F + case["y"] * H), out(0 * F)
        for nm, p, q, t, o in zip(("first temperature", "second temperature", "heat uptake"), a, b, c, z):
            if np.any(o != 0):
                return "zero forcing gives %s %r" % (nm, o.tolist()[:5])
            sc = abs(case["x"]) * np.max(np.abs(np.append(p, 0))) + abs(case["y"]) * np.max(np.abs(np.append(q, 0)))
            if not sc < 1e3:
                continue
            sc += np.max(np.abs(np.append(case["x"] * F, 0))) + np.max(np.abs(np.append(case["y"] * H, 0)))
            tol = 1e-9 + (1e-14 * B.ir_equiv(s)["cond"] ** 2 if kind == "IR" else 0)
            for j in range(len(F)):
                w = case["x"] * p[j] + case["y"] * q[j]
                if bad(float(t[j]), float(w), sc, tol):
                    return "%s[%d] of the combination is %r, combination of the responses is %r" % (nm, j, float(t[j]), float(w))
        if kind == "IR":
            for x, q, nm in ((a[0], s["q1"], "box 1"), (a[1], s["q2"], "box 2")):
                lo = hi = 0.0
                for j in range(1, len(F)):
                    lo, hi = min(lo, F[j - 1]), max(hi, F[j - 1])
                    e = 1e-12 * q * max(abs(lo), abs(hi))
                    if not q * lo - e <= x[j] <= q * hi + e:
                        return "%s[%d] = %r leaves [%r, %r]" % (nm, j, float(x[j]), q * lo, q * hi)
        return None


class C17:
    @staticmethod
    def gen(r, tier, hints, consts):
        L, W = TL_U["lambda0"], "W/m^2"
        for h in hints:
            g = {k: G._f(v) for k, v in (h.get("model") or {}).items()}
            g = {k: v for k, v in g.items() if v is not None and (v == 0 or 1e-9 < abs(v) < 1e9)}
            if g.get("lambda"):
                yield {"t": "ecs", "calls": [[[g["lambda"], ["scaled", abs(g.get("scale_lambda", 1.0)) or 1.0, L]],
                                              [g.get("f2x", 3.74), ["scaled", abs(g.get("scale_f2x", 1.0)) or 1.0, W]]]]}
        for k in list(NONQ) + ["duck", "Unit"]:
            yield {"t": "ecs-bad", "which": "lambda", "v": k}
            yield {"t": "ecs-bad", "which": "f2x", "v": k}
        cs = [c for c in consts if 0 < abs(c) < 1e4]
        while True:
            calls = []
            for _ in range(r.choice([1, 2, 3, 5])):
                l = r.choice([1, -1]) * r.choice([G.loguni(r, 0.05, 10), 3.74 / 3, 1e-3, 1.0] + cs)
                f = r.choice([None, 3.74, G.loguni(r, 1, 10), -2.0, 0.0, r.choice(cs or [3.0])])
                if r.random() < 0.2:  # whole numbers
                    l, f = r.choice([[r.choice([-3, -2, 2, 4]), L], [r.choice([-1500, 700]), ["scaled", 1e-3, L]]]), [r.choice([4, 5, -7, 1]), W]
                    calls.append([l, f])
                    continue
                calls.append([G.in_units(r, l, L), None if f is None else G.in_units(r, f, W)])
            yield {"t": "ecs", "calls": calls, "arr": r.random() < 0.2}

    @staticmethod
    def check(case):
        from openscm_twolayermodel.utils import convert_lambda_to_ecs as f
        if case["t"] == "ecs-bad":
            v = bad_value(case["v"])
            if case["which"] == "f2x" and v is None:
                pass
            for a in ([(v,), (v, ur.Quantity(3.7, "W/m^2"))] if case["which"] == "lambda" else [(ur.Quantity(-1.2, TL_U["lambda0"]), v)]):
                try:
                    r = f(*a)
                    return "convert_lambda_to_ecs(%s) returned %r" % (", ".join(map(repr, a)), r)
                except TypeError:
                    pass
                except Exception as e:
                    return "%s = %s raised %s" % (case["which"], case["v"], type(e).__name__)
            return None
        for l, x in case["calls"]:
            l = Q(l)
            if case.get("arr"):
                l = ur.Quantity(np.array([1.0, -2.0]) * l.magnitude, l.units)
            keep = copy.deepcopy(l)
            x = None if x is None else Q(x)
            r = f(l) if x is None else f(l, f2x=x)
            F = 3.74 if x is None else mag(x, "W/m^2")
            want = np.atleast_1d(-F / np.asarray(mag(l, TL_U["lambda0"])))
            try:
                got = np.atleast_1d(r.to("delta_degC").magnitude).astype(float)
            except Exception as e:
                return "result %r is no temperature difference: %s" % (r, e)
            if got.shape != want.shape or any(bad(float(a), float(b), b, 1e-12) for a, b in zip(got, want)):
                return "lambda %s, f2x %s: %s instead of %s" % (l, x, got, want)
            if not same_q(keep, l):
                return "argument modified"
        return None


class C18:
    @staticmethod
    def gen(r, tier, hints, consts):
        for h in hints:
            if h.get("model"):
                for kind in KINDS:
                    p, g = G.hint_values(h["model"], kind, r)
                    for sub in (list(p), [k for k in p if k in h["model"]]):
                        c = {"t": "init", "kind": kind, "params": {k: p[k] for k in sub}, "hint": True}
                        if sane(c):
                            yield c
        for kind in KINDS:
            names = list(UNITS[kind])
            yield {"t": "init", "kind": kind, "params": {}}
            for n in names:
                v = G.values(r, kind)
                yield {"t": "init", "kind": kind, "params": {n: G.in_units(r, v[n], UNITS[kind][n])}}
                yield {"t": "init", "kind": kind, "params": {k: G.in_units(r, v[k], UNITS[kind][k]) for k in names if k != n}}
        yield {"t": "init", "kind": "IR", "params": {"d1": [5.0, "yr"], "d2": [5.0, "yr"]}}
        yield {"t": "init", "kind": "IR", "params": {"d1": [12.0, "month"], "d2": [2.0, "yr"]}}
        yield {"t": "init", "kind": "IR", "params": {"d1": [3.0, "yr"], "d2": [24.0, "month"]}}
        yield {"t": "init", "kind": "IR", "params": {"d1": [365.25, "day"], "d2": [1.0, "yr"]}}
        for a in (0.25, 1.0, 2.0, 40.0):  # equal, with scales which floats convert exactly
            for k in (4.0, 0.5):
                yield {"t": "init", "kind": "IR", "equal": True, "params": {"d1": [a, ["scaled", k, "yr"]], "d2": [a * k, "yr"]}}
                yield {"t": "init", "kind": "IR", "equal": True, "params": {"d1": [a * k, "yr"], "d2": [a, ["scaled", k, "yr"]]}}
        yield {"t": "init", "kind": "IR", "params": {"d1": [400.0, "yr"]}}
        yield {"t": "init", "kind": "IR", "params": {"d2": [9.0, "yr"]}}
        yield {"t": "init", "kind": "IR", "params": {"d2": [8.0, "yr"]}}
        while True:
            kind = r.choice(KINDS)
            v = G.values(r, kind, **({"stable": False} if kind == "TL" else {}))
            if kind == "IR" and r.random() < 0.4:
                v["d1"], v["d2"] = r.choice([(v["d2"], v["d1"]), (v["d1"], v["d1"] * 1.0000001), (v["d1"], v["d1"] * 0.9999), (v["d1"], v["d2"])])
            if r.random() < 0.2:
                v[r.choice(list(v))] = r.choice([0.0, 1.0, -1.0] + [c for c in consts if c > 0][:20])
            p = G.as_params(r, kind, v)
            keep = [k for k in p if r.random() < 0.6]
            r.shuffle(keep)
            yield {"t": "init", "kind": kind, "params": {k: p[k] for k in keep}}

    @staticmethod
    def check(case):
        kind = case["kind"]
        given = {k: Q(v) for k, v in case["params"].items()}
        full = {k: Q(v) for k, v in B.full_params(case).items()}
        ordered = None
        if kind == "IR":
            d1, d2 = mag(full["d1"], "yr"), mag(full["d2"], "yr")
            if abs(d1 - d2) > 1e-9 * abs(d1) or full["d1"].units == full["d2"].units or case.get("equal"):
                ordered = d1 < d2
        try:
            m = cls(kind)(**given)
        except ValueError as e:
            if isinstance(e, UnitError) or kind == "TL" or ordered is True:
                return "construction refused: %s" % e
            return None
        if ordered is False:
            return "d1 = %s, d2 = %s accepted" % (full["d1"], full["d2"])
        for k, q in full.items():
            got = getattr(m, k)
            if k in given:
                if not same_q(got, q):
                    return "%s given as %s is %s" % (k, q, got)
            elif bad(mag(got, UNITS[kind][k]), mag(q, UNITS[kind][k]), 0, 1e-12):
                return "default of %s is %s, documented %s" % (k, got, q)
            w = getattr(m, "_%s_mag" % k)
            if bad(float(w), mag(q, UNITS[kind][k]), 0, 1e-12):
                return "%s = %s is used as %r %s" % (k, q, w, UNITS[kind][k])
        for a, x in zip(ARR[kind], outputs(m, kind)):
            if not np.isnan(x).all():
                return "%s of a new model is %s" % (a, x)
        try:
            m.reset()
            return "a new model has usable drivers"
        except ModelStateError:
            return None


# -- scenarios ---------------------------------------------------------------------------

def scen_times(case):
    return [dt.datetime.fromisoformat(t) for t in case["times"]]


def scen_input(case):
    from scmdata.run import ScmRun
    rows = case["rows"]
    cols = [k for k in rows[0] if k != "v"]
    run = ScmRun(data=np.array([[math.nan if x is None else x for x in r["v"]] for r in rows], dtype=float).T,
                 index=scen_times(case), columns={k: [r[k] for r in rows] for k in cols})
    kind = case.get("input")
    if kind == "df":
        return run.timeseries()
    if kind == "wide":
        return run.timeseries().reset_index()
    if kind == "long":
        return run.long_data()
    if kind == "csv":  # the name of a file
        run.timeseries().reset_index().to_csv(os.path.join(case["dir"], "scenarios.csv"), index=False)
        return os.path.join(case["dir"], "scenarios.csv")
    return run


def scen_model(case):
    m = cls(case["kind"])(**{k: Q(v) for k, v in case["params"].items()})
    for i in range(case.get("before") or 0):  # earlier calls on the same model
        try:
            m.run_scenarios(scen_input({"times": ["2000-01-01", "2001-01-01", "2002-01-01"], "rows": [
                {"model": "e", "scenario": "earlier", "region": "World", "variable": DV, "unit": "W/m^2", "v": [1.0 + i, 2.0, 3.0]}]}), progress=False)
        except (ValueError, NotImplementedError):
            pass
    return m


def expected_step(times):
    """The quantity run_scenarios must use, or None if it must refuse."""
    diffs = [b - a for a, b in zip(times, times[1:])]
    if diffs and all(dt.timedelta(days=28) <= d <= dt.timedelta(days=31) for d in diffs):
        return ur.Quantity(1, "month")
    if all(b.year - a.year == 1 for a, b in zip(times, times[1:])):
        return ur.Quantity(1, "yr")
    return None


DV = "Effective Radiative Forcing"
OUTV = {"TL": [("Surface Temperature|Upper", "delta_degC", 0), ("Surface Temperature|Lower", "delta_degC", 1), ("Heat Uptake", "W/m^2", 2)],
        "IR": [("Surface Temperature|Box 1", "delta_degC", 0), ("Surface Temperature|Box 2", "delta_degC", 1),
               ("Surface Temperature", "delta_degC", "sum"), ("Heat Uptake", "W/m^2", 2)]}


def times_axis(r, n, how=None):
    how = how or r.choice(["yr", "yr", "yrmid", "month", "monthmid"])
    y0 = r.choice([1750, 1850, 1999, 2019, 2240])
    if r.random() < 0.12:  # beyond the range of nanosecond time stamps
        y0 = r.choice([1, 850, 1600, 2260, 2262, 2500, 9900])
    if how == "yr":
        return [dt.datetime(y0 + i, 1, 1) for i in range(n)]
    if how == "yrmid":
        return [dt.datetime(y0 + i, 7, 1 + (i % 2)) for i in range(n)]
    m0 = r.randrange(12)
    d = 1 if how == "month" else 16
    return [dt.datetime(y0 + (m0 + i) // 12, (m0 + i) % 12 + 1, d) for i in range(n)]


def selected(case):
    return [x for x in case["rows"] if x["variable"] == case["driver_var"] and x["region"] == "World"]


SCEN_U = ["W/m^2", "W/m^2", "mW/m^2", "kW/m^2", "W/cm^2"]


_WORDS = []


def words():
    """New string constants of the source."""
    if not _WORDS:
        _WORDS.append(B.source_strings())
    return _WORDS[0]


def small_scen(r, kind, nsel=None, noise=None, nmax=7, tails=True, n=None, single_unit=False):
    nsel = nsel or r.choice([1, 1, 2, 3, 5])
    n = n or r.choice([1, 2, 3, 5, nmax])
    times = times_axis(r, n)
    dv = r.choice([DV, DV, DV, "Effective Radiative Forcing|CO2", "Custom F"])
    rows = []
    extra = r.choice([{}, {"note": "x"}, {"ensemble_member": 0}])
    u0 = r.choice(SCEN_U)

    def row(i, variable, region, unit):
        sc = {"W/m^2": 1.0, "mW/m^2": 1e3, "kW/m^2": 1e-3, "W/cm^2": 1e-4, "K": 1.0, "GtC": 1.0}.get(unit, 1.0)
        v = [r.gauss(0, 4) * sc for _ in range(n)]
        k = r.random()
        if k < 0.5 and r.random() < 0.4:  # zeros, plateaus, whole numbers, outliers
            j = r.randrange(6)
            c = r.randint(1, n)
            if j == 0:
                v[:c] = [0.0] * c
            elif j == 1:
                v[n - c:] = [0.0] * c
            elif j == 2:
                v = [v[0]] * n
            elif j == 3:
                v = [float(r.randint(-3, 3)) for _ in range(n)]
            elif j == 4:
                v[c - 1] *= 1e4
            else:
                v[:c] = [v[0]] * c
        k = r.random()
        if tails and n > 1 and k < 0.35:
            c = r.randrange(1, n)
            if k < 0.25:
                v[c:] = [None] * (n - c)
            else:
                v[:c] = [None] * c
        d = {"model": r.choice(["m_a", "b"]), "scenario": "%s%d" % (r.choice("zyxabc"), i), "region": region,
             "variable": variable, "unit": unit, "v": v}
        for e in extra:
            d[e] = i if e == "ensemble_member" else "note %d" % (i % 2)
        if case_cm:
            d["climate_model"] = "old %d" % (i % 2)
        if case_ri:
            d["run_idx"] = 7 + 3 * (i % 3)
        if case_pa:
            d[case_pa] = 0.125 * (i + 1)
        return d
    case_cm = r.random() < 0.3
    case_ri = r.random() < 0.15
    case_pa = r.choice(["efficacy (dimensionless)", "du (m)", "d1 (yr)", "note (x)"]) if r.random() < 0.1 else None
    for i in range(nsel):
        rows.append(row(i, dv, "World", u0 if single_unit else r.choice(SCEN_U)))
        if i and "ensemble_member" in extra and r.random() < 0.4:  # told apart by further metadata only
            j = r.randrange(i)
            rows[-1].update(model=rows[j]["model"], scenario=rows[j]["scenario"])
        if i and r.random() < 0.15:  # the same numbers, mostly in another unit
            rows[-1]["v"] = list(rows[r.randrange(i)]["v"])
    nn = r.choice([0, 0, 1, 3]) if noise is None else noise
    new = [w.replace("{}", "").replace("%s", "").strip("*") for w in words()]
    new = [w for w in new if w]
    for i in range(nn):
        var, reg = r.choice([(dv, "World|R5ASIA"), (dv, "Northern Hemisphere"), (dv + "|CO2", "World"), ("Emissions|CO2", "World"),
                             ("Surface Temperature", "World"), ("x" + dv, "World"), (dv, "world"), (dv, "World2"),
                             (dv + r.choice(["|Total", "|Anthropogenic", " ", "2"]), "World"), (dv.lower(), "World"),
                             ("Effective Radiative Forcing", "World|NH")])
        if new and r.random() < 0.4:
            w = r.choice(new)
            var, reg = r.choice([(dv + w, "World"), (dv + "|" + w, "World"), (w, "World"), (w + dv, "World"), (dv, w), (dv, "World" + w)])
        if var == dv and reg == "World":
            continue
        rows.append(row(100 + i, var, reg, r.choice(["K", "W/m^2", "GtC", "mW/m^2"])))
    if words() and r.random() < 0.5:  # words that occur in the source, as metadata
        k = r.choice(["climate_model", "climate_model", "scenario", "model", "note"])
        w = r.choice(words())
        for i, x in enumerate(rows):
            x[k] = w if k != "scenario" else "%s%d" % (w, i) if i else w
            if k in ("climate_model", "note") and r.random() < 0.3:
                x[k] = r.choice(words())
    r.shuffle(rows)
    # every time point carries at least one selected value
    for j in range(n):
        sel = [x for x in rows if x["variable"] == dv and x["region"] == "World"]
        if all(x["v"][j] is None for x in sel):
            for x in sel[:1]:
                x["v"] = [0.5 if y is None else y for y in x["v"]]
    v = G.values(r, kind)
    if kind == "TL":
        v["a"] = r.choice([0.0, 0.01])
        v["du"] = G.loguni(r, 60, 300)
        v["eta"] = G.loguni(r, 0.1, 1)
        v["lambda0"] = G.loguni(r, 0.4, 2)
        v["efficacy"] = r.choice([1.0, 1.3])
    p = G.as_params(r, kind, v)
    for k in list(p):
        if isinstance(p[k][1], list):
            p[k] = [v[k], UNITS[kind][k]]
        if isinstance(p[k][0], dict):
            p[k] = [v[k], p[k][1]]
    return {"t": "scen", "kind": kind, "params": p, "times": [t.isoformat() for t in times], "rows": rows, "driver_var": dv,
            "input": r.choice(["scmrun", "scmrun", "df"]), "before": r.choice([0] * 9 + [1, 3, 6])}


def table(res):
    """[(meta dict, {time: value})] of a result."""
    ts = res.timeseries()
    out = []
    names = list(ts.index.names)
    for lab, row in zip(ts.index.tolist(), ts.values):
        out.append((dict(zip(names, lab)), {t: float(v) for t, v in zip(ts.columns, row) if not math.isnan(v)}))
    return out


def standalone(case, row):
    m = scen_model(case)
    m.delta_t = expected_step(scen_times(case))
    vals = [(t, x) for t, x in zip(scen_times(case), row["v"]) if x is not None]
    go(m, ur.Quantity(np.array([x for _, x in vals], dtype=float), row["unit"]))
    o = outputs(m, case["kind"])
    o = {"sum": o[0] + o[1], 0: o[0], 1: o[1], 2: o[2]}
    return [t for t, _ in vals], {nm: o[k] for nm, u, k in OUTV[case["kind"]]}, [x for _, x in vals]


def close_map(got, times, vals, what):
    if set(got) != set(times):
        return "%s: values at %s, expected at %s" % (what, sorted(map(str, got))[:4], [str(t) for t in times][:4])
    sc = max([abs(float(v)) for v in vals] + [0.0])
    for t, v in zip(times, vals):
        if bad(got[t], float(v), sc * 1e-3, 1e-9):
            return "%s at %s is %r, a standalone run gives %r" % (what, t.date(), got[t], float(v))
    return None


IDENT = ("model", "scenario", "note", "ensemble_member")


def find(tab, row, variable):
    return [v for m, v in tab if m.get("variable") == variable and all(m.get(k) == row[k] for k in IDENT if k in row)
            and m.get("region") == "World"]


def scen_values(case, tab):
    for row in selected(case):
        times, outs, vals = standalone(case, row)
        for nm in outs:
            hit = find(tab, row, nm)
            if len(hit) != 1:
                return "%d timeseries %r for scenario %s" % (len(hit), nm, row["scenario"])
            r = close_map(hit[0], times, outs[nm], "%s of scenario %s" % (nm, row["scenario"]))
            if r:
                return r
    return None


class C12:
    @staticmethod
    def gen(r, tier, hints, consts):
        lens = [int(c) for c in consts if c == int(c) and 3 < c < 400]
        many = [12] + [int(c) for c in consts if c == int(c) and 3 < c < 100]
        for kind in KINDS:
            yield small_scen(r, kind, nsel=1, noise=0)
            yield small_scen(r, kind, nsel=4, noise=0, n=6)
        i = 0
        while True:
            i += 1
            kind = r.choice(KINDS)
            if i % 6 == 3 and many:
                yield small_scen(r, kind, nsel=many[i // 6 % len(many)] + r.choice([1, 2, 3]), n=r.choice([2, 3]))
            elif i % 6 == 0 and lens:
                yield small_scen(r, kind, nsel=2, n=r.choice([lens[i // 6 % len(lens)], lens[i // 6 % len(lens)] + 1]))
            elif i % 9 == 0:
                yield small_scen(r, kind, nsel=r.choice([8, 12]), n=4)
            else:
                yield small_scen(r, kind)

    @staticmethod
    def check(case):
        m = scen_model(case)
        tab = table(m.run_scenarios(scen_input(case), driver_var=case["driver_var"], progress=False))
        r = scen_values(case, tab)
        if r:
            return r
        sel = selected(case)
        if len(sel) > 1:
            # alone, on a fresh model and on the used one
            row = sel[len(case["rows"]) % len(sel)]
            solo = dict(case, rows=[row])
            keep = [j for j, x in enumerate(row["v"]) if x is not None]
            sub = dict(solo, times=[case["times"][j] for j in keep], rows=[dict(row, v=[row["v"][j] for j in keep])])
            if expected_step(scen_times(sub)) is not None and str(expected_step(scen_times(sub))) == str(expected_step(scen_times(case))):
                r = scen_values(sub, table(m.run_scenarios(scen_input(sub), driver_var=case["driver_var"], progress=False)))
                if r:
                    return "run alone afterwards: " + r
            rev = dict(case, rows=case["rows"][::-1])
            r = scen_values(rev, table(scen_model(rev).run_scenarios(scen_input(rev), driver_var=case["driver_var"], progress=False)))
            if r:
                return "in reverse order: " + r
        return None


class C13:
    @staticmethod
    def gen(r, tier, hints, consts):
        many = [12] + [int(c) for c in consts if c == int(c) and 3 < c < 100]
        i = 0
        while True:
            for kind in KINDS:
                i += 1
                if i % 12 == 5:
                    yield small_scen(r, kind, nsel=many[(i // 12) % len(many)] + r.choice([1, 2, 3]), n=r.choice([2, 3]))
                    continue
                yield small_scen(r, kind)

    @staticmethod
    def check(case):
        kind = case["kind"]
        m = scen_model(case)
        tab = table(m.run_scenarios(scen_input(case), driver_var=case["driver_var"], progress=False))
        names = [k for k in B.UNITS[kind] if k != "delta_t"]
        want = []
        times = scen_times(case)
        for i, row in enumerate(selected(case)):
            meta = {k: v for k, v in row.items() if k != "v"}
            meta["climate_model"] = {"TL": "two_layer", "IR": "two_timescale_impulse_response"}[kind]
            for k in names:
                q = Q(B.full_params(case)[k])
                meta["%s (%s)" % (k, q.units)] = q.magnitude
            meta["run_idx"] = i
            pts = {t for t, x in zip(times, row["v"]) if x is not None}
            want.append((meta, {t: x for t, x in zip(times, row["v"]) if x is not None}))
            for nm, u, _ in OUTV[kind]:
                want.append((dict(meta, variable=nm, unit=u), pts))
        left = list(tab)
        for meta, v in want:
            hit = [x for x in left if x[0].get("variable") == meta["variable"] and x[0].get("run_idx") == meta["run_idx"]]
            same = [x for x in hit if meta_eq(x[0], meta)]
            if not same:
                if hit:
                    d = {k: (hit[0][0].get(k), meta.get(k)) for k in set(hit[0][0]) | set(meta) if not meta_eq(
                        {k: hit[0][0].get(k)}, {k: meta.get(k)})}
                    return "row %s of run %d: (found, expected) %s" % (meta["variable"], meta["run_idx"], d)
                return "no row for %s with run_idx %d (scenario %s)" % (meta["variable"], meta["run_idx"], meta["scenario"])
            x = same[0]
            left.remove(x)
            if isinstance(v, dict):
                if set(x[1]) != set(v) or any(bad(x[1][t], v[t], 0, 1e-12) for t in v):
                    return "driver row of scenario %s changed" % meta["scenario"]
            elif set(x[1]) != v:
                return "%s of scenario %s has values at other time points than its driver" % (meta["variable"], meta["scenario"])
        if left:
            return "unexpected row %s" % (left[0][0],)
        return None


def meta_eq(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)):
            if x != y and bad(float(x), float(y), 0, 1e-13):
                return False
        elif x != y:
            return False
    return True


class C14:
    @staticmethod
    def gen(r, tier, hints, consts):
        i = 0
        while True:
            for kind in KINDS:
                i += 1
                c = small_scen(r, kind, noise=r.choice([2, 4, 6]) if i % 5 else 0, nsel=r.choice([1, 2, 3]) if i % 5 else 1)
                if i % 4 == 0:
                    c["rows"] = [x for x in c["rows"] if x not in selected(c)]
                    if not c["rows"]:
                        continue
                    for x in c["rows"]:
                        x["v"] = [0.3 if y is None else y for y in x["v"]]
                if r.random() < 0.15 and 1700 < int(c["times"][0][:4]) < 2260:
                    c["input"] = r.choice(["wide", "long", "csv"])
                yield c

    @staticmethod
    def check(case):
        if case.get("input") != "csv":
            return C14.one(case)
        with tempfile.TemporaryDirectory(prefix="oracle_") as d:
            return C14.one(dict(case, dir=d))

    @staticmethod
    def one(case):
        kind = case["kind"]
        m = scen_model(case)
        if len(case["rows"]) % 2:
            go(m, ur.Quantity(np.array([1.0, 2.0]), B.ERF))
        obj = scen_input(case)
        path = isinstance(obj, str)
        keep, before = open(obj).read() if path else obj.copy(), state(m, kind)
        try:
            res = m.run_scenarios(obj, driver_var=case["driver_var"], progress=False)
        except ValueError as e:
            res = e
        except Exception as e:
            if selected(case):
                raise
            return "no World data for driver_var raised %s: %s" % (type(e).__name__, str(e)[:100])
        if path:
            same = open(obj).read() == keep
        elif case.get("input") != "scmrun":
            same = obj.equals(keep) and list(obj.index.names) == list(keep.index.names) and obj.index.equals(keep.index)
        else:
            a, b = obj.timeseries(), keep.timeseries()
            same = a.equals(b) and list(a.index.names) == list(b.index.names) and list(obj.meta.columns) == list(keep.meta.columns) \
                and obj.meta.equals(keep.meta)
        if not same:
            return "the caller's scenarios were modified"
        if not selected(case):
            if not isinstance(res, ValueError):
                return "no World data for %s, but no ValueError" % case["driver_var"]
            d = state_diff(before, state(m, kind))
            return "the refused run changed the model: %s" % d if d else None
        if isinstance(res, ValueError):
            raise res
        tab = table(res)
        clean = dict(case, rows=selected(case))
        ref = table(scen_model(clean).run_scenarios(scen_input(clean), driver_var=case["driver_var"], progress=False))
        if len(tab) != len(ref):
            return "%d result rows, %d without the other rows of the input" % (len(tab), len(ref))
        for meta, v in ref:
            hit = [x for x in tab if meta_eq(x[0], meta)]
            if not hit:
                return "no row %s when other rows are in the input" % meta
            r = close_map(hit[0][1], list(v), list(v.values()), "with other rows in the input, %s" % meta["variable"])
            if r:
                return r
        used = {(x[0].get("model"), x[0].get("scenario"), x[0].get("region")) for x in tab}
        exp = {(x["model"], x["scenario"], "World") for x in selected(case)}
        if used != exp:
            return "rows of %s used, expected %s" % (sorted(used), sorted(exp))
        return None


class C15:
    @staticmethod
    def gen(r, tier, hints, consts):
        T = dt.datetime
        fixed = [
            [T(2000, 1, 1)], [T(2000, 2, 29)], [T(2000, 1, 1), T(2001, 1, 1)], [T(2000, 12, 31), T(2001, 1, 1)],
            [T(2000, 1, 1), T(2001, 12, 31)], [T(2000, 12, 15), T(2001, 1, 15)], [T(2000, 12, 15), T(2001, 1, 12)],
            [T(2000, 12, 15), T(2001, 1, 14)], [T(2001, 12, 4), T(2002, 1, 4)],
            [T(2000, 1, 1), T(2000, 1, 29)], [T(2000, 1, 1), T(2000, 1, 28)], [T(2000, 1, 1), T(2000, 2, 1)],
            [T(2000, 1, 1), T(2000, 2, 2)], [T(2000, 1, 1), T(2000, 1, 28, 23)], [T(2000, 1, 1), T(2000, 2, 1, 1)],
            [T(2000, 1, 1), T(2002, 1, 1)], [T(2000, 1, 1), T(2000, 7, 1)], [T(2000, 1, 1), T(2001, 1, 1), T(2003, 1, 1)],
            [T(2000, 1, 1), T(2001, 1, 1), T(2001, 2, 1)], [T(2000, 1, 1), T(2000, 2, 1), T(2000, 3, 1), T(2000, 5, 1)],
            [T(2000, 1, 1), T(2000, 2, 1), T(2001, 2, 1)], [T(2000, 12, 10), T(2001, 1, 8), T(2002, 1, 8)],
            [T(2000, 1, 1) + dt.timedelta(days=30 * i) for i in range(30)],
            [T(2000, 1, 1) + dt.timedelta(days=365 * i) for i in range(8)],
            [T(2000, 1, 1) + dt.timedelta(days=365.25 * i) for i in range(8)],
            [T(2000, 6, 1) + dt.timedelta(days=28 * i) for i in range(9)], [T(2000, 6, 1) + dt.timedelta(days=31 * i) for i in range(9)],
            [T(2000, 6, 1) + dt.timedelta(days=27 * i) for i in range(9)], [T(2000, 6, 1) + dt.timedelta(days=32 * i) for i in range(9)],
            [T(2000, 6, 1) + dt.timedelta(days=i) for i in range(5)], [T(2000 + 5 * i, 1, 1) for i in range(5)],
            [T(2000, 12, 1 + 3 * i) for i in range(3)] + [T(2001, 1, 5)],
            [T(1850 + i, 1 + (5 * i) % 12, 1) for i in range(6)], [T(1850 + i, 12 if i % 2 else 1, 28) for i in range(6)],
            [T(2258 + i, 1, 1) for i in range(10)], [T(2000 + i // 12, i % 12 + 1, 1) for i in range(40)],
            [T(2000 + i // 12, i % 12 + 1, 15) for i in range(13)], [T(1995, 12, 1), T(1996, 1, 1), T(1996, 2, 1)],
        ]
        prev = [None, ["1", "yr"], ["7", "day"]]
        for i, t in enumerate(fixed):
            yield C15.case(r, KINDS[i % 2], t)
        i = 0
        while True:
            i += 1
            if i % 4 == 0:  # regular axis with a few irregular steps
                n = r.choice([3, 5, 13, 25, 37, 60, 121, 200])
                if r.random() < 0.5:
                    m0, s = r.randrange(12), r.choice([1, 15, 28])
                    t = [T(1990 + (m0 + j) // 12, (m0 + j) % 12 + 1, s) for j in range(n)]
                    bump = r.choice([5, 3.5, 40, 400, -20])
                else:
                    s = (r.randrange(1, 13), r.choice([1, 28]))
                    t = [T(1800 + j, *s) for j in range(n)]
                    bump = r.choice([360, 366, 180, 31, -300])
                for j in {r.choice([1, n // 2, n - 1, r.randrange(1, n)]) for _ in range(r.choice([0, 1, 1, 2]))}:
                    if r.random() < 0.3:
                        t[j:] = [x + dt.timedelta(days=abs(bump)) for x in t[j:]]
                    else:
                        t[j] = t[j] + dt.timedelta(days=bump)
                if r.random() < 0.2 and n > 3:
                    del t[r.choice([1, n // 2, n - 2])]
                if all(a < b for a, b in zip(t, t[1:])):
                    yield C15.case(r, r.choice(KINDS), t)
                continue
            if i % 4 == 2 and r.random() < 0.5:  # gaps of whole years
                g = [x for c in consts + [10.0, 100.0] for x in (int(c) - 1, int(c), int(c) + 1) if 1 <= x <= 400]
                y = [r.choice([1700, 1850, 1999])]
                for _ in range(r.choice([1, 1, 2, 4])):
                    y.append(y[-1] + r.choice([1, 1, r.choice(g), r.randrange(2, 300)]))
                if y[-1] < 2260:
                    m0 = (r.randrange(1, 13), r.choice([1, 28]))
                    yield C15.case(r, r.choice(KINDS), [T(x, *m0) for x in y])
                continue
            n = r.choice([2, 2, 3, 4, 8])
            k = r.randrange(6)
            t = [T(r.choice([1900, 1999, 2100]), r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 0, 12]))]
            for _ in range(n - 1):
                if k == 0:
                    d = r.choice([28, 29, 30, 31])
                elif k == 1:
                    d = r.choice([27, 28, 30, 31, 32, 27.9, 31.1])
                elif k == 2:
                    d = r.uniform(2, 720)
                elif k == 3:
                    d = r.choice([365, 366, 365.25, 364])
                elif k == 4:
                    d = r.choice([360, 20, 31, 395])
                else:
                    d = r.choice([30, 365])
                t.append(t[-1] + dt.timedelta(seconds=round(d * 86400)))
            yield C15.case(r, r.choice(KINDS), t)

    @staticmethod
    def case(r, kind, times):
        n = len(times)
        return {"t": "step", "kind": kind, "params": {"delta_t": [r.choice([1, 7, 0.5]), r.choice(["yr", "month", "day"])]},
                "times": [t.isoformat() for t in times],
                "rows": [{"model": "m", "scenario": "s%d" % i, "region": "World", "variable": DV, "unit": "W/m^2", "v": [1.0 + i] * n}
                         for i in range(r.choice([1, 1, 2]))], "driver_var": DV}

    @staticmethod
    def check(case):
        kind = case["kind"]
        m = scen_model(case)
        want = expected_step(scen_times(case))
        before = state(m, kind)
        axis = [t[:16] for t in case["times"]][:6]
        try:
            m.run_scenarios(scen_input(case), progress=False)
        except NotImplementedError:
            if want is not None:
                return "time axis %s refused" % axis
            b, a = before, state(m, kind)
            b.pop("delta_t"), a.pop("delta_t")
            d = state_diff(b, a)
            return "refused, but the model was run: %s" % d if d else None
        if want is None:
            return "time axis %s accepted with timestep %s" % (axis, m.delta_t)
        if bad(mag(m.delta_t, "s"), mag(want, "s"), 0, 1e-12):
            return "time axis %s: timestep %s instead of %s" % (axis, m.delta_t, want)
        return None


for _n, _c in list(globals().items()):
    if isinstance(_c, type) and _n[0] == "C" and _n[1:].isdigit():
        PROPS[_n] = _c
