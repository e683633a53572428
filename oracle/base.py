"""Concrete side of the checks: build real models from JSON-able cases and
evaluate the property statements on what the unmodified code does.

A case is a plain dict, so that every violation is written out as a replay file.
Reference values come from the formulas of the property statements evaluated
here; nothing is imported from the code under test except the public classes.
"""
import ast
import json
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np  # noqa: E402
import openscm_twolayermodel as otm  # noqa: E402
import pint  # noqa: E402
from openscm_units import unit_registry as ur  # noqa: E402

assert os.path.realpath(otm.__file__).startswith(os.path.realpath(REPO)), otm.__file__
np.seterr(all="ignore")

RHO_C = 1000.0 * 4181.0
YEAR = 31557600.0
TL_U = dict(du="m", dl="m", lambda0="W/m^2/delta_degC", a="W/m^2/delta_degC^2", efficacy="dimensionless",
            eta="W/m^2/delta_degC", delta_t="s")
IR_U = dict(q1="delta_degC/(W/m^2)", q2="delta_degC/(W/m^2)", d1="yr", d2="yr", efficacy="dimensionless", delta_t="yr")
ERF = "W/m^2"
ARR = {"TL": ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"), "IR": ("_temp1_mag", "_temp2_mag", "_rndt_mag")}
UNITS = {"TL": TL_U, "IR": IR_U}
ALT = {
    "m": ["m", "cm", "km", "mm", "ft", "inch", "mile"],
    "s": ["s", "hour", "day", "month", "yr", "ms", "minute", "week", "century", "common_year"],
    "yr": ["yr", "day", "month", "s", "hour", "week", "century", "common_year"],
    "W/m^2": ["W/m^2", "mW/m^2", "kW/m^2", "W/cm^2", "J/yr/m^2", "kg/s^3", "GJ/month/km^2"],
    "W/m^2/delta_degC": ["W/m^2/delta_degC", "mW/m^2/delta_degC", "W/cm^2/kelvin", "J/yr/m^2/delta_degC", "W/m^2/delta_degF"],
    "W/m^2/delta_degC^2": ["W/m^2/delta_degC^2", "mW/m^2/delta_degC^2", "W/m^2/kelvin^2", "W/m^2/delta_degF^2"],
    "delta_degC/(W/m^2)": ["delta_degC/(W/m^2)", "kelvin/(mW/m^2)", "delta_degF/(W/m^2)", "delta_degC/(W/cm^2)"],
    "dimensionless": ["dimensionless", "mm/m", "W/kW"],
}


def cls(kind):
    return otm.TwoLayerModel if kind == "TL" else otm.ImpulseResponseModel


_DEF = {}


def unit(u):
    """Unit string, or ["scaled", scale, like]: a unit defined as scale * like."""
    if isinstance(u, str):
        return u
    _, scale, like = u
    k = (scale, like)
    if k not in _DEF:
        from pint.converters import ScaleConverter
        from pint.definitions import UnitDefinition
        n = "vcscaled_%d" % len(_DEF)
        ur.define(UnitDefinition(n, None, (), ScaleConverter(float(scale)), ur.Unit(like)._units))
        _DEF[k] = n
    return _DEF[k]


def scalar(m):
    if isinstance(m, dict):
        if "np" in m:
            return getattr(np, m["np"])(m["v"])
        if "arr0" in m:
            return np.array(m["arr0"])
    return m


def Q(q):
    return ur.Quantity(scalar(q[0]), unit(q[1]))


def array(d):
    """Driver magnitudes: {"v": [...], "dtype":, "layout":, "nd":}"""
    a = np.array([math.nan if x is None else x for x in d["v"]], dtype=d.get("dtype", float))
    lay = d.get("layout")
    if lay == "strided":
        b = np.empty(2 * len(a), dtype=a.dtype)
        b[::2] = a
        b[1::2] = 77
        a = b[::2]
    elif lay == "readonly":
        a.setflags(write=False)
    elif lay == "reversed":
        a = a[::-1].copy()[::-1]
    if d.get("nd") == 0:
        return np.array(d["v"][0], dtype=float)
    if d.get("nd") == 2:
        return a.reshape(d.get("shape", (1, -1)))
    if d.get("nd") == 3:
        return a.reshape(d.get("shape", (1, 1, -1)))
    return a


def D(d):
    return ur.Quantity(array(d), unit(d.get("u", ERF)))


def mag(q, u):
    m = q.to(u).magnitude
    return np.asarray(m, dtype=float) if isinstance(m, np.ndarray) and m.ndim else float(m)


def model(case):
    if case.get("past"):
        return aged(case)
    return cls(case["kind"])(**{k: Q(v) for k, v in case["params"].items()})


def aged(case):
    """The model of a case after an earlier life with other parameters."""
    kind, past = case["kind"], case["past"]
    first = dict(case["params"])
    first.update(past["params"])
    try:
        m = cls(kind)(**{k: Q(v) for k, v in first.items()})
    except ValueError:  # d1 >= d2 in the earlier life
        m = cls(kind)(**{k: Q(v) for k, v in case["params"].items()})
        if past.get("late"):
            m.set_drivers(D(case["drivers"]))
            m.reset()
        return m
    for u in past["use"]:
        try:
            if u == "run":
                go(m, D(past["drivers"]))
            elif u == "drivers":
                m.set_drivers(D(past["drivers"]))
            elif u == "step":
                m.set_drivers(D(past["drivers"]))
                m.reset()
                m.step()
            elif u == "conv":
                m.get_impulse_response_parameters() if kind == "TL" else m.get_two_layer_parameters()
            elif kind == "TL":
                m.heat_capacity_upper, m.heat_capacity_lower
        except (ValueError, ZeroDivisionError, OverflowError, IndexError):
            pass
    if past.get("late"):  # assigned between the reset and the run
        m.set_drivers(D(case["drivers"]))
        m.reset()
    now = full_params(case)
    for k in past["params"] if not past["again"] else UNITS[kind]:
        setattr(m, k, Q(now[k]))
    return m


def si(case):
    return {k: mag(Q(v), UNITS[case["kind"]][k]) for k, v in full_params(case).items()}


DEFAULTS = {
    "TL": dict(du=[50, "m"], dl=[1200, "m"], lambda0=[3.74 / 3, "W/m^2/delta_degC"], a=[0.0, "W/m^2/delta_degC^2"],
               efficacy=[1.0, "dimensionless"], eta=[0.8, "W/m^2/delta_degC"], delta_t=[YEAR, "s"]),
    "IR": dict(q1=[0.3, "delta_degC/(W/m^2)"], q2=[0.4, "delta_degC/(W/m^2)"], d1=[9.0, "yr"], d2=[400.0, "yr"],
               efficacy=[1.0, "dimensionless"], delta_t=[1 / 12, "yr"]),
}


def full_params(case):
    out = dict(DEFAULTS[case["kind"]])
    out.update(case["params"])
    return out


def outputs(m, kind):
    return [np.array(getattr(m, a), dtype=float) for a in ARR[kind]]


def go(m, F):
    m.set_drivers(F)
    m.reset()
    m.run()


# -- evaluation by a process in which nothing has run yet ------------------------------

_ZYG = None


def zygote():
    """Fork a helper now; it later answers ``pristine`` calls from forks of its own."""
    global _ZYG
    import pickle
    import struct
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork():
        os.close(r1)
        os.close(w2)
        _ZYG = (w1, r2)
        return
    try:
        import signal
        os.close(w1)
        os.close(r2)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        while True:
            h = os.read(r1, 4)
            if len(h) < 4:
                os._exit(0)
            n, d = struct.unpack("I", h)[0], b""
            while len(d) < n:
                d += os.read(r1, n - len(d))
            pid = os.fork()
            if not pid:
                signal.alarm(30)
                try:
                    out = pickle.dumps(pristine_run(pickle.loads(d)))
                except BaseException as e:
                    out = pickle.dumps("%s: %s" % (type(e).__name__, e))
                out = struct.pack("I", len(out)) + out
                while out:
                    out = out[os.write(w2, out):]
                os._exit(0)
            if os.waitpid(pid, 0)[1]:
                out = pickle.dumps("no answer")
                os.write(w2, struct.pack("I", len(out)) + out)
    except BaseException:
        pass
    os._exit(0)


def pristine_run(case):
    m = cls(case["kind"])(**{k: Q(v) for k, v in case["params"].items()})
    go(m, D(case["drivers"]))
    return outputs(m, case["kind"])


def pristine(case):
    """Outputs of a model of its own in a fresh process (or a message)."""
    import pickle
    import struct
    if _ZYG is None:
        return None
    d = pickle.dumps(case)
    d = struct.pack("I", len(d)) + d
    while d:
        d = d[os.write(_ZYG[0], d):]
    h = b""
    while len(h) < 4:
        h += os.read(_ZYG[1], 4 - len(h))
    n, d = struct.unpack("I", h)[0], b""
    while len(d) < n:
        d += os.read(_ZYG[1], n - len(d))
    return pickle.loads(d)


# -- reference formulas -------------------------------------------------------------

def tl_derived(s):
    return s["du"] * RHO_C, s["dl"] * RHO_C


def tl_next(s, tu, tl, F):
    Cu, Cl = tl_derived(s)
    nu = tu + s["delta_t"] * (F - (s["lambda0"] - s["a"] * tu) * tu - s["efficacy"] * s["eta"] * (tu - tl)) / Cu
    nl = tl + s["delta_t"] * (s["eta"] * (tu - tl)) / Cl
    return nu, nl


def box_next(dt, t, q, d, F):
    e = math.exp(-dt / d)
    return t * e - q * F * math.expm1(-dt / d)


def ir_equiv(s):
    from decimal import Decimal as X, localcontext
    with localcontext() as cx:
        cx.prec = 60
        q1, q2, eff = X(s["q1"]), X(s["q2"]), X(s["efficacy"])
        d1, d2 = X(s["d1"]) * X(YEAR), X(s["d2"]) * X(YEAR)
        lam = 1 / (q1 + q2)
        C = d1 * d2 / (q1 * d2 + q2 * d1)
        effCD = lam * lam * (d1 * q1 + d2 * q2) - C
        CD = effCD / eff
        eta = CD / (lam * (d1 * q2 + d2 * q1))
        phi1, phi2 = (lam * d1 - C) / effCD, (lam * d2 - C) / effCD
        cond = float((lam * lam * (d1 * q1 + d2 * q2) + C) / effCD)
        r = dict(lam=lam, C=C, CD=CD, eta=eta, phi1=phi1, phi2=phi2)
        r = {k: float(v) for k, v in r.items()}
    r["eff"], r["cond"] = s["efficacy"], cond
    return r


def tl_equiv(s):
    """Modes of the two-layer system, by the quadratic formula in high precision."""
    from decimal import Decimal as X, localcontext
    with localcontext() as cx:
        cx.prec = 60
        C, CD = X(s["du"]) * X(RHO_C), X(s["dl"]) * X(RHO_C)
        lam, eta, eff = X(s["lambda0"]), X(s["eta"]), X(s["efficacy"])
        # C CD / d^2 - [CD (lam + eff eta) + C eta] / d + lam eta = 0 in x = 1/d
        A, B, G = C * CD, CD * (lam + eff * eta) + C * eta, lam * eta
        disc = (B * B - 4 * A * G).sqrt()
        x1, x2 = (B + disc) / (2 * A), 2 * G / (B + disc)  # fast, slow
        p1, p2 = 1 - (C * x1 - lam) / (eff * eta), 1 - (C * x2 - lam) / (eff * eta)
        # C (k1 + k2) = 1, p1 k1 + p2 k2 = 0, q = k d
        k1 = p2 / (C * (p2 - p1))
        k2 = -p1 / (C * (p2 - p1))
        cond = float(B * B / disc / disc * (1 + abs(p1) + abs(p2)) * (1 + B / disc))
        r = dict(d1=1 / x1 / X(YEAR), d2=1 / x2 / X(YEAR), q1=k1 / x1, q2=k2 / x2)
        r = {k: float(v) for k, v in r.items()}
        cond *= float(B * B / (4 * A * G)) * 2
        bb, bs, sd = (lam + eff * eta) / C + eta / CD, (lam + eff * eta) / C - eta / CD, disc / A
        cond *= float(bb / min(abs(bs - sd), abs(bs + sd)))
    r["cond"] = max(cond, 1.0)
    return r


def bad(a, b, scale, rtol=1e-8):
    """b expected, a observed."""
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return not (math.isnan(a) and math.isnan(b)) and a != b
    return abs(a - b) > rtol * max(abs(scale), abs(b)) + 1e-300


def check_tl_temps(s, F, tu, tl):
    n = len(F)
    for nm, x in (("upper", tu), ("lower", tl)):
        if len(x) != n:
            return "%s temperature has %d entries for %d forcing values" % (nm, len(x), n)
        if n and x[0] != 0:
            return "%s temperature starts at %r" % (nm, float(x[0]))
    Cu, Cl = tl_derived(s)
    for i in range(1, n):
        u, l, f = tu[i - 1], tl[i - 1], F[i - 1]
        if not (abs(u) < 1e40 and abs(l) < 1e40):
            return None if (abs(u) >= 1e40 or abs(l) >= 1e40) else "not a number at %d" % (i - 1)
        nu, nl = tl_next(s, u, l, f)
        k = s["delta_t"] * (abs(f) + abs(s["lambda0"] * u) + abs(s["a"] * u * u) + abs(s["efficacy"] * s["eta"]) * (abs(u) + abs(l))) / Cu
        if bad(tu[i], nu, abs(u) + k):
            return "upper temperature[%d] is %r, the recursion gives %r" % (i, float(tu[i]), float(nu))
        k = s["delta_t"] * abs(s["eta"]) * (abs(u) + abs(l)) / Cl
        if bad(tl[i], nl, abs(l) + k):
            return "lower temperature[%d] is %r, the recursion gives %r" % (i, float(tl[i]), float(nl))
    return None


def check_tl_uptake(s, F, tu, tl, rn):
    n = len(F)
    if len(rn) != n:
        return "heat uptake has %d entries for %d forcing values" % (len(rn), n)
    if n and rn[0] != 0:
        return "heat uptake starts at %r" % float(rn[0])
    Cu, Cl = tl_derived(s)
    dt = s["delta_t"]
    for i in range(1, n):
        u, l, f = tu[i - 1], tl[i - 1], F[i - 1]
        if not (abs(u) < 1e40 and abs(l) < 1e40 and abs(tu[i]) < 1e40):
            return None if not any(map(math.isnan, (u, l, tu[i]))) else "not a number at %d" % i
        e = (Cu * (tu[i] - u) + Cl * (tl[i] - l)) / dt
        rounding = 1e-13 * (Cu * (abs(tu[i]) + abs(u)) + Cl * (abs(tl[i]) + abs(l))) / dt
        k = abs(f) + abs(s["lambda0"] * u) + abs(s["a"] * u * u) + (1 + abs(s["efficacy"])) * abs(s["eta"]) * (abs(u) + abs(l))
        if abs(rn[i] - e) > 1e-8 * k + rounding or math.isnan(rn[i]):
            return "heat uptake[%d] is %r, heat content changed by %r W/m^2" % (i, float(rn[i]), float(e))
        r = f - (s["lambda0"] - s["a"] * u) * u - (s["efficacy"] - 1) * s["eta"] * (u - l)
        if abs(rn[i] - r) > 1e-8 * k + rounding:
            return "heat uptake[%d] is %r, forcing minus feedback minus efficacy term is %r" % (i, float(rn[i]), float(r))
    return None


def check_ir_temps(s, F, t1, t2):
    n = len(F)
    for nm, x, q, d in (("box 1", t1, s["q1"], s["d1"]), ("box 2", t2, s["q2"], s["d2"])):
        if len(x) != n:
            return "%s has %d entries for %d forcing values" % (nm, len(x), n)
        if n and x[0] != 0:
            return "%s starts at %r" % (nm, float(x[0]))
        for i in range(1, n):
            want = box_next(s["delta_t"], x[i - 1], q, d, F[i - 1])
            small = -math.expm1(-s["delta_t"] / d)
            if bad(x[i], want, abs(x[i - 1]) * 1e-4 + abs(q * F[i - 1]) * (small + 1e-5)):
                return "%s temperature[%d] is %r, the recursion gives %r" % (nm, i, float(x[i]), want)
    return None


def check_ir_uptake(s, F, t1, t2, rn):
    n = len(F)
    if len(rn) != n:
        return "heat uptake has %d entries for %d forcing values" % (len(rn), n)
    if n and rn[0] != 0:
        return "heat uptake starts at %r" % float(rn[0])
    e = ir_equiv(s)
    for i in range(1, n):
        a, b, f = t1[i - 1], t2[i - 1], F[i - 1]
        T, Td = a + b, e["phi1"] * a + e["phi2"] * b
        x = (e["eff"] - 1) * e["eta"] * (T - Td)
        want = f - e["lam"] * T - x
        scale = abs(f) + e["lam"] * (abs(a) + abs(b))
        xs = abs(e["eff"] - 1) * abs(e["eta"]) * ((1 + abs(e["phi1"])) * abs(a) + (1 + abs(e["phi2"])) * abs(b))
        if not abs(rn[i] - want) <= 1e-10 * scale + (1e-8 + 1e-14 * e["cond"] ** 2) * xs + 1e-300:
            return "heat uptake[%d] is %r, the equivalent two-layer system has a net flux of %r" % (i, float(rn[i]), float(want))
    return None


# -- numbers written in the source: likely thresholds ---------------------------------

def source_strings():
    """Short string constants of the source which it did not have when this was written."""
    known = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_strings.json"))))
    return sorted(x for x in _constants(str) if 0 < len(x) <= 40 and x not in known)


def source_constants():
    out = {float(x) for x in _constants((int, float)) if not isinstance(x, bool) and math.isfinite(x)}
    return sorted(out - {0.0, 1.0, 2.0, 4.0, 50.0, 1200.0, 31.0, 28.0, 12.0})


def _constants(kinds):
    out = []
    d = os.path.join(REPO, "src", "openscm_twolayermodel")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f == "_version.py":
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f)).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, kinds):
                out.append(n.value)
    return out
