"""Vocabulary shared by the contracts: parameters as physical quantities,
spec functions, model snapshots (frames) and the loop contract of ``run``."""
import contextlib

import numpy as np
import z3

from vc import instrument, loader, sym
from vc.engine import eqv
from vc.sym import PathEnd, SArray, SBool, SInt, SReal, Unsupported, bterm, iterm, lift

M = None  # namespace of repository modules


def init():
    global M
    if M is None:
        M = loader.load()
    return M


# Units every *_mag of the class is documented (and tested) to be in.
TL_UNITS = dict(du="m", dl="m", lambda0="W/m^2/delta_degC", a="W/m^2/delta_degC^2",
                efficacy="dimensionless", eta="W/m^2/delta_degC", delta_t="s")
IR_UNITS = dict(q1="delta_degC/(W/m^2)", q2="delta_degC/(W/m^2)", d1="yr", d2="yr",
                efficacy="dimensionless", delta_t="yr")
ERF = "W/m^2"
RHO_C = 1000 * 4181
YEAR = 31557600
POS = {"du", "dl", "delta_t", "d1", "d2", "q1", "q2", "efficacy"}
TL_ARR = ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag")
IR_ARR = ("_temp1_mag", "_temp2_mag", "_rndt_mag")


def units_of(kind):
    return TL_UNITS if kind == "TL" else IR_UNITS


def cls(kind):
    return M.TwoLayerModel if kind == "TL" else M.ImpulseResponseModel


def arrays(kind):
    return TL_ARR if kind == "TL" else IR_ARR


def quantity(c, name, like, pos=False, si=None, unit=None):
    """(quantity, SI value): an arbitrary quantity in an arbitrary unit of ``like``'s kind.

    Positive quantities are parametrised by their magnitude v and SI value S
    (unit scale S/v); others by magnitude and unit scale."""
    ur = M.ur
    if unit is not None:
        v = c.real(name, pos=pos) if si is None else si
        return ur.Quantity(v, unit), v
    if pos:
        v = c.real(name, pos=True)
        S = c.real(name + "_si", pos=True) if si is None else si
        u = loader.symunit("vcu_" + name, like, (S / v).t)
        return ur.Quantity(v, u), S
    v = c.real(name)
    s = c.real("scale_" + name, pos=True)
    u = loader.symunit("vcu_" + name, like, s.t)
    return ur.Quantity(v, u), v * s


def params(c, kind, positive=(), default_units=False, skip=(), a_zero=False):
    """Arbitrary constructor arguments of a model: ({name: quantity}, {name: SI value})."""
    q, s = {}, {}
    positive = set(positive) | ({"du", "dl", "delta_t"} if kind == "TL" else {"d1", "d2", "delta_t"})
    for n, like in units_of(kind).items():
        if n in skip:
            continue
        if n == "d2":
            gap = c.real("d2_minus_d1", pos=True)
            S = s["d1"] + gap
            q[n], s[n] = quantity(c, n, like, True, si=S, unit=like if default_units else None)
            continue
        if n == "a" and a_zero:
            q[n], s[n] = M.ur.Quantity(0.0, like), SReal(sym.rv(0))
            continue
        q[n], s[n] = quantity(c, n, like, n in positive, unit=like if default_units else None)
    return q, s


def si_mag(v, like):
    return v.to(like).magnitude


def drivers(c, name="F", n=None, nan=False, default_units=False, ints=False):
    """(quantity, SI array, n): an arbitrary one-dimensional forcing of arbitrary length
    (with ``ints`` also an integer array, in the default unit so that it stays one)."""
    if n is None:
        n = c.int("n_" + name, 0)
    if ints and not c.choose("real drivers"):
        v = SArray.fresh(name + "_int", n, dtype=int)
        f = v.fn
        return M.ur.Quantity(v, ERF), SArray(n, lambda i: SReal(*sym.lift(f(i)))), n
    v = SArray.fresh(name, n, nan=nan)
    if default_units:
        return M.ur.Quantity(v, ERF), v, n
    s = c.real("scale_" + name, pos=True)
    u = loader.symunit("vcu_" + name, ERF, s.t)
    return M.ur.Quantity(v, u), v * s, n


# -- spec functions (the mathematics of the property statements) ---------------

def spec_upper(dt, tu, tl, F, lam, a, eff, eta, C):
    return tu + dt * (F - (lam - a * tu) * tu - eff * eta * (tu - tl)) / C


def spec_lower(dt, tu, tl, eta, C):
    return tl + dt * (eta * (tu - tl)) / C


def spec_tl_rndt(dt, tu, tl, tu1, tl1, Cu, Cl):
    return (Cu * (tu1 - tu) + Cl * (tl1 - tl)) / dt


def spec_box(dt, t, q, d, F):
    e = (-dt / d).exp()
    return t * e + q * F * (1 - e)


def ir_equiv(s):
    """Two-layer system equivalent to impulse-response SI parameters (times in s)."""
    q1, q2, d1, d2, eff = s["q1"], s["q2"], s["d1"] * YEAR, s["d2"] * YEAR, s["efficacy"]
    lam = 1 / (q1 + q2)
    C = d1 * d2 / (q1 * d2 + q2 * d1)
    effCD = lam * (d1 * lam * q1 + d2 * lam * q2) - C
    CD = effCD / eff
    eta = CD / (d1 * lam * q2 + d2 * lam * q1)
    phi1 = (lam * d1 - C) / effCD
    phi2 = (lam * d2 - C) / effCD
    return dict(lam=lam, C=C, CD=CD, eta=eta, phi1=phi1, phi2=phi2, eff=eff)


def spec_ir_rndt(e, t1, t2, F):
    T = t1 + t2
    Td = e["phi1"] * t1 + e["phi2"] * t2
    return F - e["lam"] * T - (e["eff"] - 1) * e["eta"] * (T - Td)


class TLSpec:
    """T_upper, T_lower, heat uptake as functions of the time index (solution of the recursion)."""

    kind = "TL"

    def __init__(self, c, s, F, tag=""):
        mk = lambda n: c.func(n + tag, z3.IntSort(), z3.RealSort())
        self.f = dict(_temp_upper_mag=mk("TU"), _temp_lower_mag=mk("TL"), _rndt_mag=mk("RN"))
        self.s, self.F = s, F
        self.Cu, self.Cl = s["du"] * RHO_C, s["dl"] * RHO_C

    def at(self, arr, j):
        return SReal(self.f[arr](j))

    def define(self, j):
        """Definitional equations at index j >= 1 (or j == 0)."""
        j = z3.simplify(j)
        tu1, tl1, rn1 = (self.at(a, j) for a in TL_ARR)
        if z3.is_int_value(j) and j.as_long() == 0:
            return [(x.t, sym.rv(0)) for x in (tu1, tl1, rn1)]
        k = z3.simplify(j - 1)
        s = self.s
        tu, tl = self.at("_temp_upper_mag", k), self.at("_temp_lower_mag", k)
        F = self.F.fn(k)
        nu = spec_upper(s["delta_t"], tu, tl, F, s["lambda0"], s["a"], s["efficacy"], s["eta"], self.Cu)
        nl = spec_lower(s["delta_t"], tu, tl, s["eta"], self.Cl)
        rn = spec_tl_rndt(s["delta_t"], tu, tl, nu, nl, self.Cu, self.Cl)
        return [(tu1.t, nu.t), (tl1.t, nl.t), (rn1.t, rn.t)]


class IRSpec:
    kind = "IR"

    def __init__(self, c, s, F, tag="", rndt=True):
        mk = lambda n: c.func(n + tag, z3.IntSort(), z3.RealSort())
        self.f = dict(_temp1_mag=mk("T1"), _temp2_mag=mk("T2"), _rndt_mag=mk("RN"))
        self.s, self.F, self.rndt = s, F, rndt
        self.e = ir_equiv(s) if rndt else None

    def at(self, arr, j):
        return SReal(self.f[arr](j))

    def define(self, j):
        j = z3.simplify(j)
        t1n, t2n, rn1 = (self.at(a, j) for a in IR_ARR)
        if z3.is_int_value(j) and j.as_long() == 0:
            return [(x.t, sym.rv(0)) for x in (t1n, t2n, rn1)]
        k = z3.simplify(j - 1)
        s = self.s
        t1, t2 = self.at("_temp1_mag", k), self.at("_temp2_mag", k)
        F = self.F.fn(k)
        out = [(t1n.t, spec_box(s["delta_t"], t1, s["q1"], s["d1"], F).t),
               (t2n.t, spec_box(s["delta_t"], t2, s["q2"], s["d2"], F).t)]
        if self.rndt:
            out.append((rn1.t, spec_ir_rndt(self.e, t1, t2, F).t))
        return out


# -- model state -----------------------------------------------------------------

def nan_array(n):
    return SArray(n, lambda i: SReal(sym.rv(0), True))


def havoc_run_state(c, m, kind, tag="h"):
    """Whatever an earlier history may have left in the run state and drivers."""
    n0 = c.int("n_old" + tag, 0)
    ln = c.int("len" + tag, 0)  # invariant: set up by __init__ and reset, kept by step
    for a in arrays(kind):
        setattr(m, a, SArray.fresh("old" + tag + a, ln, nan=True))
    if c.choose("idx-nan"):
        m._timestep_idx = np.nan
    else:
        m._timestep_idx = c.int("idx_old" + tag, 0)
    old = SArray.fresh("old" + tag + "erf", n0, nan=True)
    m._erf = M.ur.Quantity(old, ERF)
    m._erf_mag = old


def havoc_drivers(c, m, F, n):
    """Earlier drivers: in W/m^2 (havoc_run_state), in the new drivers' unit, in an
    unrelated unit, or the very object assigned again after its values changed."""
    if c.choose("earlier drivers in W/m^2"):
        return
    old = m._erf.magnitude
    if c.choose("earlier drivers in the same unit"):
        m._erf = M.ur.Quantity(old, F._units)
        m._erf_mag = old * si_mag(M.ur.Quantity(1, F._units), ERF)
    elif c.choose("earlier drivers in another unit"):
        s = c.real("scale_Fold", pos=True)
        m._erf = M.ur.Quantity(old, loader.symunit("vcu_Fold", ERF, s.t))
        m._erf_mag = old * s
    else:
        m._erf = F


def snapshot(m):
    out = {}
    for k, v in m.__dict__.items():
        if isinstance(v, SArray):
            out[k] = (v, v.snapshot())
        elif isinstance(v, np.ndarray):
            out[k] = (v, v.copy())
        elif hasattr(v, "magnitude"):
            mg = v.magnitude
            out[k] = (v, (mg.snapshot() if isinstance(mg, SArray) else np.copy(mg) if isinstance(mg, np.ndarray) else mg, v._units))
        elif isinstance(v, (list, dict, set)):
            out[k] = (v, repr(v))
        else:
            out[k] = (v, v)
    return out


def _same_num(c, name, a, b):
    if a is b:
        return
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        ok = a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))
        c.ensure(name, z3.BoolVal(ok), "frame")
        return
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return
    try:
        c.ensure(name, eqv(a, b), "frame")
    except Unsupported:
        same = type(a) is type(b) and a == b
        c.ensure(name, z3.BoolVal(bool(same)), "frame")


def same_quantity(c, name, a, b, kind="frame"):
    """a is the quantity b: same units and magnitude."""
    if a is b:
        c.ensure(name, z3.BoolVal(True), kind)
        return
    if not hasattr(a, "magnitude") or not hasattr(b, "magnitude"):
        _same_num(c, name, a, b)
        return
    c.ensure(name + " (units)", z3.BoolVal(dict(a._units) == dict(b._units)), kind)
    _same_num(c, name, a.magnitude, b.magnitude)


def frame(c, m, snap, modifies=(), label=""):
    """Every attribute outside ``modifies`` still has its old value."""
    now = m.__dict__
    new = set(now) - set(snap)
    gone = set(snap) - set(now)
    c.ensure(label + "frame: no attribute added or removed", z3.BoolVal(not (new - set(modifies)) and not gone), "frame")
    for k, (obj, old) in snap.items():
        if k in modifies or k not in now:
            continue
        v = now[k]
        nm = label + "frame: %s unchanged" % k
        if isinstance(obj, SArray):
            if v is obj and v.fn is old.fn:
                continue
            if not isinstance(v, SArray):
                c.fail(nm, "replaced by %s" % type(v), "frame")
                continue
            _same_num(c, nm, v, old)
        elif isinstance(old, tuple) and hasattr(obj, "magnitude"):
            if not hasattr(v, "magnitude"):
                c.fail(nm, "replaced by %s" % type(v), "frame")
                continue
            if dict(v._units) != dict(old[1]):
                c.fail(nm, "units changed", "frame")
                continue
            om, nmg = old[0], v.magnitude
            if isinstance(om, SArray) and isinstance(nmg, SArray) and nmg.fn is om.fn:
                continue
            _same_num(c, nm, nmg, om)
        elif isinstance(v, (list, dict, set)):
            c.ensure(nm, z3.BoolVal(repr(v) == old), "frame")
        else:
            _same_num(c, nm, v, old)


RUN_ATTRS = {"_timestep_idx", "_temp_upper_mag", "_temp_lower_mag", "_rndt_mag", "_temp1_mag", "_temp2_mag"}


def known_attrs(kind):
    if kind == "TL":
        ps = list(TL_UNITS)
        extra = ["_heat_capacity_upper_mag", "_heat_capacity_lower_mag"]
    else:
        ps = list(IR_UNITS)
        extra = []
    return ({"_" + p for p in ps} | {"_%s_mag" % p for p in ps} | set(extra) | set(arrays(kind))
            | {"_timestep_idx", "_erf", "_erf_mag"})


NAMED = {
    "m": "m cm km mm inch foot mile nautical_mile fathom",
    "s": "s ms minute hour day week month year decade century kyr common_year leap_year",
    "W/m^2": "W/m^2 mW/m^2 kW/m^2 W/cm^2 J/s/m^2 J/year/m^2 GJ/month/km^2 terawatt/km^2 cal/s/m^2 kg/s^3",
    "delta_degC": "delta_degC kelvin millikelvin delta_degF degR",
    "dimensionless": "dimensionless mm/m W/kW year/month",
}


def named_units(like):
    """Units of the registry itself, for the kinds of quantity the models take."""
    ur = M.ur
    if like in NAMED:
        out = NAMED[like].split(" ")
    elif like == "yr":
        out = NAMED["s"].split(" ")
    else:
        F, T = NAMED["W/m^2"].split(" "), NAMED["delta_degC"].split(" ")
        form = {"W/m^2/delta_degC": "(%s) / (%s)", "W/m^2/delta_degC^2": "(%s) / (%s)^2", "delta_degC/(W/m^2)": "(%s)^-1 * (%s)"}[like]
        out = [form % (f, t) for i, f in enumerate(F) for j, t in enumerate(T) if i == 0 or j == 0 or i == j]
    dim = ur.Unit(like).dimensionality
    r = []
    for u in out:
        try:
            if ur.Unit(u).dimensionality == dim:
                r.append(u)
        except Exception:
            pass  # not known to this registry
    return r


def factor(u, like):
    return si_mag(M.ur.Quantity(SReal(sym.rv(1)), u), like)


def rep_invariant(c, m, kind, s, label="", names=None):
    """Inv: every normalised magnitude equals its quantity in the class's unit."""
    for p, like in units_of(kind).items():
        if names and p not in names:
            continue
        c.ensure_eq(label + "Inv: _%s_mag is %s in %s" % (p, p, like), getattr(m, "_%s_mag" % p), s[p], "invariant")
    if kind == "TL" and not names:
        c.ensure_eq(label + "Inv: upper heat capacity", m._heat_capacity_upper_mag, s["du"] * RHO_C, "invariant")
        c.ensure_eq(label + "Inv: lower heat capacity", m._heat_capacity_lower_mag, s["dl"] * RHO_C, "invariant")


# -- loop contract of run -----------------------------------------------------------

class RunLoop:
    """Invariant of the time loop after k steps: entries j < k hold the spec
    values, entries j >= k are NaN, and the index is NaN (k = 0) or k - 1."""

    def __init__(self, c, m, spec, n):
        self.c, self.m, self.spec, self.n = c, m, spec, n
        self.kind = spec.kind
        self.used = 0

    def matches(self, frame, seq):
        return True

    def _install(self, k):
        c, m = self.c, self.m
        z = z3.is_int_value(k) and k.as_long() == 0
        for a in arrays(self.kind):
            arr = getattr(m, a)
            f = self.spec.f[a]
            arr.fn = lambda j, f=f: sym.ite(j < k, SReal(f(j)), SReal(sym.rv(0), True))
        m._timestep_idx = np.nan if z else sym.SInt(z3.simplify(k - 1))

    def _check(self, k, when, hist=None):
        """State after k steps (k an Int term)."""
        c, m = self.c, self.m
        k = z3.simplify(k)
        zero = z3.is_int_value(k) and k.as_long() == 0
        for a in arrays(self.kind):
            arr = getattr(m, a, None)
            if not isinstance(arr, SArray):
                c.fail("loop invariant (%s): %s is an array" % (when, a), "not an array", "loop invariant")
                raise PathEnd()
            c.ensure("loop invariant (%s): len(%s)" % (when, a), iterm(arr.n) == iterm(self.n), "loop invariant")
        objs = [getattr(m, a) for a in arrays(self.kind)]
        c.ensure("loop invariant (%s): output arrays are distinct objects" % when,
                 z3.BoolVal(len({id(o) for o in objs} | {id(m._erf_mag)}) == len(objs) + 1), "loop invariant")
        j = z3.Int("j!%d" % c.counter("jloop"))
        saved = list(c.pc), list(c.rewrites)
        last = z3.simplify(k - 1)
        for a in arrays(self.kind):
            arr = getattr(m, a)
            f = self.spec.f[a]
            if not zero:
                c.rewrites = [r for r in self.spec.define(last)]
                c.ensure_eq("loop invariant (%s): %s at the new point" % (when, a), arr.fn(last), SReal(f(last)), "loop invariant")
                c.rewrites = list(saved[1])
                c.pc = saved[0] + [j >= 0, j < last, last < iterm(self.n)]
                c.ensure_eq("loop invariant (%s): %s before it unchanged" % (when, a), arr.fn(j), SReal(f(j)), "loop invariant")
            c.pc = saved[0] + [j >= k, j < iterm(self.n)]
            c.ensure_eq("loop invariant (%s): %s after it still NaN" % (when, a), arr.fn(j), SReal(sym.rv(0), True), "loop invariant")
            c.pc, c.rewrites = list(saved[0]), list(saved[1])
        idx = m._timestep_idx
        if zero:
            c.ensure("loop invariant (%s): index not started" % when,
                     z3.BoolVal(isinstance(idx, float) and idx != idx), "loop invariant")
        elif isinstance(idx, float):
            c.fail("loop invariant (%s): index is the last point" % when, "NaN", "loop invariant")
        else:
            c.ensure("loop invariant (%s): index is the last point" % when, iterm(idx) == last, "loop invariant")

    # -- locals carried by the loop
    def specs(self):
        """Values a carried local may hold after k steps."""
        out = []
        for a in arrays(self.kind):
            f = self.spec.f[a]
            out.append(("%s[k]" % a, lambda k, f=f: SReal(f(k))))
            out.append(("%s[k-1], the one before" % a, lambda k, f=f: SReal(f(z3.simplify(k - 1)))))
        F = self.spec.F
        out.append(("forcing k-1, the one before", lambda k: F.fn(z3.simplify(k - 1))))
        return out

    def _values(self, it, env, k, exiting=False):
        out = []
        info = it.info
        for n in info.names:
            if n in info.carried:
                out.append(self.carry.value(n, k))
            elif n in info.loaded and n in env:
                out.append(env[n])
            else:
                out.append(instrument.Poison(n))
        return tuple(out)

    def begin(self, it, env):
        return self._values(it, env, self.k)

    def end(self, it, env):
        return self._values(it, env, self.k_end, True)

    def leave(self, it):
        pass

    def matches_while(self, fr, info, probe):
        if info.calls & {"run", "_run"} or fr.f_code.co_name.startswith("run_scenarios"):
            return False
        if info.calls & {"step", "_step"}:
            return True
        try:
            r = probe() if probe is not None else None
        except Exception:
            return False
        return isinstance(r, SBool) and not (z3.is_true(z3.simplify(r.t)) or z3.is_false(z3.simplify(r.t)))

    def while_n(self):
        return self.n

    def _sizes(self, it, env):
        """Lengths of the mutable locals of the loop (which it may only read)."""
        out = {}
        for n in set(it.info.loaded) | set(it.info.carried):
            v = env.get(n)
            if type(v) in (list, dict, set):
                out[n] = (v, len(v))
            elif isinstance(v, SArray) and not any(v is getattr(self.m, a, None) for a in arrays(self.kind)):
                out[n] = (v, v.version)
        return out

    def _locals_ok(self, it, env):
        for n, (v, size) in self.sizes.items():
            if env.get(n) is v and (v.version if isinstance(v, SArray) else len(v)) != size:
                raise Unsupported("local %r collected by the loop" % n)
        info = it.info
        for n in info.carried:
            if n not in env:
                raise Unsupported("local %r deleted by the loop" % n)
        last = z3.simplify(self.k)
        saved = list(self.c.rewrites)
        self.c.rewrites = [r for r in self.spec.define(z3.simplify(self.k + 1))]
        try:
            for n in info.carried:
                if n in self.locals:
                    self.carry.check(n, z3.simplify(self.k + 1), env[n], "preserved")
        finally:
            self.c.rewrites = saved

    def next(self, it, fr):
        c = self.c
        if it.state == 0:
            self.used += 1
            self._check(z3.IntVal(0), "entry")
            self.snap = snapshot(self.m)
            env = self.locals = dict(fr.f_locals)
            self.sizes = self._sizes(it, env)
            self.carry = instrument.Carried(c, it.info, {n: env[n] for n in it.info.carried if n in env}, self.specs())
            saved = list(c.rewrites)
            c.rewrites = [r for r in self.spec.define(z3.IntVal(0))]
            for n in it.info.carried:
                if n in env:
                    self.carry.check(n, z3.IntVal(0), env[n], "entry")
            c.rewrites = saved
            if it.is_while or c.choose("loop body"):
                k = c.int("k_step", 0)
                c.require(k.t <= iterm(it.n) if it.is_while else k.t < iterm(it.n))
                if c.branch(k.t == 0):
                    kt = z3.IntVal(0)
                else:
                    kt = k.t
                self.k = kt
                self._install(kt)
                it.state = 1
                return None if it.is_while else it.seq.get(kt)
            it.state = 2
            kt = iterm(it.n)
            if c.branch(kt == 0):
                kt = z3.IntVal(0)
            self.k_end = kt
            self._install(kt)
            raise StopIteration
        if it.state == 1:
            self._check(self.k + 1, "preserved")
            self._locals_ok(it, fr.f_locals)
            frame(c, self.m, self.snap, RUN_ATTRS, "loop ")
            raise PathEnd("loop body verified")
        raise StopIteration


@contextlib.contextmanager
def patched(obj, **attrs):
    old = {k: obj.__dict__[k] for k in attrs if k in obj.__dict__}
    try:
        for k, v in attrs.items():
            setattr(obj, k, v)
        yield
    finally:
        for k in attrs:
            if k in old:
                setattr(obj, k, old[k])
            else:
                delattr(obj, k)
