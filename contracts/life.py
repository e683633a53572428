"""Contracts over models with an earlier life: parameters assigned, the model
used (drivers, reset, steps, conversion), one parameter assigned again, and
then the same postconditions as for a new model.  Every body is inlined, so
that anything a function keeps from an earlier call is seen."""
import numpy as np
import z3

from vc import loader, sym
from vc.sym import SArray, SReal, bterm, iterm

from . import common as K
from .common import IR_UNITS, RHO_C, TL_UNITS, arrays, cls, drivers, frame, ir_equiv, quantity, si_mag, units_of
from .tasks import POSIR, STUBS, TASKS, _default_positive, exact_keys, step_spec, task, uninstall_all, reinstall


def pick(c, names):
    for n in names[:-1]:
        if c.choose("reassigned: " + n):
            return n
    return names[-1]


def model_with_past(c, kind, names, use, tl_conv=False):
    """(model, q, s): parameter p had another value while the model was used."""
    p = pick(c, names)
    like = units_of(kind)[p]
    pos = p in {"du", "dl", "delta_t", "d1", "d2"} or kind == "IR" and p in POSIR or tl_conv and p in ("lambda0", "eta", "efficacy")
    q, s = {}, {}
    was = None
    for n, lk in units_of(kind).items():
        ps = n in {"du", "dl", "delta_t", "d1", "d2"} or kind == "IR" and n in POSIR or tl_conv and n in ("lambda0", "eta", "efficacy")
        si = None
        if n == "d2":
            si = s["d1"] + c.real("d2_minus_d1", pos=True)
            if p == "d1":
                si = si + was[1]
        if n == "a" and tl_conv:
            q[n], s[n] = K.M.ur.Quantity(0.0, lk), SReal(sym.rv(0))
            continue
        q[n], s[n] = quantity(c, n, lk, ps, si=si, unit=None)
        if n == p:
            si = s["d1"] + c.real("was_gap", pos=True) if p == "d2" else None
            was = quantity(c, "was_" + p, like, pos, si=si, unit=None)
    m = cls(kind)(**dict(q, **{p: was[0]}))
    use(c, m)
    setattr(m, p, q[p])
    return m, q, s


def use_steps(c, m):
    F, _, n = drivers(c, "Fbefore")
    c.require(n >= 3)
    m.set_drivers(F)
    m.reset()
    m.step()
    m.step()
    return F, n


def step_after(kind):
    def f(c):
        keep = uninstall_all()
        try:
            m, q, s = model_with_past(c, kind, list(units_of(kind)), lambda c, m: use_steps(c, m))
            F, Fsi, n = drivers(c)
            m.set_drivers(F)
            m.reset()
            A = arrays(kind)
            for a in A:
                setattr(m, a, SArray.fresh("cur" + a, n, nan=True))
            i = c.int("i", 0)
            c.require(i + 1 < n)
            m._timestep_idx = i
            for a in A[:2]:
                c.require(z3.Not(bterm(getattr(m, a).fn(i.t).nan)))
            old = {a: getattr(m, a).snapshot() for a in A}
            m.step()
            new = z3.simplify(i.t + 1)
            vals = step_spec(m, kind, s, Fsi.fn(i.t), old[A[0]].fn(i.t), old[A[1]].fn(i.t))
            for a, v in zip(A, vals):
                c.ensure_eq("after reassignment: %s at the new point" % a, getattr(m, a).fn(new), v)
        finally:
            reinstall(keep)
    return f


for _k, _n in (("TL", "two_layer_model.TwoLayerModel"), ("IR", "impulse_response_model.ImpulseResponseModel")):
    task(_k + ".step:reassigned", _n + ": a step after use and reassignment of any one parameter")(step_after(_k))


@task("TL.get_impulse_response_parameters:reassigned", "TwoLayerModel.get_impulse_response_parameters after use and reassignment")
def t_tl(c):
    keep = uninstall_all()
    try:
        m, q, s = model_with_past(c, "TL", ["du", "dl", "lambda0", "efficacy", "eta", "delta_t"],
                                  lambda c, m: m.get_impulse_response_parameters(), tl_conv=True)
        out = m.get_impulse_response_parameters()
        exact_keys(c, out, ("d1", "d2", "q1", "q2", "efficacy"))
        Cu, Cl = s["du"] * RHO_C, s["dl"] * RHO_C
        lam, eff, eta = s["lambda0"], s["efficacy"], s["eta"]
        c.ensure_eq("efficacy is the latest", si_mag(out["efficacy"], "dimensionless"), eff)
        for nm in "12":
            d = si_mag(out["d" + nm], "s")
            phi = (lam * d - Cu) / (eff * Cl)
            c.ensure_eq("mode %s solves the upper-layer equation" % nm, Cu / d, lam + eff * eta * (1 - phi))
            c.ensure_eq("mode %s solves the lower-layer equation" % nm, -Cl * phi / d, eta * (1 - phi))
        c.ensure_eq("q1 + q2 = 1/lambda0", si_mag(out["q1"], IR_UNITS["q1"]) + si_mag(out["q2"], IR_UNITS["q2"]), 1 / lam)
    finally:
        reinstall(keep)


@task("IR.get_two_layer_parameters:reassigned", "ImpulseResponseModel.get_two_layer_parameters after use and reassignment")
def t_ir(c):
    keep = uninstall_all()
    try:
        m, q, s = model_with_past(c, "IR", list(IR_UNITS), lambda c, m: m.get_two_layer_parameters())
        out = m.get_two_layer_parameters()
        exact_keys(c, out, ("lambda0", "du", "dl", "eta", "efficacy"))
        e = ir_equiv(s)
        c.ensure_eq("efficacy is the latest", si_mag(out["efficacy"], "dimensionless"), s["efficacy"])
        for k, want in (("lambda0", e["lam"]), ("du", e["C"] / RHO_C), ("dl", e["CD"] / RHO_C), ("eta", e["eta"])):
            c.ensure_eq(k + " is that of the equivalent system", si_mag(out[k], TL_UNITS[k]), want)
    finally:
        reinstall(keep)
