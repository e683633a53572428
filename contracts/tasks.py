"""The contracts.  One task = one function (or one lemma) with its pre- and
postconditions; ``STUBS`` are the same contracts as seen by callers."""
import inspect

import numpy as np
import z3

from vc import loader, sym
from vc.engine import eqv
from vc.sym import PathEnd, SArray, SBool, SInt, SReal, Unsupported, bterm, iterm, lift

from . import common as K
from .common import (ERF, IR_ARR, IR_UNITS, RHO_C, TL_ARR, TL_UNITS, YEAR, IRSpec, RunLoop, TLSpec, arrays, cls,
                     drivers, frame, havoc_run_state, ir_equiv, known_attrs, params, patched, quantity, rep_invariant,
                     same_quantity, si_mag, snapshot, spec_box, spec_ir_rndt, spec_lower, spec_tl_rndt, spec_upper,
                     units_of)

TASKS = {}  # name -> (function under contract, fn)
STUBS = {}  # name -> (owner getter, attribute, factory(real) -> stub)


def task(name, function):
    def deco(f):
        TASKS[name] = (function, f)
        return f
    return deco


def bind(real, names, a, k):
    """Arguments of a call by canonical name, or None if the signature differs."""
    try:
        ps = [p for p in inspect.signature(real).parameters]
        if ps and ps[0] == "self" and "self" not in names:
            ps = ps[1:]
        if ps != list(names):
            return None
        b = dict(zip(ps, a))
        b.update(k)
        return [b[n] for n in names] if set(b) == set(names) else None
    except (TypeError, ValueError):
        return None


def req(c, what, cond):
    c.ensure("call requires: " + what, cond, "requires")
    c.require(cond)


def kernel_stub(owner, attr, names, spec, requires, static=True):
    """Callers see only: requires -> result == spec(arguments)."""
    def factory(real):
        raw = real.__func__ if isinstance(real, staticmethod) else real

        def stub(*a, **k):
            b = bind(raw, names, a, k)
            if b is None or not all(lift(x) is not None for x in b):
                return raw(*a, **k)
            c = sym.ctx()
            b = [SReal(*lift(x)) for x in b]
            for w, f in requires:
                req(c, "%s: %s" % (attr, w), f(dict(zip(names, b))))
            return spec(*b)
        stub._vc_contract = True
        return staticmethod(stub)
    return (owner, attr, factory)


N_UP = ("delta_t", "t_upper", "t_lower", "erf", "lambda0", "a", "efficacy", "eta", "heat_capacity_upper")
N_LO = ("delta_t", "t_lower", "t_upper", "eta", "heat_capacity_lower")
N_RN = ("delta_t", "t_lower_now", "t_lower_prev", "heat_capacity_lower", "t_upper_now", "t_upper_prev",
        "heat_capacity_upper")
N_BX = ("delta_t", "t", "q", "d", "erf")
TLc = lambda: K.M.TwoLayerModel
IRc = lambda: K.M.ImpulseResponseModel


@task("TL._calculate_next_temp_upper", "two_layer_model.TwoLayerModel._calculate_next_temp_upper")
def t_upper(c):
    v = [c.real(n) for n in N_UP]
    c.require(v[8] > 0)
    r = TLc()._calculate_next_temp_upper(*v)
    dt, tu, tl, F, lam, a, eff, eta, C = v
    c.ensure_eq("result is one forward step of the upper layer", r, spec_upper(dt, tu, tl, F, lam, a, eff, eta, C))


STUBS["TL._calculate_next_temp_upper"] = kernel_stub(
    TLc, "_calculate_next_temp_upper", N_UP, spec_upper, [("heat capacity positive", lambda b: b["heat_capacity_upper"] > 0)])


@task("TL._calculate_next_temp_lower", "two_layer_model.TwoLayerModel._calculate_next_temp_lower")
def t_lower(c):
    v = dt, tl, tu, eta, C = [c.real(n) for n in N_LO]
    c.require(C > 0)
    r = TLc()._calculate_next_temp_lower(*v)
    c.ensure_eq("result is one forward step of the lower layer", r, spec_lower(dt, tu, tl, eta, C))


STUBS["TL._calculate_next_temp_lower"] = kernel_stub(
    TLc, "_calculate_next_temp_lower", N_LO, lambda dt, tl, tu, eta, C: spec_lower(dt, tu, tl, eta, C),
    [("heat capacity positive", lambda b: b["heat_capacity_lower"] > 0)])


@task("TL._calculate_next_rndt", "two_layer_model.TwoLayerModel._calculate_next_rndt")
def t_rndt(c):
    v = dt, l1, l0, Cl, u1, u0, Cu = [c.real(n) for n in N_RN]
    c.require(dt > 0)
    r = TLc()._calculate_next_rndt(*v)
    c.ensure_eq("result times timestep is the change in heat content", r * dt, Cu * (u1 - u0) + Cl * (l1 - l0))


STUBS["TL._calculate_next_rndt"] = kernel_stub(
    TLc, "_calculate_next_rndt", N_RN, lambda dt, l1, l0, Cl, u1, u0, Cu: spec_tl_rndt(dt, u0, l0, u1, l1, Cu, Cl),
    [("timestep positive", lambda b: b["delta_t"] > 0)])


@task("IR._calculate_next_temp", "impulse_response_model.ImpulseResponseModel._calculate_next_temp")
def t_box(c):
    v = dt, t, q, d, F = [c.real(n) for n in N_BX]
    c.require(dt > 0)
    c.require(d > 0)
    r = IRc()._calculate_next_temp(*v)
    c.ensure_eq("result is the exact exponential step of one box", r, spec_box(dt, t, q, d, F))


STUBS["IR._calculate_next_temp"] = kernel_stub(
    IRc, "_calculate_next_temp", N_BX, spec_box,
    [("timestep positive", lambda b: b["delta_t"] > 0), ("timescale positive", lambda b: b["d"] > 0)])

POSIR = ("q1", "q2", "efficacy")


@task("IR._calculate_next_rndt", "impulse_response_model.ImpulseResponseModel._calculate_next_rndt")
def t_ir_rndt(c):
    q, s = params(c, "IR", positive=POSIR)
    m = IRc()(**q)
    havoc_run_state(c, m, "IR")
    snap = snapshot(m)
    t1, t2, F = c.real("t1"), c.real("t2"), c.real("F")
    r = m._calculate_next_rndt(t1, t2, F, m._efficacy_mag)
    c.ensure_eq("result is the net flux of the equivalent two-layer system", r, spec_ir_rndt(ir_equiv(s), t1, t2, F))
    frame(c, m, snap)


def _ir_rndt_factory(real):
    def stub(self, *a, **k):
        c = sym.ctx()
        b = bind(real, ("t1", "t2", "erf", "efficacy"), a, k)
        s = getattr(c, "si", None)
        if b is None or s is None or not all(lift(x) is not None for x in b):
            return real(self, *a, **k)
        b = [SReal(*lift(x)) for x in b]
        req(c, "IR._calculate_next_rndt: efficacy is the model's", eqv(b[3], s["efficacy"]))
        if not hasattr(c, "_equiv"):
            c._equiv = ir_equiv(s)
        return spec_ir_rndt(c._equiv, b[0], b[1], b[2])
    return stub


STUBS["IR._calculate_next_rndt"] = (IRc, "_calculate_next_rndt", _ir_rndt_factory)


# -- step, reset, set_drivers -------------------------------------------------------

def fresh_model(c, kind, positive=None, **kw):
    q, s = params(c, kind, positive=POSIR if kind == "IR" else (), **kw)
    m = cls(kind)(**q)
    c.si = s
    return m, q, s


def step_spec(m, kind, s, F, tu, tl):
    """New entries given the previous ones."""
    if kind == "TL":
        Cu, Cl = s["du"] * RHO_C, s["dl"] * RHO_C
        nu = spec_upper(s["delta_t"], tu, tl, F, s["lambda0"], s["a"], s["efficacy"], s["eta"], Cu)
        nl = spec_lower(s["delta_t"], tu, tl, s["eta"], Cl)
        return nu, nl, spec_tl_rndt(s["delta_t"], tu, tl, nu, nl, Cu, Cl)
    c = sym.ctx()
    if not hasattr(c, "_equiv"):
        c._equiv = ir_equiv(s)
    return (spec_box(s["delta_t"], tu, s["q1"], s["d1"], F), spec_box(s["delta_t"], tl, s["q2"], s["d2"], F),
            spec_ir_rndt(c._equiv, tu, tl, F))


def step_task(kind):
    def f(c):
        m, q, s = fresh_model(c, kind)
        F, Fsi, n = drivers(c)
        m.set_drivers(F)
        A = arrays(kind)
        for a in A:
            setattr(m, a, SArray.fresh("cur" + a, n, nan=True))
        if c.choose("before first step"):
            c.require(n >= 1)
            m._timestep_idx = np.nan
            i = None
        else:
            i = c.int("i", 0)
            c.require(i + 1 < n)
            m._timestep_idx = i
            for a in A[:2]:
                c.require(z3.Not(bterm(getattr(m, a).fn(i.t).nan)))
        snap = snapshot(m)
        old = {a: getattr(m, a).snapshot() for a in A}
        m.step()
        new = z3.IntVal(0) if i is None else z3.simplify(i.t + 1)
        idx = m._timestep_idx
        if isinstance(idx, float):
            c.fail("index advances by one", "index is %r" % idx)
        else:
            c.ensure("index advances by one", iterm(idx) == new)
        if i is None:
            vals = [SReal(sym.rv(0))] * 3
        else:
            vals = step_spec(m, kind, s, Fsi.fn(i.t), old[A[0]].fn(i.t), old[A[1]].fn(i.t))
        j = c.int("j", 0)
        c.require(j < n)
        for a, v in zip(A, vals):
            arr = getattr(m, a)
            c.ensure("%s keeps its length" % a, iterm(arr.n) == n.t)
            c.ensure_eq("%s at the new point" % a, arr.fn(new), v)
            pc = list(c.pc)
            c.require(z3.Not(j.t == new))
            c.ensure_eq("%s elsewhere unchanged" % a, arr.fn(j.t), old[a].fn(j.t), "frame")
            c.pc = pc
        frame(c, m, snap, set(A) | {"_timestep_idx"})
    return f


for _k in ("TL", "IR"):
    task(_k + "._step", "%s._step / Model.step" % ("two_layer_model.TwoLayerModel" if _k == "TL" else
                                                  "impulse_response_model.ImpulseResponseModel"))(step_task(_k))


def _step_factory(kind):
    def factory(real):
        def stub(self, *a, **k):
            c = sym.ctx()
            s = getattr(c, "si", None)
            A = arrays(kind)
            arrs = [getattr(self, x, None) for x in A]
            if a or k or s is None or not all(isinstance(x, SArray) for x in arrs) or not isinstance(self._erf_mag, SArray):
                return real(self, *a, **k)
            n = self._erf_mag.n
            idx = self._timestep_idx
            for x in arrs:
                req(c, "_step: outputs as long as the drivers", iterm(x.n) == iterm(n))
            first = isinstance(idx, float) and idx != idx
            new = z3.IntVal(0) if first else z3.simplify(iterm(idx) + 1)
            req(c, "_step: a next time point exists", z3.And(new >= 0, new < iterm(n)))
            if first or c.branch(new == 0):
                vals = [SReal(sym.rv(0))] * 3
                new = z3.IntVal(0)
            else:
                p = z3.simplify(new - 1)
                tu, tl = arrs[0].fn(p), arrs[1].fn(p)
                for x in (tu, tl):
                    if x.nan is not None:
                        req(c, "_step: previous point computed", z3.Not(bterm(x.nan)))
                F = self._erf_mag.fn(p)
                vals = step_spec(self, kind, s, SReal(F.t), SReal(tu.t), SReal(tl.t))
            for x, v in zip(arrs, vals):
                x[SInt(new)] = v
            self._timestep_idx = SInt(new)
        return stub
    return factory


STUBS["TL._step"] = (TLc, "_step", _step_factory("TL"))
STUBS["IR._step"] = (IRc, "_step", _step_factory("IR"))


def reset_task(kind):
    def f(c):
        m, q, s = fresh_model(c, kind)
        havoc_run_state(c, m, kind)
        F, Fsi, n = drivers(c, nan=True, ints=True)
        m.erf = F
        snap = snapshot(m)
        E = K.M.errors.ModelStateError
        j = c.int("j", 0)
        c.require(j < n)
        try:
            m.reset()
        except E:
            # only allowed if some value is NaN
            i = c.qvar()
            c.ensure("refused only if a driver is NaN",
                     z3.Exists([i], z3.And(i >= 0, i < n.t, bterm(Fsi.fn(i).nan))), "exceptions")
            frame(c, m, snap, label="refused: ")
            return
        c.ensure("accepted only if no driver is NaN", z3.Not(bterm(Fsi.fn(j.t).nan)), "exceptions")
        after_reset(c, m, kind, n)
        frame(c, m, snap, set(arrays(kind)) | {"_timestep_idx"})
    return f


def after_reset(c, m, kind, n):
    c.ensure("index is NaN", z3.BoolVal(isinstance(m._timestep_idx, float) and m._timestep_idx != m._timestep_idx), "after reset")
    j = c.int("jr", 0)
    objs = []
    for a in arrays(kind):
        arr = getattr(m, a)
        if not isinstance(arr, SArray):
            c.fail("%s has one entry per driver value" % a, "it is %r" % type(arr))
            continue
        objs.append(arr)
        c.ensure("%s has one entry per driver value" % a, iterm(arr.n) == iterm(n), "after reset")
        pc = list(c.pc)
        c.require(j < n)
        c.ensure_eq("%s is all NaN" % a, arr.fn(j.t), SReal(sym.rv(0), True), "after reset")
        c.pc = pc
    c.ensure("output arrays are distinct objects",
             z3.BoolVal(len({id(o) for o in objs} | {id(m._erf_mag)}) == len(objs) + 1), "after reset")


for _k in ("TL", "IR"):
    task(_k + "._reset", "%s._reset / Model.reset" % _k)(reset_task(_k))


def reset_unset_task(kind):
    def f(c):
        m, q, s = fresh_model(c, kind)
        snap = snapshot(m)
        raises(c, "drivers never set", K.M.errors.ModelStateError, m.reset)
        frame(c, m, snap)
    return f


for _k in ("TL", "IR"):
    task(_k + ".reset:never-set", "%s._reset on a model without drivers" % _k)(reset_unset_task(_k))


def _reset_factory(kind):
    def factory(real):
        def stub(self, *a, **k):
            if a or k or not isinstance(self._erf_mag, SArray) or not isinstance(getattr(self._erf, "magnitude", None), SArray):
                return real(self, *a, **k)
            if self._erf.magnitude.isnan().any():
                raise K.M.errors.ModelStateError("contract of _reset")
            for x in arrays(kind):
                setattr(self, x, K.nan_array(self._erf_mag.n))
            self._timestep_idx = np.nan
        return stub
    return factory


STUBS["TL._reset"] = (TLc, "_reset", _reset_factory("TL"))
STUBS["IR._reset"] = (IRc, "_reset", _reset_factory("IR"))


def raises(c, what, exc, fn, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        c.ensure("%s: raises %s" % (what, exc.__name__), z3.BoolVal(True), "exceptions")
        return True
    except Exception as e:
        if isinstance(e, exc):
            return True
        c.fail("%s: raises %s" % (what, exc.__name__), "raised %s: %s instead" % (type(e).__name__, e), "exceptions")
        return True
    c.fail("%s: raises %s" % (what, exc.__name__), "no exception", "exceptions")
    return False


class NDArray(sym.Sym):
    """An array of which only the shape is known (k dimensions); its values are arbitrary."""
    stands_for_ndarray = True
    shape, ndim, dtype = (), 0, np.dtype(float)  # pint looks for these on the class

    def __init__(self, shape, flat=None):
        self.shape = tuple(shape)
        self.ndim = len(shape)
        self.dtype = np.dtype(float)
        self._flat = flat

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of a multi-dimensional array" % k)

    @property
    def size(self):
        n = 1
        for x in self.shape:
            n = x * n
        return n

    def flatten(self, *a):
        if self._flat is None:
            c = sym.ctx()
            n = c.int("flat%d" % c.counter("flat"), 0)
            c.require(n == self.size)
            self._flat = SArray.fresh("flat%d" % c.counter("flat"), n, nan=True)
        return self._flat

    ravel = flatten

    def reshape(self, *a):
        if a in ((-1,), ((-1,),)):
            return self.flatten()
        raise Unsupported("reshape")

    def squeeze(self):
        keep = [x for x in self.shape if not (x == 1)]
        if len(keep) == 1:
            return self.flatten()
        return NDArray(keep, self._flat) if keep else self.flatten()[0]

    def copy(self, *a, **k):
        return self

    def astype(self, t, *a, **k):
        if t in (float, "float", np.float64):
            return self
        raise Unsupported("astype")

    def __mul__(self, o):
        if sym.lift(o) is None:
            raise Unsupported("arithmetic on a multi-dimensional array")
        if isinstance(o, (int, float)) and o == 1:
            return self
        return NDArray(self.shape)

    __rmul__ = __truediv__ = __mul__

    def __len__(self):
        raise Unsupported("len of multi-dimensional array")

    def __symlen__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __array_function__(self, func, types, args, kw):
        n = func.__name__
        if n in ("shape", "ndim", "size") and len(args) == 1 and not kw:
            return getattr(self, n)
        if n == "atleast_1d" and len(args) == 1 and not kw:
            return self.flatten() if not self.shape else self
        if n in ("ravel", "squeeze") and len(args) == 1 and not kw:
            return getattr(self, n)()
        raise Unsupported("numpy.%s of a multi-dimensional array" % n)


def set_drivers_task(kind):
    def f(c):
        m, q, s = fresh_model(c, kind)
        havoc_run_state(c, m, kind)
        dims = c.choose("1-d")
        if dims:
            F, Fsi, n = drivers(c, nan=True, ints=True)
            K.havoc_drivers(c, m, F, n)
            snap = snapshot(m)
            Fold = F.magnitude.snapshot()
            r = m.set_drivers(F)
            c.ensure("drivers are the quantity given", z3.BoolVal(m.erf is F or (
                dict(m.erf._units) == dict(F._units) and m.erf.magnitude is F.magnitude)))
            c.ensure_eq("normalised drivers in W/m^2", m._erf_mag, Fsi)
            c.ensure_eq("argument not modified", F.magnitude, Fold, "frame")
            frame(c, m, snap, {"_erf", "_erf_mag"})
            return
        snap = snapshot(m)
        for k in (0, 2, 3):
            shape = tuple(c.int("dim%d_%d" % (k, i), 0) for i in range(k))
            E = K.M.ur.Quantity(NDArray(shape), ERF)
            raises(c, "%d-dimensional drivers" % k, AssertionError, m.set_drivers, E)
            frame(c, m, snap, label="%d-d: " % k)
    return f


for _k in ("TL", "IR"):
    task(_k + ".set_drivers", "base.TwoLayerVariant.set_drivers (%s)" % _k)(set_drivers_task(_k))


# -- whole runs ------------------------------------------------------------------------

def protocol(kind, which, history=False):
    """set_drivers; reset; run from any state: every output is the spec value."""
    def f(c):
        m, q, s = fresh_model(c, kind)
        rep_invariant(c, m, kind, s)
        if history:
            havoc_run_state(c, m, kind)
            other = cls(kind)()
            osnap = snapshot(other)
        F, Fsi, n = drivers(c, ints=True)
        if history:
            K.havoc_drivers(c, m, F, n)
        spec = (TLSpec if kind == "TL" else IRSpec)(c, s, Fsi)
        m.set_drivers(F)
        psnap = snapshot(m)
        m.reset()
        after_reset(c, m, kind, n)
        c.loop(RunLoop(c, m, spec, n))
        m.run()
        j = c.int("jfin", 0)
        c.require(j < n)
        for a in which:
            arr = getattr(m, a)
            c.ensure("%s has one entry per driver value" % a, iterm(arr.n) == n.t)
            c.ensure_eq("after run: %s[j] is the spec value" % a, arr.fn(j.t), spec.at(a, j.t))
        frame(c, m, psnap, K.RUN_ATTRS)
        if history:
            frame(c, other, osnap, label="other model: ")
    return f


task("TL.run:temperatures", "two_layer_model.TwoLayerModel._run")(protocol("TL", TL_ARR[:2]))
task("TL.run:heat-uptake", "two_layer_model.TwoLayerModel._run")(protocol("TL", TL_ARR))
task("IR.run:temperatures", "impulse_response_model.ImpulseResponseModel._run")(protocol("IR", IR_ARR[:2]))
task("IR.run:heat-uptake", "impulse_response_model.ImpulseResponseModel._run")(protocol("IR", IR_ARR))
task("TL.run:history", "two_layer_model.TwoLayerModel run from any earlier state")(protocol("TL", TL_ARR, True))
task("IR.run:history", "impulse_response_model.ImpulseResponseModel run from any earlier state")(protocol("IR", IR_ARR, True))


# -- lemmas over the spec functions ---------------------------------------------------

def _tl_syms(c):
    s = {n: c.real(n, pos=n in ("du", "dl", "delta_t")) for n in TL_UNITS}
    return s, s["du"] * RHO_C, s["dl"] * RHO_C


def _tl_step(s, Cu, Cl, tu, tl, F):
    nu = spec_upper(s["delta_t"], tu, tl, F, s["lambda0"], s["a"], s["efficacy"], s["eta"], Cu)
    nl = spec_lower(s["delta_t"], tu, tl, s["eta"], Cl)
    return nu, nl, spec_tl_rndt(s["delta_t"], tu, tl, nu, nl, Cu, Cl)


@task("lemma:energy-closure", "lemma over TwoLayerModel contracts")
def l_energy(c):
    s, Cu, Cl = _tl_syms(c)
    tu, tl, F = c.real("tu"), c.real("tl"), c.real("F")
    nu, nl, rn = _tl_step(s, Cu, Cl, tu, tl, F)
    c.ensure_eq("uptake x timestep = change in heat content", rn * s["delta_t"],
                (Cu * nu + Cl * nl) - (Cu * tu + Cl * tl), "lemma")
    c.ensure_eq("uptake = forcing - feedback - (efficacy-1) exchange", rn,
                F - (s["lambda0"] - s["a"] * tu) * tu - (s["efficacy"] - 1) * s["eta"] * (tu - tl), "lemma")
    S = c.real("cumulative")  # induction hypothesis: cumulative uptake = heat content
    c.ensure_eq("base: zero uptake, zero content", SReal(sym.rv(0)), Cu * 0 + Cl * 0, "lemma")
    c.require(S == Cu * tu + Cl * tl)
    c.ensure_eq("step: cumulative uptake = heat content", S + rn * s["delta_t"], Cu * nu + Cl * nl, "lemma")


@task("lemma:two-layer-linearity", "lemma over TwoLayerModel contracts")
def l_lin(c):
    s, Cu, Cl = _tl_syms(c)
    s["a"] = SReal(sym.rv(0))
    x, y = c.real("alpha"), c.real("beta")
    u1, l1, f1, u2, l2, f2 = [c.real(n) for n in ("u1", "l1", "f1", "u2", "l2", "f2")]
    A = _tl_step(s, Cu, Cl, u1, l1, f1)
    B = _tl_step(s, Cu, Cl, u2, l2, f2)
    S = _tl_step(s, Cu, Cl, x * u1 + y * u2, x * l1 + y * l2, x * f1 + y * f2)
    for nm, a, b, r in zip(("upper", "lower", "uptake"), A, B, S):
        c.ensure_eq("induction step: %s linear" % nm, r, x * a + y * b, "lemma")
    z = SReal(sym.rv(0))
    for nm, r in zip(("upper", "lower", "uptake"), _tl_step(s, Cu, Cl, z, z, z)):
        c.ensure_eq("zero forcing stays at zero: %s" % nm, r, z, "lemma")


@task("lemma:impulse-response-linearity", "lemma over ImpulseResponseModel contracts")
def l_irlin(c):
    s = {n: c.real(n, pos=True) for n in ("q1", "q2", "d1", "efficacy", "delta_t", "gap")}
    s["d2"] = s["d1"] + s["gap"]
    e = ir_equiv(s)
    x, y = c.real("alpha"), c.real("beta")
    u1, l1, f1, u2, l2, f2 = [c.real(n) for n in ("u1", "l1", "f1", "u2", "l2", "f2")]

    def st(u, l, f):
        return (spec_box(s["delta_t"], u, s["q1"], s["d1"], f), spec_box(s["delta_t"], l, s["q2"], s["d2"], f),
                spec_ir_rndt(e, u, l, f))
    A, B, S = st(u1, l1, f1), st(u2, l2, f2), st(x * u1 + y * u2, x * l1 + y * l2, x * f1 + y * f2)
    for nm, a, b, r in zip(("box 1", "box 2", "uptake"), A, B, S):
        c.ensure_eq("induction step: %s linear" % nm, r, x * a + y * b, "lemma")
    z = SReal(sym.rv(0))
    for nm, r in zip(("box 1", "box 2", "uptake"), st(z, z, z)):
        c.ensure_eq("zero forcing stays at zero: %s" % nm, r, z, "lemma")


@task("lemma:impulse-response-bounds", "lemma over ImpulseResponseModel contracts")
def l_bounds(c):
    q, d, dt = c.real("q", pos=True), c.real("d", pos=True), c.real("dt", pos=True)
    t, f, lo, hi = c.real("t"), c.real("f"), c.real("lo"), c.real("hi")
    # lo <= 0 <= hi are the smallest / largest of zero and the forcings so far
    for cond in (lo <= 0, hi >= 0, f >= lo, f <= hi, t >= q * lo, t <= q * hi):
        c.require(cond)
    e = (-dt / d).exp()
    c.ensure("decay factor between 0 and 1", (e > 0) & (e < 1), "lemma")
    pc = [p for p in c.pc]
    # as a convex combination of t and q f
    r = spec_box(dt, t, q, d, f)
    w = c.real("w")
    c.ensure_eq("new value is a convex combination", r, e * t + (1 - e) * (q * f), "lemma")
    for nm, b, sg in (("lower", lo, 1), ("upper", hi, -1)):
        x, y = sg * (t - q * b), sg * (q * (f - b))
        c.ensure(nm + ": state within bounds", x >= 0, "lemma")
        c.ensure(nm + ": equilibrium within bounds", y >= 0, "lemma")
        X, Y, E = c.real("X" + nm), c.real("Y" + nm), c.real("E" + nm)
        c.pc = [bterm(X >= 0), bterm(Y >= 0), bterm(E > 0), bterm(E < 1)]
        c.ensure(nm + ": convex combination of non-negatives", E * X + (1 - E) * Y >= 0, "lemma")
        c.pc = list(pc)
        c.ensure_eq(nm + ": difference to bound is that combination", sg * (r - q * b), e * x + (1 - e) * y, "lemma")


@task("lemma:constant-forcing", "lemma over ImpulseResponseModel contracts")
def l_const(c):
    q, F, E = c.real("q"), c.real("F"), c.real("E_n")
    d, dt = c.real("d", pos=True), c.real("dt", pos=True)
    e = (-dt / d).exp()
    c.ensure_eq("base: zero", q * F * (1 - SReal(sym.rv(1))), SReal(sym.rv(0)), "lemma")
    # hypothesis: T_n = qF(1 - E_n), E_n = exp(-n dt/d); exp(-(n+1)dt/d) = E_n * exp(-dt/d)
    T = q * F * (1 - E)
    c.ensure_eq("step: q F (1 - exp(-(n+1) dt/d))", spec_box(dt, T, q, d, F), q * F * (1 - E * e), "lemma")


@task("lemma:causality", "lemma over both models' contracts")
def l_caus(c):
    """Two forcings equal before i give equal outputs up to i (induction on the time index)."""
    s, Cu, Cl = _tl_syms(c)
    i, k = c.int("i", 0), c.int("k", 0)
    f, g = (c.func(n, z3.IntSort(), z3.RealSort()) for n in ("F", "G"))
    # induction hypothesis at k: states equal; forcings agree below i; claim at k+1 <= i
    c.require(k + 1 <= i)
    uf, ug, lf, lg = [c.real(n) for n in ("uF", "uG", "lF", "lG")]
    c.require(uf == ug)
    c.require(lf == lg)
    c.require(f(k.t) == g(k.t))  # instance of: forall j < i. F(j) = G(j), as k < i
    c.ensure("k is strictly before i", k < i, "lemma")
    A, B = _tl_step(s, Cu, Cl, uf, lf, SReal(f(k.t))), _tl_step(s, Cu, Cl, ug, lg, SReal(g(k.t)))
    c.rewrites = [(ug.t, uf.t), (lg.t, lf.t), (g(k.t), f(k.t))]
    for nm, a, b in zip(("upper", "lower", "uptake"), A, B):
        c.ensure_eq("two-layer %s equal at k+1" % nm, a, b, "lemma")
    p = {n: c.real("ir_" + n, pos=True) for n in ("q1", "q2", "d1", "efficacy", "delta_t", "gap")}
    p["d2"] = p["d1"] + p["gap"]
    e = ir_equiv(p)
    for nm, fn in (("box 1", lambda u, l, F: spec_box(p["delta_t"], u, p["q1"], p["d1"], F)),
                   ("box 2", lambda u, l, F: spec_box(p["delta_t"], l, p["q2"], p["d2"], F)),
                   ("uptake", lambda u, l, F: spec_ir_rndt(e, u, l, F))):
        c.ensure_eq("impulse-response %s equal at k+1" % nm, fn(uf, lf, SReal(f(k.t))), fn(ug, lg, SReal(g(k.t))), "lemma")


@task("lemma:impulse-response-flux", "lemma over ImpulseResponseModel contracts")
def l_flux(c):
    """The flux of C04 is the rate of change of the equivalent system's heat content."""
    s = {n: c.real(n, pos=True) for n in ("q1", "q2", "d1", "efficacy", "gap")}
    s["d2"] = s["d1"] + s["gap"]
    e = ir_equiv(s)
    t1, t2, F = c.real("t1"), c.real("t2"), c.real("F")
    d1, d2 = s["d1"] * YEAR, s["d2"] * YEAR
    dt1, dt2 = (s["q1"] * F - t1) / d1, (s["q2"] * F - t2) / d2
    Td = e["phi1"] * t1 + e["phi2"] * t2
    c.ensure_eq("flux = d/dt (C T + C_D T_deep)", spec_ir_rndt(e, t1, t2, F),
                e["C"] * (dt1 + dt2) + e["CD"] * (e["phi1"] * dt1 + e["phi2"] * dt2), "lemma")
    c.ensure_eq("upper layer obeys the energy balance", e["C"] * (dt1 + dt2),
                F - e["lam"] * (t1 + t2) - e["eff"] * e["eta"] * (t1 + t2 - Td), "lemma")
    c.ensure_eq("lower layer obeys the energy balance", e["CD"] * (e["phi1"] * dt1 + e["phi2"] * dt2),
                e["eta"] * (t1 + t2 - Td), "lemma")


# -- conversions ---------------------------------------------------------------------------

def _default_positive(c, kind):
    if kind == "TL":
        q, s = params(c, "TL", positive=("lambda0", "eta", "efficacy"), a_zero=True)
    else:
        q, s = params(c, "IR", positive=POSIR)
    m = cls(kind)(**q)
    return m, q, s


def exact_keys(c, out, keys):
    ok = isinstance(out, dict) and set(out) == set(keys)
    c.ensure("result has exactly the keys " + ", ".join(keys), z3.BoolVal(ok))
    if not ok:
        raise PathEnd()


@task("TL.get_impulse_response_parameters", "two_layer_model.TwoLayerModel.get_impulse_response_parameters")
def t_tl2ir(c):
    m, q, s = _default_positive(c, "TL")
    havoc_run_state(c, m, "TL")
    snap = snapshot(m)
    out = m.get_impulse_response_parameters()
    exact_keys(c, out, ("d1", "d2", "q1", "q2", "efficacy"))
    Cu, Cl = s["du"] * RHO_C, s["dl"] * RHO_C
    d1, d2 = si_mag(out["d1"], "s"), si_mag(out["d2"], "s")
    q1, q2 = si_mag(out["q1"], IR_UNITS["q1"]), si_mag(out["q2"], IR_UNITS["q2"])
    lam, eff, eta = s["lambda0"], s["efficacy"], s["eta"]
    same_quantity(c, "efficacy passed through", out["efficacy"], q["efficacy"], "ensures")
    c.ensure("d1 > 0", d1 > 0)
    c.ensure("d1 < d2", d2 > d1)
    c.ensure("q1 > 0", q1 > 0)
    c.ensure("q2 > 0", q2 > 0)
    c.ensure_eq("q1 + q2 = 1/lambda0", q1 + q2, 1 / lam)
    phis = []
    for nm, d in (("1", d1), ("2", d2)):
        phi = (lam * d - Cu) / (eff * Cl)
        phis.append(phi)
        c.ensure_eq("mode %s solves the upper-layer equation" % nm, Cu / d, lam + eff * eta * (1 - phi))
        c.ensure_eq("mode %s solves the lower-layer equation" % nm, -Cl * phi / d, eta * (1 - phi))
    c.ensure_eq("forcing drives the upper layer only: upper", Cu * (q1 / d1 + q2 / d2), SReal(sym.rv(1)))
    c.ensure_eq("forcing drives the upper layer only: lower", phis[0] * q1 / d1 + phis[1] * q2 / d2, SReal(sym.rv(0)))
    frame(c, m, snap)
    IRc()(**out)  # accepted by the constructor (an exception is a failed obligation)


@task("TL.get_impulse_response_parameters:a", "two_layer_model.TwoLayerModel.get_impulse_response_parameters (a != 0)")
def t_tl2ir_a(c):
    q, s = params(c, "TL", positive=("lambda0", "eta", "efficacy"))
    c.require(s["a"] != 0)
    m = TLc()(**q)
    snap = snapshot(m)
    raises(c, "a != 0", ValueError, m.get_impulse_response_parameters)
    frame(c, m, snap)


@task("IR.get_two_layer_parameters", "impulse_response_model.ImpulseResponseModel.get_two_layer_parameters")
def t_ir2tl(c):
    m, q, s = _default_positive(c, "IR")
    havoc_run_state(c, m, "IR")
    snap = snapshot(m)
    out = m.get_two_layer_parameters()
    exact_keys(c, out, ("lambda0", "du", "dl", "eta", "efficacy"))
    v = {k: si_mag(out[k], TL_UNITS[k]) for k in ("lambda0", "du", "dl", "eta")}
    same_quantity(c, "efficacy passed through", out["efficacy"], q["efficacy"], "ensures")
    e = ir_equiv(s)
    for k, want in (("lambda0", e["lam"]), ("du", e["C"] / RHO_C), ("dl", e["CD"] / RHO_C), ("eta", e["eta"])):
        c.ensure(k + " > 0", v[k] > 0)
        c.ensure_eq(k + " is that of the equivalent system", v[k], want)
    frame(c, m, snap)


@task("roundtrip:IR-TL-IR", "get_two_layer_parameters o get_impulse_response_parameters")
def t_rt1(c):
    m, q, s = _default_positive(c, "IR")
    out = TLc()(**m.get_two_layer_parameters()).get_impulse_response_parameters()
    for k in ("q1", "q2", "d1", "d2", "efficacy"):
        c.ensure_eq("round trip returns " + k, si_mag(out[k], IR_UNITS[k]), s[k])


@task("roundtrip:TL-IR-TL", "get_impulse_response_parameters o get_two_layer_parameters")
def t_rt2(c):
    m, q, s = _default_positive(c, "TL")
    out = IRc()(**m.get_impulse_response_parameters()).get_two_layer_parameters()
    for k in ("du", "dl", "lambda0", "eta", "efficacy"):
        c.ensure_eq("round trip returns " + k, si_mag(out[k], TL_UNITS[k]), s[k])


@task("gh", "base._calculate_geoffroy_helper_parameters")
def t_gh(c):
    q, s = params(c, "TL", positive=("lambda0", "eta", "efficacy"), a_zero=True)
    g = K.M.base._calculate_geoffroy_helper_parameters(q["du"], q["dl"], q["lambda0"], q["efficacy"], q["eta"])
    Cu, Cl = s["du"] * RHO_C, s["dl"] * RHO_C
    J = "J/delta_degC/m^2"
    c.ensure_eq("C", si_mag(g["C"], J), Cu)
    c.ensure_eq("C_D", si_mag(g["C_D"], J), Cl)
    t1, t2 = si_mag(g["tau1"], "s"), si_mag(g["tau2"], "s")
    p1, p2 = si_mag(g["phi1"], "dimensionless"), si_mag(g["phi2"], "dimensionless")
    lam, eff, eta = s["lambda0"], s["efficacy"], s["eta"]
    c.ensure("0 < tau1 < tau2", (t1 > 0) & (t2 > t1))
    for nm, t, p in (("1", t1, p1), ("2", t2, p2)):
        c.ensure_eq("tau%s, phi%s: upper-layer mode equation" % (nm, nm), Cu / t, lam + eff * eta * (1 - p))
        c.ensure_eq("tau%s, phi%s: lower-layer mode equation" % (nm, nm), -Cl * p / t, eta * (1 - p))
    a1, a2 = si_mag(g["a1"], "dimensionless"), si_mag(g["a2"], "dimensionless")
    c.ensure_eq("a1 + a2 = 1", a1 + a2, SReal(sym.rv(1)))


# -- setters, getters ------------------------------------------------------------------------

def mags(kind, p):
    m = {"_" + p, "_%s_mag" % p}
    if p == "du":
        m.add("_heat_capacity_upper_mag")
    if p == "dl":
        m.add("_heat_capacity_lower_mag")
    return m


def setter_task(kind, p):
    like = units_of(kind)[p]

    def f(c):
        m, q, s = fresh_model(c, kind)
        rep_invariant(c, m, kind, s, "constructed: ")
        havoc_run_state(c, m, kind)
        other = cls(kind)()
        osnap, snap = snapshot(other), snapshot(m)
        v = c.real("new_" + p)
        sc = c.real("scale_new_" + p, pos=True)
        Q = K.M.ur.Quantity(v, loader.symunit("vcn_" + p, like, sc.t))
        setattr(m, p, Q)
        got = getattr(m, p)
        same_quantity(c, "getter returns the quantity as given", got, Q, "ensures")
        c.ensure_eq("argument not modified", Q.magnitude, v, "frame")
        s2 = dict(s)
        s2[p] = v * sc
        rep_invariant(c, m, kind, s2)
        if kind == "TL":
            for layer, d in (("upper", "du"), ("lower", "dl")):
                h = getattr(m, "heat_capacity_" + layer)
                c.ensure_eq("heat_capacity_%s reflects %s" % (layer, d), si_mag(h, "J/delta_degC/m^2"), s2[d] * RHO_C)
        frame(c, m, snap, mags(kind, p))
        frame(c, other, osnap, label="other model: ")
        c.ensure("only known attributes", z3.BoolVal(set(m.__dict__) <= known_attrs(kind)), "invariant")
        # the registry's own units, whose names code could look at
        for u in K.named_units(like):
            v = c.real("in_" + u)
            m._timestep_idx = np.nan
            setattr(m, p, K.M.ur.Quantity(v, u))
            s2[p] = v * K.factor(u, like)
            same_quantity(c, "getter returns the quantity as given in " + u, getattr(m, p), K.M.ur.Quantity(v, u), "ensures")
            rep_invariant(c, m, kind, s2, "%s: " % u, [p])
            if kind == "TL" and p in ("du", "dl"):
                h = m.heat_capacity_upper if p == "du" else m.heat_capacity_lower
                c.ensure_eq("heat capacity reflects %s in %s" % (p, u), si_mag(h, "J/delta_degC/m^2"), s2[p] * RHO_C)
    return f


for _k in ("TL", "IR"):
    for _p in units_of(_k):
        task("%s.%s.setter" % (_k, _p), "%s.%s setter and getter" % (_k, _p))(setter_task(_k, _p))


def erf_setter_task(kind):
    def f(c):
        m, q, s = fresh_model(c, kind)
        havoc_run_state(c, m, kind)
        F, Fsi, n = drivers(c, nan=True, ints=True)
        K.havoc_drivers(c, m, F, n)
        snap = snapshot(m)
        m.erf = F
        c.ensure("getter returns the quantity as given", z3.BoolVal(m.erf is F or (
            m.erf.magnitude is F.magnitude and dict(m.erf._units) == dict(F._units))))
        c.ensure_eq("normalised drivers in W/m^2", m._erf_mag, Fsi)
        frame(c, m, snap, {"_erf", "_erf_mag"})
        for u in K.named_units(ERF):
            v = SArray.fresh("in_" + u, n, nan=True)
            w = v.snapshot()
            m.erf = K.M.ur.Quantity(v, u)
            c.ensure("getter returns the quantity as given in " + u, z3.BoolVal(m.erf.magnitude is v and m.erf._units == K.M.ur.Unit(u)._units))
            c.ensure_eq("drivers in %s normalised" % u, m._erf_mag, w * K.factor(u, ERF))
    return f


for _k in ("TL", "IR"):
    task("%s.erf.setter" % _k, "base.TwoLayerVariant.erf setter (%s)" % _k)(erf_setter_task(_k))


# -- rejected quantities ------------------------------------------------------------------------

class Opaque:
    """An arbitrary value that is not a pint quantity: any use beyond its type is
    answered, so that duck typing is not mistaken for the type check."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque()

    def __call__(self, *a, **k):
        return Opaque()

    def __len__(self):
        return 1

    def __iter__(self):
        return iter([Opaque()])

    def _op(self, *a):
        return Opaque()

    __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __sub__ = __rsub__ = __neg__ = _op
    __hash__ = object.__hash__


def non_quantities(c):
    """Representatives of every kind of non-quantity (the first two are generic)."""
    ur = K.M.ur
    yield "any non-quantity object", Opaque()
    yield "any number", c.real("number")
    yield "any array", SArray.fresh("array", c.int("n_array", 0))
    for nm, v in (("int", 3), ("float", 2.5), ("str", "5 m"), ("None", None), ("list", [1.0]), ("bool", True),
                  ("numpy float", np.float64(2.0)), ("numpy array", np.zeros(3)), ("a pint Unit", ur.Unit("m"))):
        yield nm, v


_OTHER = None


def other_dimension():
    """A unit of a dimension unrelated to every dimension the code knows."""
    global _OTHER
    if _OTHER is None:
        K.M.ur.define("vc_other = [vc_other_dimension]")
        _OTHER = "vc_other"
    return _OTHER


def wrong_units(like):
    ur = K.M.ur
    o = other_dimension()
    base = ["m", "kg", "s", "kelvin", "W", "mol", "dimensionless", "W/m^2", "W/m^2/delta_degC", "yr", "ppm", "GtC",
            o, "(%s) * %s" % (like, o), "(%s) / %s" % (like, o), "(%s) * m" % like, "(%s) / s" % like, "(%s)^2" % like]
    dim = ur.Unit(like).dimensionality
    for u in base:
        if ur.Unit(u).dimensionality != dim:
            yield u


def reject_task(kind, p):
    like = ERF if p == "erf" else units_of(kind)[p]

    def f(c):
        m, q, s = fresh_model(c, kind)
        havoc_run_state(c, m, kind)
        snap = snapshot(m)
        E = K.M.errors.UnitError
        arrs = p == "erf"

        def value(u, i):
            mag = SArray.fresh("bad%d" % i, c.int("n_bad%d" % i, 0), nan=True) if arrs else c.real("bad%d" % i)
            return K.M.ur.Quantity(mag, u)

        for nm, v in non_quantities(c):
            raises(c, "%s = %s" % (p, nm), TypeError, setattr, m, p, v)
            frame(c, m, snap, label="%s = %s: " % (p, nm))
        for i, u in enumerate(wrong_units(like)):
            raises(c, "%s in %s" % (p, u), E, setattr, m, p, value(u, i))
            frame(c, m, snap, label="%s in %s: " % (p, u))
            if p == "erf":
                raises(c, "set_drivers in %s" % u, E, m.set_drivers, value(u, 100 + i))
                frame(c, m, snap, label="set_drivers in %s: " % u)
        if p != "erf":
            for nm, v in list(non_quantities(c))[:3]:
                raises(c, "constructor %s = %s" % (p, nm), TypeError, cls(kind), **{p: v})
            for i, u in enumerate(list(wrong_units(like))[-4:]):
                raises(c, "constructor %s in %s" % (p, u), E, cls(kind), **{p: value(u, 200 + i)})
    return f


for _k in ("TL", "IR"):
    for _p in list(units_of(_k)) + ["erf"]:
        task("%s.%s.reject" % (_k, _p), "%s.%s setter on invalid values; _assert_is_pint_quantity_with_units" % (_k, _p))(
            reject_task(_k, _p))


# -- construction -----------------------------------------------------------------------------

DEFAULTS = {
    "TL": dict(du=(50, "m"), dl=(1200, "m"), lambda0=(3.74 / 3, "W/m^2/delta_degC"), a=(0.0, "W/m^2/delta_degC^2"),
               efficacy=(1.0, "dimensionless"), eta=(0.8, "W/m^2/delta_degC"), delta_t=(YEAR, "s")),
    "IR": dict(q1=(0.3, "delta_degC/(W/m^2)"), q2=(0.4, "delta_degC/(W/m^2)"), d1=(9.0, "yr"), d2=(400.0, "yr"),
               efficacy=(1.0, "dimensionless"), delta_t=(1 / 12, "yr")),
}


def close(c, name, a, b):
    """Equal to the documented default (concrete numbers; within float rounding)."""
    p = lift(a)
    if p is None or not z3.is_rational_value(z3.simplify(p[0])):
        c.ensure_eq(name, a, SReal(sym.rv(b)))
        return
    v = float(sym.cval(z3.simplify(p[0])))
    c.ensure(name, z3.BoolVal(abs(v - b) <= 1e-12 * max(abs(b), 1e-300)))


def init_task(kind):
    def f(c):
        given, s = {}, {}
        for n, like in units_of(kind).items():
            if c.choose("give " + n):
                v, S = c.real(n), c.real("scale_" + n, pos=True)
                given[n] = K.M.ur.Quantity(v, loader.symunit("vci_" + n, like, S.t))
                s[n] = v * S
            else:
                d, u = DEFAULTS[kind][n]
                s[n] = SReal(sym.rv(sym.frac_of(d)))
        ordered = None
        if kind == "IR":
            ordered = s["d1"] < s["d2"]
        try:
            m = cls(kind)(**given)
        except ValueError as e:
            if kind == "TL" or isinstance(e, K.M.errors.UnitError):
                raise
            c.ensure("refused only if d1 >= d2", z3.Not(bterm(ordered)), "exceptions")
            return
        if kind == "IR":
            c.ensure("accepted only if d1 < d2", ordered, "exceptions")
        for n, like in units_of(kind).items():
            got = getattr(m, n)
            if n in given:
                same_quantity(c, "%s is the quantity passed" % n, got, given[n], "ensures")
                c.ensure_eq("_%s_mag in %s" % (n, like), getattr(m, "_%s_mag" % n), s[n])
            else:
                d, u = DEFAULTS[kind][n]
                close(c, "%s has its default" % n, si_mag(got, u), d)
                close(c, "_%s_mag has its default" % n, getattr(m, "_%s_mag" % n), d)
        if kind == "TL":
            if "du" in given:
                c.ensure_eq("upper heat capacity", m._heat_capacity_upper_mag, s["du"] * RHO_C)
            else:
                close(c, "upper heat capacity default", m._heat_capacity_upper_mag, 50 * RHO_C)
            if "dl" in given:
                c.ensure_eq("lower heat capacity", m._heat_capacity_lower_mag, s["dl"] * RHO_C)
            else:
                close(c, "lower heat capacity default", m._heat_capacity_lower_mag, 1200 * RHO_C)
        for a in arrays(kind):
            v = getattr(m, a)
            c.ensure("%s starts as NaN" % a, z3.BoolVal(isinstance(v, np.ndarray) and bool(np.all(np.isnan(v)))))
        c.ensure("output arrays have one length", z3.BoolVal(len({np.shape(getattr(m, a)) for a in arrays(kind)}) == 1), "invariant")
        c.ensure("index starts as NaN", z3.BoolVal(bool(np.isnan(m._timestep_idx))))
        raises(c, "no usable drivers", K.M.errors.ModelStateError, m.reset)
        c.ensure("only known attributes", z3.BoolVal(set(m.__dict__) - {"_erf_mag"} == known_attrs(kind) - {"_erf_mag"}), "invariant")
    return f


for _k in ("TL", "IR"):
    task(_k + ".__init__", "%s.__init__" % ("two_layer_model.TwoLayerModel" if _k == "TL" else
                                           "impulse_response_model.ImpulseResponseModel"))(init_task(_k))


# -- utils -----------------------------------------------------------------------------------------

@task("utils.convert_lambda_to_ecs", "utils.convert_lambda_to_ecs")
def t_ecs(c):
    f = K.M.utils.convert_lambda_to_ecs
    ur = K.M.ur

    def q(n, like, arr=False):
        s = c.real("scale_" + n, pos=True)
        u = loader.symunit("vce_" + n, like, s.t)
        if arr:
            v = SArray.fresh(n, c.int("n_" + n, 0))
            return ur.Quantity(v, u), v, v * s
        v = c.real(n)
        return ur.Quantity(v, u), v, v * s

    L, lv, ls = q("lambda", "W/m^2/delta_degC")
    F, fv, fs = q("f2x", "W/m^2")
    L2, lv2, ls2 = q("lambda2", "W/m^2/delta_degC")
    c.require(lv != 0)
    c.require(lv2 != 0)
    T = "delta_degC"
    c.ensure_eq("-f2x/lambda", si_mag(f(L, f2x=F), T), -fs / ls)
    c.ensure_eq("-f2x/lambda (positional)", si_mag(f(L, F), T), -fs / ls)
    c.ensure_eq("default forcing 3.74 W/m^2", si_mag(f(L2), T), -SReal(sym.rv(sym.frac_of(3.74))) / ls2)
    c.ensure_eq("default forcing again after other calls", si_mag(f(L), T), -SReal(sym.rv(sym.frac_of(3.74))) / ls)
    c.ensure_eq("same call again", si_mag(f(L, f2x=F), T), -fs / ls)
    for u in K.named_units("W/m^2/delta_degC"):
        c.ensure_eq("-3.74 W/m^2 / lambda in " + u, si_mag(f(ur.Quantity(lv, u)), T),
                    -SReal(sym.rv(sym.frac_of(3.74))) / (lv * K.factor(u, "W/m^2/delta_degC")))
    for u in K.named_units("W/m^2"):
        c.ensure_eq("-f2x/lambda, f2x in " + u, si_mag(f(L, f2x=ur.Quantity(fv, u)), T), -fv * K.factor(u, "W/m^2") / ls)
    for nm, Q, v in (("lambda_val", L, lv), ("f2x", F, fv), ("lambda_val (second)", L2, lv2)):
        c.ensure_eq("argument %s not modified" % nm, Q.magnitude, v, "frame")
    # array arguments
    A, av, asi = q("f2x_array", "W/m^2", True)
    old = av.snapshot()
    r = si_mag(f(L, f2x=A), T)
    c.ensure_eq("-f2x/lambda elementwise", r, -asi / ls)
    c.ensure_eq("array argument not modified", A.magnitude, old, "frame")
    for nm, v in non_quantities(c):
        raises(c, "lambda_val = %s" % nm, TypeError, f, v)
        raises(c, "lambda_val = %s, f2x given" % nm, TypeError, f, v, F)
        raises(c, "f2x = %s" % nm, TypeError, f, L, v)


# -- installed stubs -----------------------------------------------------------------------

INSTALLED = {}


def uninstall_all():
    out = []
    for h, (C, attr, real) in INSTALLED.items():
        out.append((C, attr, C.__dict__[attr]))
        setattr(C, attr, real)
    return out


def uninstall_for(name):
    """A function is never verified against its own contract."""
    out = []
    if name in INSTALLED:
        C, attr, real = INSTALLED[name]
        out.append((C, attr, C.__dict__[attr]))
        setattr(C, attr, real)
    return out


def reinstall(saved):
    for C, attr, stub in saved:
        setattr(C, attr, stub)


def _register_scenarios():
    from . import life, scen  # noqa: F401


_register_scenarios()
