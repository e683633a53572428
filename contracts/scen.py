"""Contracts of run_scenarios and its helpers (C12-C15), over the stand-ins of scen_model."""
import numpy as np
import z3

from vc import instrument, loader, sym
from vc.engine import eqv
from vc.loader import SymSeq
from vc.sym import PathEnd, SArray, SBool, SInt, SReal, Unsupported, bterm, iterm, lift

from . import common as K
from . import scen_model as S
from .common import IR_ARR, TL_ARR, YEAR, IRSpec, RunLoop, TLSpec, arrays, cls, frame, havoc_run_state, params, snapshot
from .tasks import POSIR, TASKS, task

NAMES = {"TL": "two_layer", "IR": "two_timescale_impulse_response"}
SAVED = {"TL": ("du", "dl", "lambda0", "a", "efficacy", "eta"), "IR": ("d1", "d2", "q1", "q2", "efficacy")}
OUTPUTS = {
    "TL": [("Surface Temperature|Upper", "delta_degC", ("_temp_upper_mag",)),
           ("Surface Temperature|Lower", "delta_degC", ("_temp_lower_mag",)),
           ("Heat Uptake", "W/m^2", ("_rndt_mag",))],
    "IR": [("Surface Temperature|Box 1", "delta_degC", ("_temp1_mag",)),
           ("Surface Temperature|Box 2", "delta_degC", ("_temp2_mag",)),
           ("Surface Temperature", "delta_degC", ("_temp1_mag", "_temp2_mag")),
           ("Heat Uptake", "W/m^2", ("_rndt_mag",))]}


VAL = ("values", "temperatures")


class InnerLoop(RunLoop):
    """The time loop of the scenario being run."""

    def __init__(self, c, m, spec, n, verify):
        RunLoop.__init__(self, c, m, spec, n)
        self.verify = verify

    def matches(self, fr, seq):
        n = z3.simplify(iterm(seq.n))
        drivers = self.m.__dict__.get("_erf_mag")
        return n.eq(z3.simplify(iterm(self.n))) or isinstance(drivers, SArray) and n.eq(z3.simplify(iterm(drivers.n)))

    def next(self, it, fr):
        if not it.state:
            n = z3.simplify(iterm(it.n))
            if not n.eq(z3.simplify(iterm(self.n))):
                # the model runs over something else than the scenario's own values
                self.c.ensure("time loop: one step per value of the scenario", n == iterm(self.n), "loop invariant")
                self.c.require(n == iterm(self.n))
        if self.verify or it.state:
            return RunLoop.next(self, it, fr)
        # the same body was verified for an arbitrary scenario: use its contract
        self._check(z3.IntVal(0), "entry")
        self.used += 1
        it.state = 2
        kt = iterm(it.n)
        if self.c.branch(kt == 0):
            kt = z3.IntVal(0)
        env = self.locals = dict(fr.f_locals)
        self.carry = instrument.Carried(self.c, it.info, {n: env[n] for n in it.info.carried if n in env}, self.specs())
        self.k = self.k_end = kt
        self._install(kt)
        if it.is_while:  # left through its own condition
            it.state = 1
            return None
        raise StopIteration


class ScenLoop:
    """Contract of the loop over scenarios.

    Invariant: apart from the run state and drivers, which are arbitrary, the
    model is as at loop entry.  The body is verified for the first, the last and
    an arbitrary scenario in between, each from an arbitrary run state, and
    keeps the invariant; what it collects depends on its own scenario only."""
    comprehensions = True

    def __init__(self, c, m, kind, src, spec_of, verify):
        self.c, self.m, self.kind, self.src, self.spec_of, self.verify = c, m, kind, src, spec_of, verify
        self.reps = None
        self.inner = None
        self.conds = None
        self.loops = 0

    def matches(self, fr, seq):
        n = z3.simplify(iterm(seq.n))
        return any(z3.simplify(iterm(v)).eq(n) for v in self.src.counts.values())

    def start(self, it):
        c = self.c
        self.loops += 1
        if self.loops > 1:
            raise Unsupported("second loop over the scenarios")
        n = z3.simplify(iterm(it.n))
        self.conds = next(k for k, v in self.src.counts.items() if z3.simplify(iterm(v)).eq(n))
        if c.branch(n == 0):
            reps = []
        elif c.branch(n == 1):
            reps = [z3.IntVal(0)]
        elif c.branch(n == 2):
            reps = [z3.IntVal(0), z3.IntVal(1)]
        else:
            g = c.int("g_scenario", 1)
            c.require(g.t < n - 1)
            reps = [z3.IntVal(0), g.t, z3.simplify(n - 1)]
        self.reps = reps
        self.n = n

    def matches_while(self, fr, info, probe):
        return bool(info.calls & {"run", "_run"}) and bool(self.src.counts)

    def while_n(self):
        return list(self.src.counts.values())[-1]

    def begin(self, it, env):
        info = it.info
        k = self.k
        if not self.lists_made:
            self._make_lists(it, env)
        for l in self.lists:
            l.start(k)
        out = []
        for n in info.names:
            v = env.get(n)
            if id(v) in self.swap:
                v = self.swap[id(v)]
            if type(v) is instrument.AccList:
                out.append(v)
            elif n in info.carried:
                out.append(self.carry.value(n, k))
            elif n in info.loaded and n in env:
                out.append(v)
            else:
                out.append(instrument.Poison(n))
        return tuple(out)

    def _make_lists(self, it, env):
        self.lists_made = True
        for n in set(it.info.loaded) | set(it.info.carried):
            v = env.get(n)
            if type(v) is list and id(v) not in self.swap:
                if any(v is x for x in self.m.__dict__.values()):
                    raise Unsupported("list %r shared with the model" % n)
                a = instrument.AccList(self, list(v), len(v))
                self.swap[id(v)] = a
                self.keep.append(v)
                self.lists.append(a)

    def end(self, it, env):
        if not self.lists_made:
            self._make_lists(it, env)
        n = z3.simplify(iterm(it.n))
        for l in self.lists:
            l.close(n)
        out = []
        for x in it.info.names:
            v = env.get(x)
            if id(v) in self.swap:
                v = self.swap[id(v)]
            if x in it.info.carried and type(v) is not instrument.AccList:
                v = self.carry.value(x, n)
            out.append(v if x in env or x in it.info.carried else instrument.Poison(x))
        return tuple(out)

    def leave(self, it):
        if self.phase == "exit":
            n = z3.simplify(iterm(it.n))
            for l in self.lists:
                l.close(n)

    def next(self, it, fr):
        c, m = self.c, self.m
        env = fr.f_locals
        info = it.info
        if it.state == 0:
            self.start(it)
            self.snap = snapshot(m)
            self.locals = dict(env)
            self.lists, self.swap, self.keep, self.lists_made, self.phase = [], {}, [], False, "scenario"
            self.carry = instrument.Carried(c, info, {n: env[n] for n in info.carried if n in env and type(env[n]) is not list})
        else:
            if self.phase == "exit":
                c.fail("scenario loop: ends after the last scenario", "goes on", "loop invariant")
                raise PathEnd("loop does not end")
            frame(c, m, self.snap, K.RUN_ATTRS | {"_erf", "_erf_mag"}, "scenario loop ")
            for n in info.carried:
                if type(env.get(n)) is instrument.AccList:
                    continue
                if n in env and (n in self.locals or n not in info.private):
                    self.carry.check(n, z3.simplify(self.k + 1), env[n], "preserved")
            for n in info.loaded:
                if n in self.sizes and env.get(n) is self.sizes[n][0] and self._size(env[n]) != self.sizes[n][1]:
                    raise Unsupported("local %r collected by the loop" % n)
            for l in self.lists:
                l.finish(it.state == 1)
        i = it.state
        it.state += 1
        if i and not (len(self.reps) == 2 and i == 1):  # two scenarios: the second starts as the first left it
            havoc(c, m, self.kind, "h%d" % i)
        self.sizes = {n: (env[n], self._size(env[n])) for n in info.loaded if n in env and self._size(env[n]) is not None}
        if i >= len(self.reps):
            if not it.is_while:
                raise StopIteration
            self.phase = "exit"
            self.k = self.n
            return None
        k = self.k = self.reps[i]
        r = self.src.row(self.conds, k)
        verify = self.verify and ((len(self.reps) == 1) or (len(self.reps) == 3 and i == 1))
        spec = self.spec_of(r, k)
        r["spec"] = spec
        if self.inner is not None:
            c.loop_policies.remove(self.inner)
        self.inner = InnerLoop(c, m, spec, r["n"], verify)
        c.loop(self.inner)
        return None if it.is_while else it.seq.get(k)

    @staticmethod
    def _size(v):
        return len(v) if type(v) in (dict, set) else v.version if isinstance(v, SArray) else None


def havoc(c, m, kind, tag):
    ln = c.int("len" + tag, 0)
    for a in arrays(kind):
        setattr(m, a, SArray.fresh(tag + a, ln, nan=True))
    m._timestep_idx = c.int("idx_" + tag, 0)
    old = SArray.fresh(tag + "erf", c.int("n_" + tag, 0), nan=True)
    m._erf = loader.UR.Quantity(old, K.ERF)
    m._erf_mag = old


def attempt(fn, *a, **k):
    """('ok', result) or (exception class name, exception)."""
    try:
        return "ok", fn(*a, **k)
    except (TypeError, AttributeError, KeyError, IndexError) as e:
        raise Unsupported("%s: %s (stand-ins of scmdata/pandas)" % (type(e).__name__, e))
    except NotImplementedError as e:
        return "NotImplementedError", e
    except ValueError as e:
        return "ValueError", e


def bool_ensure(c, name, b, kind="ensures"):
    c.ensure(name, z3.BoolVal(bool(b)), kind)


def calendar(src):
    """(monthly, yearly) as formulas over the time axis."""
    i = z3.Int("i!spec")
    T = iterm(src.T)
    rng = z3.And(i >= 1, i < T)
    d = src.time(i) - src.time(i - 1)
    monthly = z3.And(T >= 2, z3.ForAll([i], z3.Implies(rng, z3.And(d >= 28 * S.NS_DAY, d <= 31 * S.NS_DAY))))
    yearly = z3.ForAll([i], z3.Implies(rng, src.year(i) - src.year(i - 1) == 1))
    return monthly, yearly


def make_model(c, kind, nan_index=False):
    q, s = params(c, kind, positive=POSIR if kind == "IR" else ())
    m = cls(kind)(**q)
    if nan_index:
        havoc_run_state(c, m, kind)
    else:
        havoc(c, m, kind, "h0")
    return m, q, s


def same_label(a, b):
    """Obligation-ready truth of two metadata values being the same."""
    if a is b:
        return z3.BoolVal(True)
    if type(a) is S.SymStr or type(b) is S.SymStr:
        return z3.BoolVal(False)
    if isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(isinstance(a, str) and isinstance(b, str) and a == b)
    return bterm(eqv(a, b))


def scenario_task(kind, focus):
    def f(c):
        m, q, s = make_model(c, kind, focus in VAL)
        qs = {p: getattr(m, p) for p in SAVED[kind]}
        saved = {"%s (%s)" % (p, v.units): v.magnitude for p, v in qs.items()}
        extra = ()
        if focus == "labels":
            if c.choose("input carries climate_model and run_idx"):
                extra += S.EXTRA
            if c.choose("input carries columns named like the saved parameters"):
                extra += tuple(saved)
        src = S.Source(c, extra=extra)
        required_var = S.SymStr("driver_var")
        kw = {"progress": False}
        form = "run"
        if focus == "selection" and c.choose("defaults"):
            required_var = "Effective Radiative Forcing"
            kw = {}
        else:
            kw["driver_var"] = required_var
            if focus == "selection" and not c.choose("input is an ScmRun"):
                form = "frame" if c.choose("input is a data frame") else "other"
        obj = {"run": lambda: S.Run(src, caller=True), "frame": lambda: S.CallerFrame(src), "other": lambda: S.CallerOther(src)}[form]()
        want = frozenset([("variable", required_var, True), ("region", "World", True)])
        N = src.count(want)
        before = snapshot(m)

        def spec_of(r, k):
            unit = r["meta"]["unit"]
            S.unit_of(unit, c)
            F = r["values"]() * unit.scale
            dt = m.delta_t
            s2 = dict(s)
            s2["delta_t"] = SReal(*lift(dt.to(K.units_of(kind)["delta_t"]).magnitude))
            tag = "_%d" % c.counter("spec")
            return (TLSpec if kind == "TL" else IRSpec)(c, s2, F, tag)

        loop = ScenLoop(c, m, kind, src, spec_of, focus in VAL)
        c.loop(loop)
        with S.environment():
            what, out = attempt(m.run_scenarios, obj, **kw)
        # whatever the outcome, only the timestep, the drivers and the run state may differ afterwards
        frame(c, m, before, K.RUN_ATTRS | {"_erf", "_erf_mag", "_delta_t", "_delta_t_mag"}, "run_scenarios ")
        monthly, yearly = calendar(src)
        if focus == "selection":
            c.ensure("the caller's scenarios are not modified" + ("" if not src.log else ": " + "; ".join(src.log[:3])),
                     z3.BoolVal(not src.log), "ensures")
            if loop.conds is not None:
                bool_ensure(c, "exactly the rows with variable == driver_var and region == World are run", loop.conds == want)
            if what == "ok":
                c.ensure("returns normally only if there are World rows of driver_var", N.t >= 1)
            elif what == "ValueError":
                c.ensure("ValueError only if there are no World rows of driver_var", N.t == 0)
                frame_all(c, m, before, "ValueError: ")
            else:
                c.ensure("ValueError has precedence if there are no World rows", N.t >= 1)
            return
        if what == "ValueError":
            c.ensure("ValueError only if there are no World rows of driver_var", N.t == 0, "exceptions")
            return
        c.require(N.t >= 1)
        if focus == "timestep":
            if what == "NotImplementedError":
                c.ensure("refused only if neither monthly nor yearly", z3.And(z3.Not(monthly), z3.Not(yearly)))
                frame_all(c, m, before, "refused: ", skip={"_delta_t", "_delta_t_mag"})
                return
            dt = SReal(*lift(m.delta_t.to("s").magnitude))
            mag = SReal(*lift(m._delta_t_mag))
            per = SReal(sym.rv(YEAR)) if kind == "IR" else SReal(sym.rv(1))
            c.ensure("run only if monthly or yearly", z3.Or(monthly, yearly))
            c.ensure("monthly axis: timestep is one month", z3.Implies(monthly, (dt * 12).t == YEAR))
            c.ensure("yearly axis: timestep is one year", z3.Implies(z3.And(z3.Not(monthly), yearly), dt.t == YEAR))
            c.ensure_eq("the normalised timestep used by the steps is that timestep", mag * per, dt)
            return
        if what == "NotImplementedError":
            return
        if loop.reps is None:
            raise Unsupported("no loop over the scenarios was seen")
        if type(out) is not S.Rows:
            raise Unsupported("result is %s" % type(out).__name__)
        rows = list(out.rows)
        exp = 1 + len(OUTPUTS[kind])
        if focus == "labels":
            bool_ensure(c, "one driver row and %d output rows per scenario, nothing else" % (exp - 1), len(rows) == exp * len(loop.reps))
        for k in loop.reps:
            r = src.row(loop.conds, k)
            spec = r["spec"]
            mine = [x for x in rows if x.times.row == r["key"]]
            table = [("driver", r["meta"]["variable"], r["meta"]["unit"], None)] + [(v, v, u, a) for v, u, a in OUTPUTS[kind]]
            for label, var, unit, arrs in table:
                hit = [x for x in mine if x.meta.get("variable") is var or (isinstance(var, str) and type(var) is not S.SymStr
                                                                              and type(x.meta.get("variable")) is str and x.meta["variable"] == var)]
                bool_ensure(c, "exactly one %s row at the scenario's own time points" % label, len(hit) == 1)
                if len(hit) != 1:
                    raise PathEnd("row missing")
                x = hit[0]
                if focus == "labels":
                    meta = dict(r["meta"])
                    meta.update(saved)
                    meta.update(variable=var, unit=unit, climate_model=NAMES[kind], run_idx=SInt(k))
                    bool_ensure(c, "%s row has exactly the documented metadata columns" % label, set(x.meta) == set(meta))
                    for col in sorted(set(x.meta) & set(meta)):
                        c.ensure("%s row: %s" % (label, col if col in S.COLUMNS + ("run_idx", "climate_model") else "saved parameters"),
                                 same_label(x.meta[col], meta[col]))
                if focus in ("labels",) + VAL:
                    v = x.values
                    j = c.int("jfin%d" % c.counter("jfin"), 0)
                    if x.times is r["all"]:
                        # all time points: missing outside the scenario's own
                        c.ensure("%s row: one value per time point" % label, iterm(v.n) == iterm(src.T))
                        c.ensure("%s row: missing where the scenario has no value" % label,
                                 z3.Implies(z3.And(j.t < iterm(src.T), z3.Not(r["present"](j.t))), bterm(v.fn(j.t).nan)))
                        w, at = v, r["times"].at
                        v = SArray(r["n"], lambda i: w.fn(at(i)))
                        r["values"]().fn(j.t)
                    elif x.times is not r["times"]:
                        c.ensure("%s row: one value per time point of the scenario" % label, iterm(x.times.n) == iterm(r["n"]))
                        r["values"]().fn(j.t)
                        c.ensure("%s row: values at the scenario's own time points" % label,
                                 z3.Implies(j.t < iterm(r["n"]), x.times.at(j.t) == r["times"].at(j.t)))
                    c.ensure("%s row: one value per time point" % label, iterm(v.n) == iterm(r["n"]))
                    c.require(j < r["n"])
                    if arrs is None:
                        c.ensure_eq("driver row: values unchanged", v.fn(j.t), r["values"]().fn(j.t))
                    elif focus == "values" or focus == "temperatures" and var != "Heat Uptake":
                        w = spec.at(arrs[0], j.t)
                        for a in arrs[1:]:
                            w = w + spec.at(a, j.t)
                        c.ensure_eq("%s row: values of a standalone run with this scenario's own values and unit" % label, v.fn(j.t), w)
    return f


def frame_all(c, m, before, label, skip=()):
    frame(c, m, before, set(skip), label)
    # decisive: rejection must leave the model as it was
    return


for _k in ("TL", "IR"):
    for _f in ("selection", "labels", "values", "timestep") + (("temperatures",) if _k == "IR" else ()):
        task("%s.run_scenarios:%s" % (_k, _f), "base.TwoLayerVariant.run_scenarios, %s._get_run_output_tss" % _k)(scenario_task(_k, _f))


@task("_select_timestep", "base.TwoLayerVariant._select_timestep")
def t_select(c):
    src = S.Source(c)
    with S.environment():
        what, dt = attempt(K.M.TwoLayerModel._select_timestep, S.Run(src))
    monthly, yearly = calendar(src)
    if what == "NotImplementedError":
        c.ensure("refused only if neither monthly nor yearly", z3.And(z3.Not(monthly), z3.Not(yearly)))
        return
    s = SReal(*lift(dt.to("s").magnitude))
    c.ensure("accepted only if monthly or yearly", z3.Or(monthly, yearly))
    c.ensure("monthly: one month", z3.Implies(monthly, (s * 12).t == YEAR))
    c.ensure("yearly: one year", z3.Implies(z3.And(z3.Not(monthly), yearly), s.t == YEAR))


@task("_ensure_scenarios_are_scmrun", "base.TwoLayerVariant._ensure_scenarios_are_scmrun")
def t_ensure(c):
    src = S.Source(c)
    form = 0 if c.choose("run") else 1 if c.choose("frame") else 2
    obj = (S.Run(src, caller=True), S.CallerFrame(src), S.CallerOther(src))[form]
    with S.environment():
        what, out = attempt(K.M.TwoLayerModel._ensure_scenarios_are_scmrun, obj)
    bool_ensure(c, "result is an ScmRun over the same data", type(out) is S.Run and out.src is src and not out.conds and not out.over)
    bool_ensure(c, "result is not the caller's object", out is not obj and not getattr(out, "caller", True))
    bool_ensure(c, "the caller's object is unmodified", not src.log)


def base_row(c):
    n = c.int("n_row", 1)
    meta = {k: S.SymStr(k) for k in S.COLUMNS}
    meta["climate_model"] = S.SymStr("climate_model")
    names = sorted(meta)
    times = S.Times("row", n)
    return n, names, meta, times, S.Frame([S.Row([meta[k] for k in names], times, SArray.fresh("base", n))], names)


@task("_create_ts", "base.TwoLayerVariant._create_ts")
def t_create(c):
    n, names, meta, times, base = base_row(c)
    u, v = S.SymStr("new unit"), S.SymStr("new variable")
    vals = SArray.fresh("vals", n, nan=True)
    keep = vals.snapshot()
    bv = base._rows[0].values.snapshot()
    with S.environment():
        what, out = attempt(K.M.TwoLayerModel._create_ts, base=base, unit=u, variable=v, values=vals)
    bool_ensure(c, "a new one-row frame is returned", type(out) is S.Frame and out is not base and len(out._rows) == 1)
    r = dict(zip(out._names, out._rows[0].meta))
    bool_ensure(c, "unit and variable replaced, other metadata kept", set(r) == set(meta) and all(
        r[k] is (u if k == "unit" else v if k == "variable" else meta[k]) for k in meta))
    bool_ensure(c, "time points kept", out._rows[0].times is times)
    c.ensure_eq("values are the given ones", out._rows[0].values, keep)
    vals.fn = lambda j: SReal(sym.rv(0))
    c.ensure_eq("values are a copy", out._rows[0].values, keep)
    bool_ensure(c, "base metadata unchanged", all(a is meta[k] for a, k in zip(base._rows[0].meta, names)) and list(base._names) == names)
    c.ensure_eq("base values unchanged", base._rows[0].values, bv)


def outputs_task(kind):
    def f(c):
        m, q, s = make_model(c, kind)
        n, names, meta, times, base = base_row(c)
        vals = {}
        for a in arrays(kind):
            vals[a] = SArray.fresh("out" + a, n)
            setattr(m, a, vals[a])
        before = snapshot(m)
        with S.environment():
            what, out = attempt(m._get_run_output_tss, base)
        out = list(out)
        bool_ensure(c, "one frame per documented output", len(out) == len(OUTPUTS[kind]) and all(type(x) is S.Frame and len(x._rows) == 1 for x in out))
        if len(out) != len(OUTPUTS[kind]):
            raise PathEnd()
        got = [(dict(zip(x._names, x._rows[0].meta)), x._rows[0]) for x in out]
        for var, unit, arrs in OUTPUTS[kind]:
            hit = [r for d, r in got if d.get("variable") == var and d.get("unit") == unit and all(
                d.get(k) is meta[k] for k in meta if k not in ("unit", "variable"))]
            bool_ensure(c, "exactly one %s row in %s with the base metadata" % (var, unit), len(hit) == 1)
            if len(hit) == 1:
                j = c.int("j_%d" % c.counter("jo"), 0)
                c.require(j < n)
                w = vals[arrs[0]].fn(j.t)
                for a in arrs[1:]:
                    w = w + vals[a].fn(j.t)
                c.ensure_eq("%s: values" % var, hit[0].values.fn(j.t), w)
                bool_ensure(c, "%s: time points" % var, hit[0].times is times)
        frame(c, m, before)
    return f


for _k in ("TL", "IR"):
    task(_k + "._get_run_output_tss", "%s._get_run_output_tss" % _k)(outputs_task(_k))
