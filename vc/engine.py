"""Paths, obligations and loops.

A *task* is a Python function ``task(c)`` that builds a symbolic pre-state,
calls a real function of the repository and states the contract with
``c.require`` (precondition), ``c.ensure`` (postcondition) and loop contracts.
``explore`` runs it once per feasible path.
"""
import sys
import os
import time
import traceback

import z3

from . import solve, statics, sym
from .ring import NotRational, Ring
from .sym import PathEnd, SArray, SBool, SInt, SReal, Unsupported, bterm, iterm, lift, rv

MAX_PATHS = 400


class Restart(BaseException):
    """A guessed invariant was not preserved: explore the task again with the next guess."""


class Obligation:
    __slots__ = ("task", "name", "kind", "status", "backend", "secs", "model", "goal", "path")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def row(self):
        return {"task": self.task, "name": self.name, "kind": self.kind, "status": self.status,
                "backend": self.backend, "secs": round(self.secs or 0, 3)}


class Ctx:
    """One path of one task."""

    def __init__(self, run, prefix):
        self.run = run  # TaskRun
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.rewrites = []
        self.loop_policies = []
        self.counters = {}
        self.inputs = {}
        self.notes = []
        self.P = run.prover
        self.tag = ""
        self._nz = {}

    # -- naming --------------------------------------------------------------
    def counter(self, k):
        self.counters[k] = self.counters.get(k, -1) + 1
        return self.counters[k]

    def func(self, name, *sorts):
        return z3.Function("%s#%d" % (name, self.counter("f:" + name)), *sorts)

    def qvar(self):
        return z3.Int("q!%d" % self.counter("qvar"))

    def real(self, name, pos=False, nonneg=False):
        t = z3.Real(name)
        self.inputs[name] = t
        if pos:
            self.pc.append(t > 0)
            self.P.positive[t.get_id()] = t
        elif nonneg:
            self.pc.append(t >= 0)
        return SReal(t)

    def int(self, name, lo=None):
        t = z3.Int(name)
        self.inputs[name] = t
        if lo is not None:
            self.pc.append(t >= lo)
        return SInt(t)

    # -- path conditions -------------------------------------------------------
    def require(self, cond):
        t = solve.bsimp(bterm(cond))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd("assumption false")
        self.pc.append(t)

    def hyps(self):
        return self.pc

    def feasible(self, t):
        hs = solve.cone(self.pc + self.P.facts, t)
        r, _ = solve.z3_check(hs + [t], 300, 400000)
        if r == z3.unsat:
            return False
        return True

    def branch(self, t):
        t = solve.bsimp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        # already settled syntactically by an assumption
        nt = t.arg(0) if z3.is_not(t) else z3.Not(t)
        for h in self.pc:
            if h.eq(t):
                return True
            if h.eq(nt):
                return False
        if self.local is not None:
            return self._local_branch(t, nt)
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            forced = v in ("T!", "F!")
            b = v[0] == "T"
        else:
            ft = self.feasible(t)
            ff = self.feasible(z3.Not(t)) if ft else True
            if not ft and not self.feasible(z3.Not(t)):
                raise PathEnd("infeasible")
            b = ft
            forced = not (ft and ff)
            v = ("T" if b else "F") + ("!" if forced else "")
            if not forced:
                self.run.push(self.taken + ["F"])
        self.taken.append(v)
        self.pc.append(t if b else nt)
        return b

    # -- evaluation under a quantifier ---------------------------------------------
    local = None

    def _local_branch(self, t, nt):
        L = self.local
        k = len(L["taken"])
        if k < len(L["prefix"]):
            b = L["prefix"][k]
        else:
            b = self.feasible(t)
            if b and self.feasible(nt):
                L["todo"].append(L["taken"] + [False])
            elif not b and not self.feasible(nt):
                raise PathEnd("infeasible")
        L["taken"].append(b)
        L["conds"].append(t if b else nt)
        self.pc.append(t if b else nt)
        return b

    def forall_paths(self, i, rng, f):
        """[(conditions, value)] over all paths of f() for the bound variable i in range."""
        if self.local is not None:
            raise Unsupported("nested quantified evaluation that branches")
        out, todo = [], [[]]
        outer = list(self.pc), dict(self._nz)
        try:
            while todo:
                if len(out) > 16:
                    raise Unsupported("too many cases under a quantifier")
                self.local = dict(prefix=todo.pop(), taken=[], conds=[], todo=todo)
                self.pc, self._nz = outer[0] + [rng], dict(outer[1])
                try:
                    v = f()
                    out.append((list(self.local["conds"]), v))
                except PathEnd as e:
                    if str(e) != "infeasible":
                        raise Unsupported("undefined element under a quantifier")
        finally:
            self.local = None
            self.pc, self._nz = outer
        for t in [t for conds, v in out for t in conds + [v]]:
            for a in solve.subterms(t):
                d = self.P.defs.get(a.get_id())
                if d is not None and i.decl().name() in solve.symbols(d[1]):
                    raise Unsupported("%s under a quantifier" % d[0])
        return out

    def choose(self, label):
        """A non-deterministic choice (both sides are verified)."""
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = "T"
            self.run.push(self.taken + ["F"])
        self.taken.append(v)
        return v[0] == "T"

    # -- obligations -----------------------------------------------------------
    def ensure(self, name, cond, kind="ensures", hint=None):
        t = bterm(cond)
        self.run.discharge(self, name, kind, t)

    def fail(self, name, why, kind="ensures"):
        """An obligation whose goal is false on this path."""
        self.run.discharge(self, name, kind, z3.BoolVal(False), why)

    def ensure_eq(self, name, a, b, kind="ensures"):
        self.ensure(name, eqv(a, b), kind)

    def undefined(self, what):
        self.fail("defined: " + what, what, "definedness")
        raise PathEnd("undefined")

    def nonzero(self, t):
        if t.get_id() in self._nz:
            return
        self._nz[t.get_id()] = t
        self.run.discharge(self, "divisor is non-zero", "definedness", z3.Not(t == 0))
        self.pc.append(z3.Not(t == 0))

    # -- transcendental atoms ----------------------------------------------------
    def _key(self, t):
        try:
            nf = self.P.ring.of(t)
            return nf, self.P.ring.term(nf)
        except (NotRational, ZeroDivisionError):
            t = z3.simplify(t)
            return ("raw", t.sexpr()), t

    def _noite(self, t):
        """Decide every ITE inside t by branching."""
        for _ in range(40):
            x = solve.small_ite(t)
            if x is None:
                return t
            c = x.arg(0)
            t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(self.branch(c)))))
        return t

    def sqrt(self, t):
        t = self._noite(z3.simplify(t) if not z3.is_rational_value(t) else t)
        if z3.is_rational_value(t):
            from math import isqrt
            from .sym import cval
            f = cval(t)
            if f >= 0:
                a, b = isqrt(f.numerator), isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return rv(f.__class__(a, b))
        nf, canon = self._key(t)
        self.run.discharge(self, "square root argument is non-negative", "definedness", canon >= 0)
        if nf[0] != "raw":
            r = self.P.ring.frac_sqrt(nf)
            if r is not None:
                rt = self.P.ring.term(r)
                if self.P.prove(self.pc, rt >= 0)[0] == "discharged":
                    return rt
                if self.P.prove(self.pc, rt <= 0)[0] == "discharged":
                    return -rt
                return z3.If(rt >= 0, rt, -rt)
        if nf[0] != "raw":
            out, nf = self._mono_square(nf)
            canon = self.P.ring.term(nf)
            if out is not None:
                return self.P.ring.term(out) * self._sqrt_atom(nf, canon)
        return self._sqrt_atom(nf, canon)

    def _mono_square(self, nf):
        """sqrt(nf) = out * sqrt(rest), squares of positive atoms pulled out."""
        R = self.P.ring
        n, d = nf
        # rational content of the numerator and monomial contents
        def content(p):
            m = None
            for mon, _ in p.terms():
                m = list(mon) if m is None else [min(a, b) for a, b in zip(m, mon)]
            return m
        cn, cd = content(n), content(d)
        shift = []
        for g, (a, b) in enumerate(zip(cn, cd)):
            e = a - b
            t = R.gen_term.get(g)
            if e and t is not None and t.get_id() in self.P.positive:
                shift.append(e // 2)  # floor: leaves 0 or 1
            else:
                shift.append(0)
        if not any(shift):
            return None, nf
        on = R.R({tuple(max(k, 0) for k in shift): 1})
        od = R.R({tuple(max(-k, 0) for k in shift): 1})
        rest = R.norm(n * od * od, d * on * on)
        return (on, od), rest

    def _sqrt_atom(self, nf, canon):
        tab = self.run.sqrts
        k = repr(nf) if nf[0] == "raw" else nf
        if k not in tab:
            s = z3.Real("sqrt!%d" % len(tab))
            tab[k] = s
            self.P.defs[s.get_id()] = ("sqrt", canon)
            if nf[0] != "raw":
                self.P.ring.set_square(s, nf)
            if self.P.sign_pos(canon):
                self.P.positive[s.get_id()] = s
        s = tab[k]
        self.pc += [s > 0 if s.get_id() in self.P.positive else s >= 0, s * s == canon]
        return s

    def exp(self, t):
        t = self._noite(z3.simplify(t))
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            return rv(1)
        nf, canon = self._key(t)
        tab = self.run.exps
        k = repr(nf) if nf[0] == "raw" else nf
        if k not in tab:
            e = z3.Real("exp!%d" % len(tab))
            tab[k] = e
            self.P.defs[e.get_id()] = ("exp", canon)
            self.P.positive[e.get_id()] = e
            self.P.facts += [e > 0, (canon < 0) == (e < 1), (canon == 0) == (e == 1)]
            # exp(-x) = 1/exp(x) for a pair already present
            if nf[0] != "raw":
                neg = (-nf[0], nf[1])
                if neg in tab:
                    self.P.facts.append(e * tab[neg] == 1)
        return tab[k]

    # -- loops -------------------------------------------------------------------
    def loop(self, policy):
        self.loop_policies.append(policy)


def eqv(a, b):
    """Same value (NaN equal to NaN); arrays compared at a fresh index."""
    if isinstance(a, SArray) or isinstance(b, SArray):
        if not (isinstance(a, SArray) and isinstance(b, SArray)):
            return SBool(z3.BoolVal(False))
        j = z3.Int("j!%d" % sym.ctx().counter("jarr"))
        rng = z3.And(j >= 0, j < iterm(a.n))
        return SBool(z3.And(iterm(a.n) == iterm(b.n),
                            z3.Implies(rng, bterm(eqv(a.fn(j), b.fn(j))))))
    if isinstance(a, SInt) and isinstance(b, (SInt, int)) or isinstance(b, SInt) and isinstance(a, int):
        return SBool(iterm(a) == iterm(b))
    p, q = lift(a), lift(b)
    if p is None or q is None:
        raise Unsupported("eqv of %r, %r" % (type(a), type(b)))
    if p[1] is None and q[1] is None:
        return SBool(p[0] == q[0])
    na, nb = bterm(p[1]), bterm(q[1])
    return SBool(z3.And(na == nb, z3.Implies(z3.Not(na), p[0] == q[0])))


class TaskRun:
    def __init__(self, name, tier="quick", ring_gens=40, deadline=None):
        self.deadline = deadline
        self.name = name
        self.prover = solve.Prover(Ring(ring_gens), tier)
        self.sqrts, self.exps = {}, {}
        self.stack = []
        self.obls = []
        self.seen = {}
        self.unsupported = []
        self.paths = 0
        self.ended = 0
        self.completed = 0
        self.samples = []
        self.failures = 0
        self.candidates = {}  # loop-carried local -> index of the invariant guessed for it
        self.restarts = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def discharge(self, c, name, kind, goal, why=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the task used up")
        goal = solve.bsimp(goal)
        hyps = list(c.pc)
        # the same obligation met again on re-execution of a shared prefix
        key = (name, goal.sexpr(), tuple(h.sexpr() for h in hyps))
        if key in self.seen:
            return self.seen[key]
        t = time.time()
        st, be, m = self.prover.prove(hyps, goal, c.rewrites)
        o = Obligation(task=self.name, name=name, kind=kind, status=st, backend=be,
                       secs=time.time() - t, goal=(why or shorten(goal)), path="".join(x[0] for x in c.taken))
        if st == "refuted":
            o.model = model_values(m, c.inputs)
        self.seen[key] = o
        self.obls.append(o)
        if st != "discharged":
            self.failures += 1
            if self.failures > 5:
                self.prover.hurry = True  # the task is lost: spend less on the rest
            if self.failures > 60:
                raise Unsupported("task abandoned after %d failed obligations" % self.failures)
        return o

    def explore(self, fn):
        t0 = time.time()
        self.stack = [[]]
        while self.stack:
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > MAX_PATHS:
                self.unsupported.append("more than %d paths" % MAX_PATHS)
                break
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget of the task used up")
                break
            c = Ctx(self, prefix)
            sym.set_ctx(c)
            static = statics.Snap()
            try:
                fn(c)
                self.completed += 1
            except PathEnd:
                self.ended += 1
            except Restart:
                self.restarts += 1
                self.stack, self.obls, self.seen, self.unsupported = [[]], [], {}, []
                self.paths = self.completed = self.ended = self.failures = 0
                self.prover.hurry = False
                if self.restarts > 40:
                    self.unsupported.append("no invariant found for a local variable of a loop")
                    break
            except Unsupported as e:
                self.unsupported.append("%s%s" % (e, where(e)))
            except UnboundLocalError as e:
                self.unsupported.append("loop-carried local: %s" % e)
            except RecursionError as e:
                self.unsupported.append("recursion: %s" % e)
            except Exception as e:  # the code raised where the contract allows no exception
                try:
                    # raised by the repository itself, or by something it called (then perhaps only
                    # because a symbolic value was handed to it)
                    fr = traceback.extract_tb(e.__traceback__)[-1]
                    own = os.path.join("src", "openscm_twolayermodel") in fr.filename and (fr.line or "").strip().startswith(("raise", "assert"))
                    self.discharge(c, "no unexpected exception", "exceptions" if own else "library exception", z3.BoolVal(False),
                                   "%s: %s%s" % (type(e).__name__, e, where(e)))
                except Unsupported as e2:
                    self.unsupported.append(str(e2))
            finally:
                changed = static.changed()
                try:
                    if changed:
                        static.restore()
                    self.discharge(c, "frame: module, class and function level state unchanged", "static state",
                                   z3.BoolVal(not changed), ", ".join(changed)[:200])
                except Unsupported:
                    pass
                sym.set_ctx(None)
            if self.failures > 60:
                self.unsupported.append("task abandoned after %d failed obligations" % self.failures)
                break
        self.secs = time.time() - t0
        return self

    @property
    def ok(self):
        return (not self.unsupported and any(o.kind != "static state" for o in self.obls) and self.completed + self.ended > 0
                and all(o.status == "discharged" for o in self.obls))

    @property
    def refuted(self):
        return [o for o in self.obls if o.status == "refuted"]


def shorten(g):
    s = g.sexpr()
    return s if len(s) < 400 else s[:400] + "..."


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "openscm_twolayermodel" in f.filename:
            return " (at %s:%s)" % (f.filename.split("/")[-1], f.lineno)
    return " (at %s:%s)" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else ""


def model_values(m, inputs):
    out = {}
    if m is None:
        return out
    for k, t in inputs.items():
        if isinstance(m, dict):
            if str(t) in m:
                v = m[str(t)]
                out[k] = str(v)
            continue
        v = m.eval(t, model_completion=False)
        if z3.is_rational_value(v):
            out[k] = "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            out[k] = v.approx(20).as_decimal(18).rstrip("?")
        elif z3.is_int_value(v):
            out[k] = str(v.as_long())
    return out
