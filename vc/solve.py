"""Back ends that discharge one obligation: ring normal forms, z3, cvc5, and a
numeric falsifier (the latter only ever refutes)."""
import decimal
import random
import subprocess
import sys
import time
from fractions import Fraction

import z3

from .ring import NotRational

STATS = {}


def _count(backend, dt):
    s = STATS.setdefault(backend, [0, 0.0])
    s[0] += 1
    s[1] += dt


def z3_check(assertions, ms=4000, rlimit=None):
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("random_seed", 1)
    if rlimit:
        s.set("rlimit", rlimit)
    s.add(*assertions)
    t = time.time()
    r = s.check()
    _count("z3", time.time() - t)
    return r, (s.model() if r == z3.sat else None)


CVC5_SRC = r"""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import resource
resource.setrlimit(resource.RLIMIT_CPU, (int(sys.argv[1]), int(sys.argv[1])))
import cvc5
tm = cvc5.TermManager()
sol = cvc5.Solver(tm)
sol.setOption("nl-cov", "true")
p = cvc5.InputParser(sol)
p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, sys.stdin.read(), "vc")
sm = p.getSymbolManager()
while True:
    c = p.nextCommand()
    if c.isNull():
        break
    r = str(c.invoke(sol, sm)).strip()
    if r:
        print(r)
"""


def cvc5_check(assertions, ms=6000):
    """unsat/unknown only (models are taken from z3)."""
    s = z3.Solver()
    s.add(*assertions)
    text = "(set-logic ALL)\n" + "\n".join(
        l for l in s.to_smt2().splitlines() if not l.startswith(("(set-info", "(set-logic")))
    t = time.time()
    try:
        r = subprocess.run([sys.executable, "-c", CVC5_SRC, str(int(ms / 1000) + 3)], input=text, capture_output=True, text=True,
                           timeout=ms / 1000)
        out = r.stdout.split()
        return out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        _count("cvc5", time.time() - t)


# -- term utilities ---------------------------------------------------------

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        yield x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())


_SYM, _NL = {}, {}


def symbols(t):
    k = t.get_id()
    if k not in _SYM:
        _SYM[k] = (_symbols(t), t)
    return _SYM[k][0]


def _symbols(t):
    return {x.decl().name() for x in subterms(t)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def cone(hyps, goal):
    syms = set(symbols(goal))
    if not syms:
        return list(hyps)
    sets = [(h, symbols(h)) for h in hyps]
    used = [False] * len(sets)
    changed = True
    while changed:
        changed = False
        for i, (h, s) in enumerate(sets):
            if not used[i] and (s & syms or not s):
                used[i] = True
                syms |= s
                changed = True
    return [h for (h, _), u in zip(sets, used) if u]


def small_ite(t):
    """Some ITE subterm whose condition holds no ITE."""
    for x in subterms(t):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            if not any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE for y in subterms(x.arg(0))):
                if not has_var(x.arg(0)):
                    return x
    return None


def drop_ite(t, c, val):
    """t with every ITE on condition c replaced by its chosen branch."""
    for _ in range(50):
        subs = [(x, x.arg(1 if val else 2)) for x in subterms(t)
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(c)]
        if not subs:
            return t
        t = z3.substitute(t, *subs)
    return t


def bsimp(t):
    """Simplify at the boolean level only (real atoms keep their shape)."""
    r = z3.simplify(t)
    if z3.is_true(r) or z3.is_false(r):
        return r
    if z3.is_app(t) and t.sort() == z3.BoolSort():
        if t.decl().kind() == z3.Z3_OP_DISTINCT and t.num_args() == 2:
            return z3.Not(t.arg(0) == t.arg(1))
        if z3.is_and(t) or z3.is_or(t):
            out = []
            for x in t.children():
                y = bsimp(x)
                if z3.is_true(y) if z3.is_and(t) else z3.is_false(y):
                    continue
                if z3.is_false(y) if z3.is_and(t) else z3.is_true(y):
                    return y
                out.append(y)
            return out[0] if len(out) == 1 else (z3.And(out) if z3.is_and(t) else z3.Or(out))
        if z3.is_not(t):
            return z3.Not(bsimp(t.arg(0)))
        if z3.is_implies(t):
            a, b = bsimp(t.arg(0)), bsimp(t.arg(1))
            return b if z3.is_true(a) else z3.Implies(a, b)
        if t.num_args() == 2 and t.arg(0).sort() == z3.RealSort():
            return t
    return r


def has_var(t):
    return any(z3.is_var(x) for x in subterms(t))


def is_eq_real(g):
    return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()


# -- numeric evaluation -----------------------------------------------------

class Tie(Exception):
    """Two inexactly known numbers too close to call."""


_CX = decimal.Context(prec=90)


def _frac(d):
    n, q = d.as_integer_ratio()
    return Fraction(n, q)


def _dec(f):
    return _CX.divide(decimal.Decimal(f.numerator), decimal.Decimal(f.denominator))


class Eval:
    """Exact rational evaluation; exp and sqrt to 90 digits (comparisons that
    depend on the rest are not decided)."""

    def __init__(self, rnd, positive, defs, pool=(), given=None):
        self.rnd, self.pos, self.defs = rnd, positive, defs
        self.pool, self.given = pool, given or {}
        self.val = {}
        self.inexact = False
        self.big = Fraction(1)
        self.wide = rnd.random() < 0.6

    def ev(self, t):
        k = t.get_id()
        if k in self.val:
            return self.val[k]
        r = self._ev(t)
        self.val[k] = r
        if self.inexact and not isinstance(r, bool) and abs(r) > self.big:
            self.big = abs(r)
        return r

    def cmp(self, a, b):
        d = a - b
        if self.inexact and abs(d) <= self.big * Fraction(1, 10 ** 45):
            raise Tie()
        return d

    def _ev(self, t):
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t):
            return Fraction(t.as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_quantifier(t) or z3.is_var(t):
            raise NotRational("quantifier")
        k = t.decl().kind()
        name = t.decl().name()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            d = self.defs.get(t.get_id())
            if d is not None:
                kind, arg = d
                v = self.ev(arg)
                if kind == "exp":
                    if v == 0:
                        return Fraction(1)
                    if abs(v) > 5000:
                        raise OverflowError()
                    self.inexact = True
                    return _frac(_CX.exp(_dec(v)))
                if v < 0:
                    raise ValueError("sqrt")
                r = _frac(_CX.sqrt(_dec(v)))
                if r * r != v:
                    self.inexact = True
                return r
            if ch:
                # function application: value per distinct argument values
                key = (name, tuple(self.ev(c) for c in ch))
                if key in self.val:
                    return self.val[key]
                v = self._fresh(t)
                self.val[key] = v
                return v
            return self._fresh(t)
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in ch)
        if k == z3.Z3_OP_NOT:
            return not self.ev(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        v = [self.ev(c) for c in ch]
        if k == z3.Z3_OP_ADD:
            return sum(v[1:], v[0])
        if k == z3.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_MUL:
            r = v[0]
            for x in v[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if k == z3.Z3_OP_POWER:
            if v[1].denominator != 1 or abs(v[1]) > 64:
                raise NotRational("power")
            return v[0] ** int(v[1])
        if k == z3.Z3_OP_TO_REAL:
            return v[0]
        if k == z3.Z3_OP_EQ:
            if isinstance(v[0], bool) or isinstance(v[1], bool):
                return v[0] == v[1]
            return self.cmp(v[0], v[1]) == 0
        if k == z3.Z3_OP_LE:
            return self.cmp(v[0], v[1]) <= 0
        if k == z3.Z3_OP_LT:
            return self.cmp(v[0], v[1]) < 0
        if k == z3.Z3_OP_GE:
            return self.cmp(v[0], v[1]) >= 0
        if k == z3.Z3_OP_GT:
            return self.cmp(v[0], v[1]) > 0
        if k == z3.Z3_OP_IDIV:
            return v[0] // v[1]
        if k == z3.Z3_OP_MOD:
            return v[0] % v[1]
        raise NotRational(name)

    def _fresh(self, t):
        s = t.sort()
        if not t.children() and t.decl().name() in self.given:
            return self.given[t.decl().name()]
        rnd = self.rnd
        if s == z3.BoolSort():
            return rnd.random() < 0.5
        if s == z3.IntSort():
            return Fraction(rnd.randint(0, 6))
        if s != z3.RealSort():
            raise NotRational("sort")
        pos = t.get_id() in self.pos
        k = rnd.random()
        if self.pool and k < 0.25:
            x = abs(rnd.choice(self.pool)) * rnd.choice([Fraction(1), Fraction(1, 2), Fraction(999, 1000), Fraction(1001, 1000),
                                                        Fraction(3), Fraction(1, 100), Fraction(40)])
            if x == 0:
                x = Fraction(0) if not pos else Fraction(1, 3)
        elif self.wide and k < 0.75:
            x = Fraction(rnd.randint(10, 99), 10) * Fraction(10) ** rnd.randint(-9, 6)
        else:
            x = Fraction(rnd.randint(1, 400), rnd.choice([1, 7, 40, 100]))
        if not pos and rnd.random() < 0.4:
            x = -x
        return x


def _pool(terms):
    out = {Fraction(1)}
    for t in terms:
        for x in subterms(t):
            if z3.is_rational_value(x) and not z3.is_int_value(x):
                f = Fraction(x.numerator_as_long(), x.denominator_as_long())
                if f and abs(f) < 10 ** 9:
                    out.add(abs(f))
    return sorted(out)[:40]


def falsify(hyps, goal, positive, defs, tries=400, seed=1, given=None, seconds=1.5):
    """A concrete assignment satisfying hyps and violating goal, or None."""
    rnd = random.Random(seed)
    t0 = time.time()
    pool = _pool(list(hyps) + [goal])
    try:
        for i in range(tries):
            if time.time() - t0 > seconds:
                break
            e = Eval(rnd, positive, defs, pool, given)
            try:
                if not all(e.ev(h) for h in hyps):
                    continue
                if not e.ev(goal):
                    return {str(t): e.val[t.get_id()] for h in list(hyps) + [goal] for t in subterms(h)
                            if t.get_id() in e.val and z3.is_app(t) and not t.children()
                            and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() not in defs}
            except (ZeroDivisionError, OverflowError, ValueError, Tie, decimal.DecimalException):
                continue
            if given:
                rnd.random()
    except NotRational:
        return None
    finally:
        _count("sampling", time.time() - t0)
    return None


def rationals(m):
    """Values of the constants of a z3 model (algebraic numbers approximated)."""
    out = {}
    for d in m.decls():
        if d.arity():
            continue
        v = m[d]
        if z3.is_int_value(v):
            out[d.name()] = Fraction(v.as_long())
        elif z3.is_rational_value(v):
            out[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_true(v) or z3.is_false(v):
            out[d.name()] = z3.is_true(v)
    return out


class Prover:
    """Proof context: ring, definitional rewrites, facts about atoms."""

    def __init__(self, ring, tier="quick"):
        self.ring = ring
        self.positive = {}  # ast id -> term known > 0
        self.defs = {}  # ast id of atom -> ("exp"|"sqrt", arg)
        self.facts = []  # always-true facts
        self.tier = tier
        self.hurry = False
        self.ms = 3000 if tier == "quick" else 20000
        self.memo = {}
        self.signs = {}

    def prove(self, hyps, goal, rewrites=(), depth=0):
        """('discharged'|'refuted'|'unknown', backend, model)"""
        goal = bsimp(goal)
        if z3.is_true(goal):
            return "discharged", "simplify", None
        if z3.is_not(goal):
            g = goal.arg(0)
            if z3.is_not(g):
                return self.prove(hyps, g.arg(0), rewrites, depth + 1)
            if z3.is_or(g):
                return self.prove(hyps, z3.And([z3.Not(x) for x in g.children()]), rewrites, depth + 1)
            if z3.is_implies(g):
                return self.prove(hyps, z3.And(g.arg(0), z3.Not(g.arg(1))), rewrites, depth + 1)
        if depth > 60:
            return "unknown", "depth", None
        if z3.is_and(goal):
            be = "simplify"
            unk = None
            for c in goal.children():
                r = self.prove(hyps, c, rewrites, depth + 1)
                if r[0] == "refuted":
                    return r
                if r[0] == "unknown":
                    unk = r
                else:
                    be = r[1] if r[1] != "simplify" else be
            return unk or ("discharged", be, None)
        if z3.is_implies(goal):
            return self.prove(list(hyps) + [goal.arg(0)], goal.arg(1), rewrites, depth + 1)
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
            return self.prove(hyps, z3.substitute_vars(goal.body(), *reversed(vs)), rewrites, depth + 1)
        if rewrites:
            for _ in range(4):
                g2 = z3.substitute(goal, *rewrites)
                if g2.eq(goal):
                    break
                goal = g2
            rewrites = ()
            return self.prove(hyps, goal, (), depth + 1)
        ite = small_ite(goal)
        if ite is not None:
            c = ite.arg(0)
            val = self.decide(hyps, c)
            if val is not None:
                return self.prove(hyps, drop_ite(goal, c, val), (), depth + 1)
            r1 = self.prove(list(hyps) + [c], drop_ite(goal, c, True), (), depth + 1)
            if r1[0] == "refuted":
                return r1
            r2 = self.prove(list(hyps) + [z3.Not(c)], drop_ite(goal, c, False), (), depth + 1)
            if r2[0] != "discharged":
                return r2
            return r1
        return self.atom(hyps, goal)

    def decide(self, hyps, c):
        """True/False if hyps settle the (usually integer) condition c."""
        key = (tuple(h.get_id() for h in hyps), c.get_id())
        if key in self.memo:
            return self.memo[key][0]
        hs = [h for h in cone(hyps, c)]
        lin = [h for h in hs if not nonlinear(h)]
        v = None
        if z3_check(lin + [z3.Not(c)], 400)[0] == z3.unsat:
            v = True
        elif z3_check(lin + [c], 400)[0] == z3.unsat:
            v = False
        self.memo[key] = (v, list(hyps), c)
        return v

    def mono_pos(self, p, strict=True):
        """Every coefficient positive and every odd power over positive atoms."""
        if p == 0:
            return not strict
        for mon, c in p.terms():
            if not c > 0:
                return False
            for g, e in enumerate(mon):
                if e and self.ring.gen_term[g].get_id() not in self.positive and (strict or e % 2):
                    return False
        return True

    def poly_sign(self, p, hyps=(), depth=0):
        """1 / -1 if polynomial p is provably > 0 / < 0, else 0."""
        R = self.ring
        if p == 0:
            return 0
        if self.mono_pos(p):
            return 1
        if self.mono_pos(-p):
            return -1
        if depth > 3:
            return 0
        used = {g for mon, _ in p.terms() for g, e in enumerate(mon) if e}
        for g in sorted(used & set(R.sq), reverse=True):
            parts = R._split(p, g)
            if set(parts) - {0, 1} or 1 not in parts:
                continue
            A, B = parts.get(0, R.R.zero), parts[1]
            sn, sd = R.sq[g]
            if R.gen_term[g].get_id() not in self.positive:
                continue
            # p = A + B*s,  s > 0,  s^2 = sn/sd
            D = (B * B * sn - A * A * sd)  # (B^2 s^2 - A^2) * sd
            D, _ = R.reduce(D, R.R.one)
            ds, ss = self.poly_sign(D, hyps, depth + 1), self.poly_sign(sd, hyps, depth + 1)
            if ds * ss > 0:
                return self.poly_sign(B, hyps, depth + 1)
            if ds * ss < 0:
                return self.poly_sign(A, hyps, depth + 1)
            sa, sb = self.poly_sign(A, hyps, depth + 1), self.poly_sign(B, hyps, depth + 1)
            if sa and sa == sb:
                return sa
        # quadratic in one atom with negative discriminant
        for g in sorted(used - set(R.sq)):
            parts = R._split(p, g)
            if max(parts) != 2:
                continue
            a, b, c = (parts.get(k, R.R.zero) for k in (2, 1, 0))
            sa = self.poly_sign(a, hyps, depth + 2)
            if sa and self.poly_sign(4 * a * c - b * b, hyps, depth + 2) == 1:
                return sa
        # factor out positive monomial content, then square-free factors of known sign
        try:
            if len(p) <= 400:
                _, fs = p.factor_list()
                if len(fs) > 1 or (fs and fs[0][1] > 1):
                    c0, fs = p.factor_list()
                    sg = 1 if c0 > 0 else -1
                    for f, e in fs:
                        if e % 2 == 0:
                            if not self.poly_sign(f, hyps, depth + 1):
                                sg = 0
                                break
                        else:
                            x = self.poly_sign(f, hyps, depth + 1)
                            if not x:
                                sg = 0
                                break
                            sg *= x
                    if sg:
                        return sg
        except Exception:
            pass
        return 0

    def sign_pos(self, t, strict=True):
        """t > 0 (or >= 0) from the signs of its numerator and denominator."""
        try:
            n, d = self.ring.of(t)
        except (NotRational, ZeroDivisionError):
            return False
        if not strict and n == 0:
            return True
        if not strict and self.mono_pos(n, False) and self.poly_sign(d) == 1:
            return True
        return self.term_sign(t) == 1

    def term_sign(self, t, depth=0):
        """1/-1 if t > 0 / t < 0 is provable from signs of atoms, else 0."""
        k = t.get_id()
        if k in self.signs:
            return self.signs[k][0]
        r = 0
        try:
            n, d = self.ring.of(t)
            a = self.poly_sign(n)
            r = a * self.poly_sign(d) if a else 0
        except (NotRational, ZeroDivisionError):
            pass
        if not r and depth < 12 and z3.is_app(t):
            kind = t.decl().kind()
            ch = t.children()
            if kind == z3.Z3_OP_ADD:
                ss = {self.term_sign(c, depth + 1) for c in ch}
                r = ss.pop() if len(ss) == 1 else 0
            elif kind == z3.Z3_OP_SUB and len(ch) == 2:
                a = self.term_sign(ch[0], depth + 1)
                r = a if a and self.term_sign(ch[1], depth + 1) == -a else 0
            elif kind in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                r = 1
                for c in ch:
                    r *= self.term_sign(c, depth + 1)
                    if not r:
                        break
            elif kind == z3.Z3_OP_UMINUS:
                r = -self.term_sign(ch[0], depth + 1)
        self.signs[k] = (r, t)
        return r

    def atom(self, hyps, goal):
        t0 = time.time()
        try:
            if is_eq_real(goal):
                if self.ring.equal(goal.arg(0), goal.arg(1)):
                    return "discharged", "ring", None
            k = goal.decl().kind() if z3.is_app(goal) else None
            ng = goal.arg(0) if z3.is_not(goal) else None
            pair = None
            if k in (z3.Z3_OP_GT, z3.Z3_OP_GE) and goal.arg(0).sort() == z3.RealSort():
                pair = (goal.arg(0) - goal.arg(1), k == z3.Z3_OP_GT)
            elif k in (z3.Z3_OP_LT, z3.Z3_OP_LE) and goal.arg(0).sort() == z3.RealSort():
                pair = (goal.arg(1) - goal.arg(0), k == z3.Z3_OP_LT)
            elif ng is not None and z3.is_app(ng) and ng.children() and ng.arg(0).sort() == z3.RealSort():
                nk = ng.decl().kind()
                if nk == z3.Z3_OP_LE:
                    pair = (ng.arg(0) - ng.arg(1), True)
                elif nk == z3.Z3_OP_LT:
                    pair = (ng.arg(0) - ng.arg(1), False)
                elif nk == z3.Z3_OP_GE:
                    pair = (ng.arg(1) - ng.arg(0), True)
                elif nk == z3.Z3_OP_GT:
                    pair = (ng.arg(1) - ng.arg(0), False)
            if pair and self.sign_pos(*pair):
                return "discharged", "ring-sign", None
            if ng is not None and is_eq_real(ng):
                z = z3.is_rational_value(ng.arg(1)) and ng.arg(1).numerator_as_long() == 0
                d = ng.arg(0) if z else ng.arg(0) - ng.arg(1)
                if self.term_sign(d):
                    return "discharged", "ring-sign", None
        finally:
            _count("ring", time.time() - t0)
        goal2 = self.canon(goal)
        allh = list(hyps) + self.facts
        hs = cone(allh, goal2)
        neg = z3.Not(goal2)
        if self.hurry:
            w = falsify(hs, goal, self.positive, self.defs, tries=100, seconds=0.5)
            if w:
                return "refuted", "sampling", w
        r, m = z3_check(hs + [neg], self.ms if not self.hurry else 600)
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            uses = set()
            for h in hs + [neg]:
                for x in subterms(h):
                    if x.get_id() in self.defs:
                        uses.add(self.defs[x.get_id()][0])
            r2, m2 = z3_check(allh + [neg], self.ms)
            if r2 == z3.unsat:
                return "discharged", "z3", None
            m = m2 if r2 == z3.sat else m
            if "exp" in uses:
                w = falsify(hs, goal, self.positive, self.defs)
                if not w and m is not None:
                    # the solver's values for everything but exp itself
                    w = falsify(hs, goal, self.positive, self.defs, tries=40, given=rationals(m))
                return ("refuted", "sampling", w) if w else ("unknown", "z3-sat-modulo-exp", m)
            return "refuted", "z3", m
        w = falsify(hs, goal, self.positive, self.defs)
        if w:
            return "refuted", "sampling", w
        if self.hurry:
            return "unknown", "timeout", None
        if cvc5_check(hs + [neg], 2 * self.ms) == "unsat":
            return "discharged", "cvc5", None
        return "unknown", "timeout", None

    def canon(self, goal):
        """Clear denominators of known sign: helps the non-linear solvers."""
        try:
            neg = z3.is_not(goal)
            g = goal.arg(0) if neg else goal
            if not (z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == z3.RealSort()):
                return goal
            k = g.decl().kind()
            ops = {z3.Z3_OP_EQ: lambda x: x == 0, z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0,
                   z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_GT: lambda x: x > 0}
            if k not in ops:
                return goal
            n, d = self.ring.add(self.ring.of(g.arg(0)), self.ring.of(g.arg(1)), -1)
            if len(n) > 80:
                return goal
            if k != z3.Z3_OP_EQ:
                sg = self.poly_sign(d)
                if not sg:
                    return goal
                n = n * sg
            r = ops[k](self.ring._poly(n))
            return z3.Not(r) if neg else r
        except (NotRational, ZeroDivisionError, AttributeError):
            pass
        return goal


def nonlinear(h):
    k = h.get_id()
    if k not in _NL:
        _NL[k] = (_nonlinear(h), h)
    return _NL[k][0]


def _nonlinear(h):
    for x in subterms(h):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                return True
        if z3.is_quantifier(x):
            return True
    return False
