"""Rational-function normal forms for real z3 terms (the 'ring' back end).

A z3 real term built from + - * / and integer powers over atoms is turned into
a reduced fraction of multivariate polynomials over Q (sympy FracField).
``sqrt`` atoms are reduced with s*s = radicand.  Two terms with the same normal
form are equal wherever every denominator met is non-zero; those non-zeroness
conditions are separate obligations raised when the division is executed.
"""
import z3
from fractions import Fraction
from sympy import QQ
from sympy.polys.rings import ring as _mkring
from sympy.polys.orderings import lex


class NotRational(Exception):
    pass


MAXTERMS = 200000


class Ring:
    """A growable pool of generators; elements are (num, den) pairs."""

    def __init__(self, n=48):
        self.R, *self.gens = _mkring(["g%d" % i for i in range(n)], QQ, lex)
        self.free = list(range(n))
        self.atom = {}  # ast id -> gen index
        self.keep = []
        self.sq = {}  # gen index -> (num, den) of its square
        self.cache = {}
        self.gen_term = {}

    def gen(self, t):
        k = t.get_id()
        if k not in self.atom:
            if not self.free:
                raise NotRational("too many atoms")
            self.atom[k] = self.free.pop(0)
            self.gen_term[self.atom[k]] = t
            self.keep.append(t)
        return self.gens[self.atom[k]]

    def set_square(self, t, radicand):
        """t*t == radicand (a normal form)."""
        self.gen(t)
        self.sq[self.atom[t.get_id()]] = radicand

    # -- fractions ----------------------------------------------------------
    def norm(self, n, d):
        if d == 0:
            raise NotRational("zero denominator")
        if n == 0:
            return (self.R.zero, self.R.one)
        n, d = self.reduce(n, d)
        if n == 0:
            return (self.R.zero, self.R.one)
        if d.is_ground:
            c = d.LC
            return (n.mul_ground(1 / c) if c != 1 else n, self.R.one)
        if len(n) * len(d) > MAXTERMS:
            raise NotRational("too large")
        n, d = n.cancel(d)
        c = d.LC
        if c != 1:
            n, d = n.mul_ground(1 / c), d.mul_ground(1 / c)
        return (n, d)

    def _split(self, p, g):
        """p as (even part, odd part/s) with s^2 replaced later: coefficients by power of gen g."""
        out = {}
        for mon, c in p.terms():
            e = mon[g]
            m = list(mon)
            m[g] = 0
            out.setdefault(e, self.R.zero)
            out[e] = out[e] + self.R({tuple(m): c})
        return out

    def reduce(self, n, d):
        for g, (sn, sd) in self.sq.items():
            for _ in range(2):
                pn, pd = self._split(n, g), self._split(d, g)
                top = max(max(pn), max(pd))
                if top <= 1:
                    break
                half = top // 2
                s = self.gens[g]

                def low(parts):
                    acc = self.R.zero
                    for e, p in parts.items():
                        h = e // 2
                        acc = acc + p * (s if e % 2 else 1) * sn ** h * sd ** (half - h)
                    return acc

                n, d = low(pn), low(pd)
            # rationalise the denominator
            pd = self._split(d, g)
            if 1 in pd:
                a, b = pd.get(0, self.R.zero), pd[1]
                conj = a - b * self.gens[g]
                # (a+bs)(a-bs) = a^2 - b^2 s^2
                n = n * conj
                d = a * a * sd - b * b * sn
                n = n * sd
                pn = self._split(n, g)
                acc = self.R.zero
                top = max(pn) // 2
                for e, p in pn.items():
                    h = e // 2
                    acc = acc + p * (self.gens[g] if e % 2 else 1) * sn ** h * sd ** (top - h)
                n, d = acc, d * sd ** top
                if d == 0:
                    raise NotRational("zero conjugate")
        return n, d

    def add(self, a, b, sign=1):
        if a[1] == b[1]:
            return self.norm(a[0] + sign * b[0], a[1])
        return self.norm(a[0] * b[1] + sign * b[0] * a[1], a[1] * b[1])

    def mul(self, a, b):
        return self.norm(a[0] * b[0], a[1] * b[1])

    def inv(self, a):
        if a[0] == 0:
            raise NotRational("inverse of zero")
        return self.norm(a[1], a[0])

    def of(self, t):
        """Normal form of a z3 real term."""
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][0]
        r = self._of(t)
        self.cache[k] = (r, t)
        return r

    def const(self, fr):
        return (self.R.ground_new(QQ(fr.numerator, fr.denominator)), self.R.one)

    def _of(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(Fraction(t.as_long()))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.of(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            a = self.of(ch[0])
            return (-a[0], a[1])
        if k == z3.Z3_OP_MUL:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.of(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.of(ch[0]), self.inv(self.of(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if e.denominator == 1 and abs(e) <= 12:
                a = self.of(ch[0])
                if e < 0:
                    a, e = self.inv(a), -e
                r = self.const(Fraction(1))
                for _ in range(int(e)):
                    r = self.mul(r, a)
                return r
            raise NotRational("power")
        if k == z3.Z3_OP_TO_REAL:
            inner = ch[0]
            ik = inner.decl().kind()
            if z3.is_int_value(inner):
                return self.const(Fraction(inner.as_long()))
            if ik in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                args = [z3.ToReal(c) for c in inner.children()]
                if ik == z3.Z3_OP_ADD:
                    return self.of(z3.Sum(args))
                if ik == z3.Z3_OP_MUL:
                    return self.of(z3.Product(args))
                if ik == z3.Z3_OP_UMINUS:
                    return self.of(-args[0])
                r = args[0]
                for a in args[1:]:
                    r = r - a
                return self.of(r)
            return (self.gen(t), self.R.one)
        if k == z3.Z3_OP_ITE:
            raise NotRational("ite")
        if k == z3.Z3_OP_UNINTERPRETED:
            return (self.gen(t), self.R.one)
        raise NotRational(str(t.decl()))

    def equal(self, a, b):
        try:
            x, y = self.of(a), self.of(b)
            if x == y:
                return True
            return self.add(x, y, -1)[0] == 0
        except (NotRational, ZeroDivisionError):
            return False

    # -- back to z3 -----------------------------------------------------------
    def term(self, nf):
        n, d = nf
        tn = self._poly(n)
        if d == 1:
            return tn
        return tn / self._poly(d)

    def _poly(self, p):
        terms = []
        for mon, c in p.terms():
            fs = []
            cc = z3.RealVal("%d/%d" % (int(c.numerator), int(c.denominator)))
            for g, e in enumerate(mon):
                for _ in range(e):
                    fs.append(self.gen_term[g])
            if not fs:
                terms.append(cc)
            elif c == 1:
                terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
            else:
                terms.append(z3.Product([cc] + fs))
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def poly_sqrt(self, p):
        """r with r*r == p, or None (leading-term division)."""
        import math
        if p == 0:
            return self.R.zero

        def lt(q):
            m = q.leading_expv()
            return m, q[m]

        m, c = lt(p)
        c = Fraction(int(c.numerator), int(c.denominator))
        if c < 0 or any(e % 2 for e in m):
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        m0, c0 = tuple(e // 2 for e in m), QQ(a, b)
        r = self.R({m0: c0})
        rem = p - r * r
        for _ in range(500):
            if rem == 0:
                return r
            m, c = lt(rem)
            q = tuple(x - y for x, y in zip(m, m0))
            if any(e < 0 for e in q):
                return None
            t = self.R({q: c / (2 * c0)})
            rem = rem - 2 * r * t - t * t
            r = r + t
        return None

    def frac_sqrt(self, nf):
        n, d = nf
        rn, rd = self.poly_sqrt(n), self.poly_sqrt(d)
        if rn is None or rd is None:
            return None
        return (rn, rd)
