"""Symbolic values: what the real code computes with during verification.

SReal   a float64 treated as a mathematical real, plus an optional NaN flag
SInt    a mathematical integer
SBool   a truth value; ``if`` on one forks the path
SArray  a one-dimensional numpy array of symbolic (unbounded) length
Every operation the verifier has no rule for raises Unsupported.
"""
import math
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The executed code left the supported subset (never a verdict)."""


class PathEnd(BaseException):
    """This path is finished (infeasible assumption or loop cut)."""


CUR = None  # current Ctx


def ctx():
    if CUR is None:
        raise Unsupported("no verification context")
    return CUR


def set_ctx(c):
    global CUR
    CUR = c


def Or(*a):
    a = [x for x in a if x is not None and x is not False and not (z3.is_expr(x) and z3.is_false(x))]
    if any(x is True or (z3.is_expr(x) and z3.is_true(x)) for x in a):
        return z3.BoolVal(True)
    if not a:
        return None
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def bterm(x):
    """z3 Bool of a nan flag / python bool / SBool."""
    if x is None:
        return z3.BoolVal(False)
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported("not a boolean: %r" % (x,))


def rv(x):
    x = Fraction(x)
    return z3.RealVal(str(x))


def frac_of(x):
    """The rational a Python/numpy number denotes (floats: their decimal literal)."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    return Fraction(repr(float(x)))


NUM = (int, float, Fraction, np.integer, np.floating, bool, np.bool_)


def lift(o):
    """(real term, nan flag) of a number, or None."""
    if isinstance(o, SReal):
        return o.t, o.nan
    if isinstance(o, SInt):
        return z3.ToReal(o.t), None
    if isinstance(o, SBool):
        return z3.If(o.t, rv(1), rv(0)), None
    if isinstance(o, np.timedelta64):  # a numpy integer type
        raise Unsupported("timedelta64 as a number")
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    if isinstance(o, NUM):
        if isinstance(o, (float, np.floating)):
            if math.isnan(o):
                return rv(0), z3.BoolVal(True)
            if math.isinf(o):
                raise Unsupported("infinite constant")
        return rv(frac_of(o)), None
    return None


def is_const(t):
    return z3.is_rational_value(t)


def cval(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


class Sym:
    __array_priority__ = 1e6
    __hash__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, uf, method, *args, **kw):
        from . import npsym
        return npsym.ufunc(uf, method, args, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npsym
        return npsym.function(func, args, kw)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic value to a concrete array")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<%s>" % type(self).__name__

    __str__ = __repr__


def arr_or_none(o):
    return isinstance(o, SArray) or (isinstance(o, np.ndarray) and o.ndim > 0)


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def _bin(self, o, f):
        if isinstance(o, (bool, np.bool_, SBool)):
            return SBool(f(self.t, bterm(o)))
        if isinstance(o, SArray):
            return NotImplemented
        return NotImplemented

    def __and__(self, o):
        return self._bin(o, lambda a, b: z3.And(a, b))

    def __or__(self, o):
        return self._bin(o, lambda a, b: z3.Or(a, b))

    def __xor__(self, o):
        return self._bin(o, lambda a, b: z3.Xor(a, b))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def _num(self, o, f):
        """As the integer 0 or 1 (numpy.bool_ arithmetic with Python and numpy numbers)."""
        if isinstance(o, (SReal, SInt)) or isinstance(o, NUM) and not isinstance(o, (bool, np.bool_)):
            return f(SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))), o)
        if isinstance(o, (bool, np.bool_, SBool)):
            raise Unsupported("arithmetic on truth values")
        return NotImplemented

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return self._num(o, lambda a, b: a == b) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return self._num(o, lambda a, b: a != b) if r is NotImplemented else r

    def __lt__(self, o):
        return self._num(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._num(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._num(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._num(o, lambda a, b: a >= b)

    def __add__(self, o):
        return self._num(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._num(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._num(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._num(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __int__(self):
        return 1 if bool(self) else 0

    shape = ()
    ndim = 0


class SReal(Sym):
    shape = ()
    ndim = 0
    dtype = np.dtype(float)
    size = 1

    def __init__(self, t, nan=None):
        self.t = t
        if nan is False or (z3.is_expr(nan) and z3.is_false(nan)):
            nan = None
        if nan is True:
            nan = z3.BoolVal(True)
        self.nan = nan

    # arithmetic ------------------------------------------------------------
    def _bin(self, o, op, swap=False):
        if arr_or_none(o):
            return NotImplemented
        p = lift(o)
        if p is None:
            return NotImplemented
        a, b = (self.t, self.nan), p
        if swap:
            a, b = b, a
        nan = Or(a[1], b[1])
        return SReal(op(a[0], b[0]), nan)

    def __add__(self, o):
        return self._bin(o, t_add)

    def __radd__(self, o):
        return self._bin(o, t_add, True)

    def __sub__(self, o):
        return self._bin(o, t_sub)

    def __rsub__(self, o):
        return self._bin(o, t_sub, True)

    def __mul__(self, o):
        return self._bin(o, t_mul)

    def __rmul__(self, o):
        return self._bin(o, t_mul, True)

    def __truediv__(self, o):
        return self._bin(o, t_div)

    def __rtruediv__(self, o):
        return self._bin(o, t_div, True)

    def __floordiv__(self, o):
        raise Unsupported("floor division of reals")

    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __neg__(self):
        return SReal(t_neg(self.t), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.t >= 0, self.t, -self.t), self.nan)

    def __pow__(self, n, mod=None):
        if isinstance(n, (SReal, SInt)):
            if isinstance(n, SReal) and is_const(z3.simplify(n.t)):
                n = cval(z3.simplify(n.t))
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(n, np.ndarray) and n.ndim == 0:
            n = n.item()
        if not isinstance(n, NUM):
            return NotImplemented
        e = frac_of(n)
        if e.denominator == 1:
            k = int(e)
            if abs(k) > 12:
                raise Unsupported("large power")
            base = self if k >= 0 else 1 / self
            r = None
            for _ in range(abs(k)):
                r = base if r is None else r * base
            return SReal(rv(1)) if r is None else r
        if e.denominator == 2:
            s = self.sqrt()
            return s ** int(e * 2)
        raise Unsupported("fractional power %s" % e)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def sqrt(self):
        return SReal(ctx().sqrt(self.t), self.nan)

    def exp(self):
        return SReal(ctx().exp(self.t), self.nan)

    # comparisons -----------------------------------------------------------
    def _cmp(self, o, op, ne=False):
        if arr_or_none(o):
            return NotImplemented
        p = lift(o)
        if p is None:
            return NotImplemented
        nan = Or(self.nan, p[1])
        r = op(self.t, p[0])
        if nan is not None:
            r = z3.Or(nan, r) if ne else z3.And(z3.Not(nan), r)
        return SBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True)
        return r

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    __index__ = None

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        if np.dtype(t).kind == "f" and np.dtype(t).itemsize >= 8:
            return self
        raise Unsupported("astype %s" % t)

    def isnan(self):
        return SBool(bterm(self.nan))


def t_add(a, b):
    if is_const(a) and is_const(b):
        return rv(cval(a) + cval(b))
    if is_const(a) and cval(a) == 0:
        return b
    if is_const(b) and cval(b) == 0:
        return a
    return a + b


def t_sub(a, b):
    if is_const(a) and is_const(b):
        return rv(cval(a) - cval(b))
    if is_const(b) and cval(b) == 0:
        return a
    return a - b


def t_mul(a, b):
    if is_const(a) and is_const(b):
        return rv(cval(a) * cval(b))
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if cval(x) == 0:
                return rv(0)
            if cval(x) == 1:
                return y
    return a * b


def t_neg(a):
    return rv(-cval(a)) if is_const(a) else -a


def t_div(a, b):
    if is_const(b):
        if cval(b) == 0:
            ctx().undefined("division by constant zero")
        if is_const(a):
            return rv(cval(a) / cval(b))
        return t_mul(a, rv(1 / cval(b)))
    ctx().nonzero(b)
    if is_const(a) and cval(a) == 0:
        return rv(0)
    return a / b


class SInt(Sym):
    shape = ()
    ndim = 0
    dtype = np.dtype(int)

    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t

    def _o(self, o):
        if isinstance(o, SInt):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.IntVal(int(o))
        if isinstance(o, (int, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, op, swap=False):
        b = self._o(o)
        if b is None:
            if isinstance(o, SReal) or isinstance(o, (float, Fraction, np.floating)):
                x, y = SReal(z3.ToReal(self.t)), o
                return NotImplemented if False else _py(op, y, x) if swap else _py(op, x, y)
            return NotImplemented
        r = op(b, self.t) if swap else op(self.t, b)
        return SInt(z3.simplify(r))

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        if arr_or_none(o):
            return NotImplemented
        return SReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        if arr_or_none(o):
            return NotImplemented
        return o / SReal(z3.ToReal(self.t))

    def __floordiv__(self, o):
        b = self._o(o)
        if b is None or not z3.is_int_value(b) or b.as_long() <= 0:
            raise Unsupported("integer division")
        return SInt(self.t / b)

    def __mod__(self, o):
        b = self._o(o)
        if b is None or not z3.is_int_value(b) or b.as_long() <= 0:
            raise Unsupported("integer modulo")
        return SInt(self.t % b)

    def __neg__(self):
        return SInt(-self.t)

    def __abs__(self):
        return SInt(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        b = self._o(o)
        if b is None:
            if isinstance(o, SReal) or isinstance(o, (float, Fraction, np.floating)):
                return _py(op, SReal(z3.ToReal(self.t)), o)
            return NotImplemented
        return SBool(op(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __int__(self):
        return self.__index__()

    def item(self):
        return self

    def isnan(self):
        return SBool(z3.BoolVal(False))


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


def _py(op, x, y):
    return op(x, y)


def iterm(n):
    if isinstance(n, SInt):
        return n.t
    if isinstance(n, (int, np.integer)):
        return z3.IntVal(int(n))
    if z3.is_expr(n):
        return n
    raise Unsupported("not an integer: %r" % (n,))


def sint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def ite(c, a, b):
    """Symbolic choice between two element values."""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, SBool) or isinstance(b, SBool) or isinstance(a, (bool, np.bool_)):
        return SBool(z3.If(c, bterm(a), bterm(b)))
    if isinstance(a, SInt) and isinstance(b, (SInt, int)):
        return SInt(z3.If(c, a.t, iterm(b)))
    p, q = lift(a), lift(b)
    if p is None or q is None:
        raise Unsupported("ite over %r / %r" % (type(a), type(b)))
    nan = None
    if p[1] is not None or q[1] is not None:
        nan = z3.simplify(z3.If(c, bterm(p[1]), bterm(q[1])))
    t = p[0] if p[0].eq(q[0]) else z3.If(c, p[0], q[0])
    return SReal(t, nan)


class Count(Sym):
    """How many elements of a boolean array are true; only none/some and all/not all can be told."""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a):
        self.a = a

    def _cmp(self, o, at0, at1):
        """at0 / at1: truth of the comparison by (count == 0), for o = 0 and o = 1."""
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
            if o == 0 and at0 is not None:
                return self.a.any() if at0 else ~self.a.any()
            if o == 1 and at1 is not None:
                return self.a.any() if at1 else ~self.a.any()
        raise Unsupported("comparison of a count")

    def __gt__(self, o):
        return self._cmp(o, True, None)

    def __ne__(self, o):
        if isinstance(o, (int, SInt)) and iterm(o).eq(iterm(self.a.n)):
            return ~self.a.all()
        return self._cmp(o, True, None)

    def __eq__(self, o):
        if isinstance(o, (int, SInt)) and iterm(o).eq(iterm(self.a.n)):
            return self.a.all()
        return self._cmp(o, False, None)

    def __le__(self, o):
        return self._cmp(o, False, None)

    def __ge__(self, o):
        return self._cmp(o, None, True)

    def __lt__(self, o):
        if isinstance(o, (int, SInt)) and iterm(o).eq(iterm(self.a.n)):
            return ~self.a.all()
        return self._cmp(o, None, False)

    def __bool__(self):
        return bool(self.a.any())


class Total(Sym):
    """Sum of a float array; only whether it is NaN can be told."""

    def __array_ufunc__(self, uf, method, *a, **k):
        if method == "__call__" and not k and uf.__name__ in ("isnan", "isfinite"):
            r = self.isnan()
            return r if uf.__name__ == "isnan" else ~r
        raise Unsupported("sum of an array")

    def __init__(self, a):
        self.a = a

    def isnan(self):
        return self.a.isnan().any()

    def __ne__(self, o):
        if o is self:
            return self.isnan()
        raise Unsupported("sum of an array")

    def _no(self, *a):
        raise Unsupported("sum of an array")

    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __hash__ = None


class SArray(Sym):
    """Mutable 1-d array; ``fn`` maps an Int term to an element value."""

    def __init__(self, n, fn, dtype=float, base=None):
        self.n = n  # int or SInt
        self.fn = fn
        self.dtype = np.dtype(dtype)
        self.writeable = base is None
        self.version = 0

    @classmethod
    def fresh(cls, name, n, nan=False, dtype=float):
        c = ctx()
        if np.dtype(dtype).kind == "f":
            f = c.func(name, z3.IntSort(), z3.RealSort())
            g = c.func(name + "!nan", z3.IntSort(), z3.BoolSort()) if nan else None
            return cls(n, lambda i: SReal(f(i), g(i) if g is not None else None))
        if np.dtype(dtype).kind == "i":
            f = c.func(name, z3.IntSort(), z3.IntSort())
            return cls(n, lambda i: SInt(f(i)), int)
        raise Unsupported("fresh array dtype")

    @classmethod
    def of(cls, values):
        vals = list(values)

        def fn(i):
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = ite(i == k, vals[k], r)
            return r

        kinds = {("b" if isinstance(v, (SBool, bool, np.bool_)) else "f") for v in vals}
        return cls(len(vals), fn if vals else (lambda i: SReal(rv(0))), bool if kinds == {"b"} else float)

    def at(self, i):
        return self.fn(iterm(i))

    def snapshot(self):
        a = SArray(self.n, self.fn, self.dtype)
        return a

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1

    @property
    def T(self):
        return self

    def _index(self, i):
        """numpy index semantics: bounds, negative wrap."""
        if isinstance(i, float) or isinstance(i, (SReal, np.floating)):
            raise IndexError("only integers, slices ... are valid indices")
        if isinstance(i, (bool, np.bool_, SBool)):
            raise Unsupported("boolean scalar index")
        it, n = iterm(i), iterm(self.n)
        if not ctx().branch(z3.And(it >= -n, it < n)):
            raise IndexError("index out of bounds")
        if not ctx().branch(it >= 0):
            it = it + n
        return z3.simplify(it)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            return self._slice(i)
        if i is Ellipsis:
            return self
        if isinstance(i, SArray):
            raise Unsupported("fancy indexing")
        if type(i) is list and i and all(type(k) is int for k in i):
            return SArray.of([self.fn(self._index(k)) for k in i])
        return self.fn(self._index(i))

    def _bounds(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice step")
        n = iterm(self.n)

        def clip(v, default):
            if v is None:
                return default
            v = iterm(v)
            if ctx().branch(v < 0):
                v = v + n
                if ctx().branch(v < 0):
                    v = z3.IntVal(0)
            if ctx().branch(v > n):
                v = n
            return v

        a, b = clip(s.start, z3.IntVal(0)), clip(s.stop, n)
        if ctx().branch(b < a):
            b = a
        return z3.simplify(a), z3.simplify(b)

    def _slice(self, s):
        a, b = self._bounds(s)
        me = self
        r = SArray(sint(b - a), lambda i: me.fn(z3.simplify(i + a)), self.dtype, base=self)
        return r

    def __setitem__(self, i, v):
        if not self.writeable:
            raise Unsupported("write through an array view")
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        old = self.fn
        self.version += 1
        if i is Ellipsis:
            i = slice(None)
        if isinstance(i, slice):
            a, b = self._bounds(i)
            if isinstance(v, SArray):
                if not ctx().branch(iterm(v.n) == b - a):
                    if ctx().branch(iterm(v.n) == 1):
                        raise Unsupported("broadcasting of a length-one array")
                    raise ValueError("could not broadcast")
                src = v.fn
            elif lift(v) is not None:
                src = lambda j: conv(v, self.dtype)
            else:
                raise Unsupported("slice assignment of %r" % type(v))
            self.fn = lambda j: ite(z3.And(j >= a, j < b), src(z3.simplify(j - a)), old(j))
            return
        if isinstance(i, SArray):
            raise Unsupported("fancy assignment")
        k = self._index(i)
        v = conv(v, self.dtype)
        self.fn = lambda j: ite(j == k, v, old(j))

    # elementwise -----------------------------------------------------------
    def _bin(self, o, f, swap=False, dtype=float):
        if isinstance(o, np.ndarray) and o.ndim == 1:
            o = SArray.of(list(o))
        g = self.fn
        if isinstance(o, SArray):
            broadcast(self.n, o.n)
            h = o.fn
            fn = (lambda i: f(h(i), g(i))) if swap else (lambda i: f(g(i), h(i)))
        elif lift(o) is not None:
            fn = (lambda i: f(o, g(i))) if swap else (lambda i: f(g(i), o))
        else:
            return NotImplemented
        return SArray(self.n, fn, dtype)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: a / b, True)

    def __pow__(self, k):
        g = self.fn
        return SArray(self.n, lambda i: g(i) ** k)

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if not self.writeable or self.dtype.kind != "f" or r.dtype.kind != "f":
            raise Unsupported("in-place arithmetic on a view or a non-float array")
        self.fn = r.fn
        self.version += 1
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __neg__(self):
        g = self.fn
        return SArray(self.n, lambda i: -g(i))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, dtype=bool)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, dtype=bool)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, dtype=bool)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, dtype=bool)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b, dtype=bool)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b, dtype=bool)

    def __and__(self, o):
        return self._bin(o, lambda a, b: SBool(z3.And(bterm(a), bterm(b))), dtype=bool)

    def __or__(self, o):
        return self._bin(o, lambda a, b: SBool(z3.Or(bterm(a), bterm(b))), dtype=bool)

    def __invert__(self):
        g = self.fn
        return SArray(self.n, lambda i: SBool(z3.Not(bterm(g(i)))), bool)

    def map(self, f, dtype=float):
        g = self.fn
        return SArray(self.n, lambda i: f(g(i)), dtype)

    def isnan(self):
        return self.map(lambda x: SBool(bterm(lift(x)[1])), bool)

    def exp(self):
        return self.map(lambda x: x.exp())

    def _quant(self, exists):
        t = truth
        if isinstance(self.n, int) and self.n <= 4:
            vals = [t(self.fn(z3.IntVal(k))) for k in range(self.n)]
            if exists:
                return SBool(z3.Or(vals) if vals else z3.BoolVal(False))
            return SBool(z3.And(vals) if vals else z3.BoolVal(True))
        i = ctx().qvar()
        rng = z3.And(i >= 0, i < iterm(self.n))
        paths = ctx().forall_paths(i, rng, lambda: t(self.fn(i)))
        body = z3.simplify(paths[0][1] if len(paths) == 1 and not paths[0][0]
                           else z3.Or([z3.And(cs + [v]) for cs, v in paths]))
        if exists:
            if z3.is_false(body):
                return SBool(body)
            if z3.is_true(body):
                return SBool(iterm(self.n) > 0)
            return SBool(z3.Exists([i], z3.And(rng, body)))
        if z3.is_true(body):
            return SBool(body)
        if z3.is_false(body):
            return SBool(iterm(self.n) <= 0)
        return SBool(z3.ForAll([i], z3.Implies(rng, body)))

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported("sum() arguments")
        if self.dtype.kind == "b":
            return Count(self)
        return Total(self)

    def any(self, *a, **k):
        if a or k:
            raise Unsupported("any() arguments")
        return self._quant(True)

    def all(self, *a, **k):
        if a or k:
            raise Unsupported("all() arguments")
        return self._quant(False)

    def copy(self, *a):
        return self.snapshot()

    def __copy__(self):
        return self.snapshot()

    def __deepcopy__(self, memo):
        return self.snapshot()

    def astype(self, t, **k):
        if np.dtype(t).kind == "f" and np.dtype(t).itemsize >= 8 and self.dtype.kind in "fi":
            g = self.fn
            return SArray(self.n, lambda i: conv(g(i), np.dtype(float)))
        raise Unsupported("astype")

    def fill(self, v):
        self[:] = v

    def flatten(self):
        return self.snapshot()

    def squeeze(self):
        return self

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of a symbolic array outside the verified modules")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.fn(z3.IntVal(k)) for k in range(self.n)])
        raise Unsupported("iteration over a symbolic array outside a verified loop")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __contains__(self, x):
        raise Unsupported("in on symbolic array")


def truth(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return bterm(x)
    p = lift(x)
    if p is None:
        raise Unsupported("truth value")
    return z3.Or(bterm(p[1]), p[0] != 0)


def conv(v, dtype):
    if dtype.kind == "f":
        p = lift(v)
        if p is None:
            raise Unsupported("store of %r" % type(v))
        return SReal(*p)
    if dtype.kind == "b":
        return SBool(bterm(v))
    if dtype.kind == "i":
        if isinstance(v, SInt):
            return v
        if isinstance(v, (int, np.integer)):
            return SInt(int(v))
    raise Unsupported("store into %s array" % dtype)


def broadcast(a, b):
    """Lengths of two operands: equal, or numpy's error."""
    if same_len(a, b):
        return
    if ctx().branch(z3.Or(iterm(a) == 1, iterm(b) == 1)):
        raise Unsupported("broadcasting of a length-one array")
    raise ValueError("operands could not be broadcast together")


def same_len(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().branch(iterm(a) == iterm(b))
