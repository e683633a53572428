"""Assumed contracts on scmdata, pandas and tqdm, as symbolic stand-ins.

A scenario input is a table of N timeseries (N arbitrary) over T time points
(T >= 1 arbitrary); row k has one opaque value per metadata column and values
at an arbitrary non-empty set of the time points.  The stand-ins implement the
part of the scmdata/pandas interface that driving a model needs; everything
else raises Unsupported, which is never a verdict.
"""
import builtins
import contextlib
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from vc import loader, sym
from vc.engine import eqv
from vc.loader import SymSeq
from vc.sym import SArray, SBool, SInt, SReal, Sym, Unsupported, bterm, iterm

from . import common as K

NS_DAY = 86400 * 10 ** 9
COLUMNS = ("model", "region", "scenario", "unit", "variable", "vc_other")  # vc_other: any further column
EXTRA = ("climate_model", "run_idx")  # columns run_scenarios sets itself; the input may carry them
UNSET = object()


class Opaque:
    """Stand-ins refuse whatever they have no rule for."""

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__") or k in ("_ipython_display_", "_repr_html_"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (type(self).__name__, k))

    def __iter__(self):
        raise Unsupported("iteration over %s" % type(self).__name__)

    def __bool__(self):
        raise Unsupported("truth of %s" % type(self).__name__)

    def __getitem__(self, k):
        raise Unsupported("%s[...]" % type(self).__name__)

    def __setitem__(self, k, v):
        raise Unsupported("%s[...] =" % type(self).__name__)

    def _no(self, *a):
        raise Unsupported("operation on %s" % type(self).__name__)

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __and__ = __or__ = __invert__ = __contains__ = _no
    __hash__ = object.__hash__

    def __array__(self, *a, **k):
        raise Unsupported("%s as an array" % type(self).__name__)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("numpy function of %s" % type(self).__name__)

    __array_function__ = __array_ufunc__

    def __format__(self, spec):
        return "<%s>" % type(self).__name__

    def __repr__(self):
        return "<%s>" % type(self).__name__

    __str__ = __repr__


class SymStr(Opaque):
    """One metadata value (an arbitrary string)."""

    def __init__(self, tag):
        self.tag = tag
        self._unit = None

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of an arbitrary metadata value")

    __hash__ = object.__hash__


def unit_of(s, c):
    """The unit an arbitrary unit string denotes: some multiple of W/m^2."""
    if s._unit is None:
        s.scale = c.real("scale_%s" % s.tag, pos=True)
        s._unit = loader.symunit("vcu_" + s.tag.replace(" ", "_"), K.ERF, s.scale.t)
    return s._unit


class UrProxy:
    def __init__(self, ur):
        object.__setattr__(self, "_ur", ur)

    def __getattr__(self, k):
        v = getattr(self._ur, k)
        if k == "Quantity":
            def Q(value, units=None):
                if type(units) is SymStr:
                    units = unit_of(units, sym.ctx())
                return self._ur.Quantity(value, units) if units is not None else self._ur.Quantity(value)
            return Q
        if k in ("Unit", "parse_units", "parse_expression"):
            return lambda x, *a, **kw: v(unit_of(x, sym.ctx()) if type(x) is SymStr else x, *a, **kw)
        return v

    def __setattr__(self, k, v):
        raise Unsupported("unit registry attribute set")

    def __call__(self, x, *a, **k):
        return self._ur(unit_of(x, sym.ctx()) if type(x) is SymStr else x, *a, **k)


# -- time axis ----------------------------------------------------------------------

def time_term(kind, o):
    """Int term of a comparison partner of the right type."""
    if kind == "diff":
        if isinstance(o, np.timedelta64):
            return z3.IntVal(int(o.astype("timedelta64[ns]").astype(int)))
        if isinstance(o, pd.Timedelta):
            return z3.IntVal(o.value)
        import datetime
        if isinstance(o, datetime.timedelta):
            return z3.IntVal(pd.Timedelta(o).value)
    if kind == "num" and isinstance(o, (int, float, np.integer, np.floating)) and not isinstance(o, bool) and math.isfinite(o):
        return z3.IntVal(int(o)) if o == int(o) else z3.RealVal(str(Fraction(float(o))))
    if kind == "num" and type(o) in (SInt, SReal):
        if type(o) is SReal and not z3.is_false(z3.simplify(bterm(o.nan))):
            raise Unsupported("number which may be missing compared with a time series")
        return o.t
    if type(o) is TimeVal and o.kind == kind:
        return o.t
    raise Unsupported("time value compared with %s" % type(o).__name__)


class TimeVal(Opaque):
    """One time point or time difference."""
    __array_ufunc__ = None

    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def _cmp(op):
        return lambda self, o: SBool(op(self.t, time_term(self.kind, o)))

    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    __eq__, __ne__ = _cmp(lambda a, b: a == b), _cmp(lambda a, b: a != b)
    __hash__ = None

    def __sub__(self, o):
        if type(o) is TimeVal and o.kind == self.kind:
            return TimeVal(self.t - o.t, "diff")
        raise Unsupported("time arithmetic")


class Extreme(Opaque):
    """max() or min() of a time series (missing entries ignored; NaT if there is none)."""
    __array_ufunc__ = None

    def __init__(self, s, high):
        self.s, self.high = s, high

    def _q(self, op, o, ex):
        if self.s.kind == "diff":
            self.s._typed(TypeError, "comparison of a number and a time difference")
        s = self.s.dropna()
        t, f = time_term(s.kind, o), s.fn
        q = SArray(s.n, lambda i: SBool(op(f(i).t, t)), bool)._quant(ex)
        return z3.And(iterm(s.n) >= 1, bterm(q))

    def __lt__(self, o):
        return SBool(self._q(lambda a, b: a < b, o, not self.high))

    def __le__(self, o):
        return SBool(self._q(lambda a, b: a <= b, o, not self.high))

    def __gt__(self, o):
        return SBool(self._q(lambda a, b: a > b, o, self.high))

    def __ge__(self, o):
        return SBool(self._q(lambda a, b: a >= b, o, self.high))

    def __eq__(self, o):
        if self.s.kind == "diff":
            self.s._typed(Unsupported, "extreme of no time differences compared")
        return SBool(z3.And((self <= o).t, (self >= o).t))

    def __ne__(self, o):
        return SBool(z3.Not((self == o).t))

    __hash__ = None


class _Dt(Opaque):
    def __init__(self, s):
        self.s = s

    @property
    def days(self):
        s = self.s
        return TimeSeries(s.n, lambda i: SInt(s.fn(i).t / z3.IntVal(NS_DAY)), "num", s.head)

    def total_seconds(self):
        s = self.s
        return TimeSeries(s.n, lambda i: SReal(z3.ToReal(s.fn(i).t) / z3.RealVal(10 ** 9)), "num", s.head)


class TimeSeries(SArray):
    """pandas Series of time points / years / their differences.

    kind: 'time' (datetime, Int ns), 'diff' (timedelta, Int ns), 'num' (Int), 'bool'.
    head: leading entries that are NaT/NaN (after diff)."""

    obj = None

    def __init__(self, n, fn, kind, head=0, obj=None):
        SArray.__init__(self, n, fn, bool if kind == "bool" else int)
        self.kind, self.head = kind, head
        # condition under which pandas keeps the differences with object dtype (one time point only)
        self.obj = obj

    def _typed(self, exc, msg):
        """pandas raises on series of object dtype."""
        if self.obj is not None and sym.ctx().branch(self.obj):
            raise exc(msg)

    @property
    def __class__(self):
        return TimeSeries

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("time series .%s" % k)

    def diff(self, periods=1):
        if periods != 1 or self.head or self.kind == "bool":
            raise Unsupported("diff")
        f = self.fn
        return TimeSeries(self.n, lambda i: SInt(f(i).t - f(z3.simplify(i - 1)).t), "diff" if self.kind in ("time", "diff") else "num", 1,
                          iterm(self.n) == 1 if self.kind == "time" else self.obj)

    def dropna(self):
        if not self.head:
            return self
        if not sym.ctx().branch(iterm(self.n) >= 1):
            return self
        f = self.fn
        return TimeSeries(SInt(z3.simplify(iterm(self.n) - 1)), lambda i: f(z3.simplify(i + 1)), self.kind, 0, self.obj)

    @property
    def empty(self):
        return SBool(iterm(self.n) == 0)

    @property
    def iloc(self):
        return _TSIloc(self)

    def _slice(self, s):
        a, b = self._bounds(s)
        f = self.fn
        if self.head:
            if not sym.ctx().branch(a >= 1):
                raise Unsupported("slice with missing differences")
        return TimeSeries(sym.sint(b - a), lambda i: f(z3.simplify(i + a)), self.kind, 0, self.obj)

    @property
    def values(self):
        return self

    def to_numpy(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        raise Unsupported("label access to a time series")

    def max(self):
        return Extreme(self, True)

    def min(self):
        return Extreme(self, False)

    @property
    def dt(self):
        if self.kind != "diff":  # scmdata's time points are of object dtype
            raise AttributeError("Can only use .dt accessor with datetimelike values")
        self._typed(AttributeError, "Can only use .dt accessor with datetimelike values")
        return _Dt(self)

    def __symseq__(self):
        if self.head or self.kind == "bool":
            raise Unsupported("iteration over this time series")
        f, kind = self.fn, self.kind
        return SymSeq(self.n, lambda k: TimeVal(f(k).t, kind))

    def _partner(self, o):
        """(head, term at i) of the other side of an element-wise operation."""
        if type(o) is TimeSeries:
            if o.kind != self.kind or not iterm(self.n).eq(iterm(o.n)):
                raise Unsupported("combination of time series")
            return o.head, lambda i: o.fn(i).t
        t = time_term(self.kind, o)
        return 0, lambda i: t

    def _arith(self, o, op, kind=None, rev=False):
        if self.kind in ("bool", "time"):
            raise Unsupported("arithmetic on a %s series" % self.kind)
        h, g = self._partner(o)
        f = self.fn

        def fn(i):
            x, y = (g(i), f(i).t) if rev else (f(i).t, g(i))
            t = op(x, y)
            return SReal(t) if t.is_real() else SInt(t)
        return TimeSeries(self.n, fn, kind or self.kind, max(self.head, h), self.obj)

    def __add__(self, o):
        if self.kind == "time":
            raise Unsupported("sum of time points")
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, "diff" if self.kind == "time" else None)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, "diff" if self.kind == "time" else None, True)

    def __mul__(self, o):
        if self.kind != "num" or type(o) is TimeSeries:
            raise Unsupported("product of time series")
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _constant(self, o):
        t = time_term(self.kind, o)
        if not (z3.is_int_value(t) and t.as_long() > 0 or z3.is_rational_value(t) and t.as_fraction() > 0):
            raise Unsupported("division of a time series by something not a positive constant")
        return t

    def __mod__(self, o):
        t = self._constant(o)
        if not z3.is_int_value(t):
            raise Unsupported("% of a time series")
        return self._arith(o, lambda a, b: a % b)

    def __floordiv__(self, o):
        t = self._constant(o)
        if not z3.is_int_value(t):
            raise Unsupported("// of a time series")
        self._typed(TypeError, "unsupported operand type(s) for //")
        return self._arith(o, lambda a, b: a / b, "num")

    def __truediv__(self, o):
        self._constant(o)
        if self.kind == "time":
            raise Unsupported("division of time points")
        return self._arith(o, lambda a, b: (z3.ToReal(a) if a.is_int() else a) / (z3.ToReal(b) if b.is_int() else b), "num")

    def __neg__(self):
        if self.kind in ("time", "bool"):
            raise Unsupported("-")
        f = self.fn
        return TimeSeries(self.n, lambda i: type(f(i))(-f(i).t), self.kind, self.head, self.obj)

    def __abs__(self):
        if self.kind in ("time", "bool"):
            raise Unsupported("abs")
        f = self.fn
        return TimeSeries(self.n, lambda i: type(f(i))(z3.If(f(i).t < 0, -f(i).t, f(i).t)), self.kind, self.head, self.obj)

    abs = __abs__

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def le(self, o):
        return self <= o

    def ge(self, o):
        return self >= o

    def lt(self, o):
        return self < o

    def gt(self, o):
        return self > o

    def _compare(self, o, op, ne=False):
        h2, t = self._partner(o)
        f, h = self.fn, max(self.head, h2)

        def fn(i):
            r = op(f(i).t, t(i))
            if h:
                r = z3.If(i < h, z3.BoolVal(ne), r)
            return SBool(r)
        return TimeSeries(self.n, fn, "bool")

    def __lt__(self, o):
        return self._compare(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._compare(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._compare(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._compare(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._compare(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._compare(o, lambda a, b: a != b, True)

    __hash__ = None

    def _b2(self, o, f):
        if not (isinstance(o, TimeSeries) and self.kind == o.kind == "bool" and iterm(self.n).eq(iterm(o.n))):
            raise Unsupported("combination of time series")
        g, h = self.fn, o.fn
        return TimeSeries(self.n, lambda i: SBool(f(bterm(g(i)), bterm(h(i)))), "bool")

    def __and__(self, o):
        return self._b2(o, z3.And)

    def __or__(self, o):
        return self._b2(o, z3.Or)

    def __invert__(self):
        g = self.fn
        if self.kind != "bool":
            raise Unsupported("~")
        return TimeSeries(self.n, lambda i: SBool(z3.Not(bterm(g(i)))), "bool")

    def between(self, lo, hi, inclusive="both"):
        if inclusive != "both":
            raise Unsupported("between")
        return (self >= lo) & (self <= hi)

    def _quant(self, ex):
        if self.kind != "bool":
            raise Unsupported("all/any of a non-boolean time series")
        return SArray(self.n, self.fn, bool)._quant(ex)

    def __len__(self):
        raise Unsupported("len() of a time series outside the verified modules")

    def _no(self, *a):
        raise Unsupported("time series arithmetic")

    __rtruediv__ = __pow__ = __rmod__ = __rfloordiv__ = __divmod__ = _no

    def __array_ufunc__(self, uf, method, *a, **k):
        if method == "__call__" and not k:
            n = uf.__name__
            rev = {"less": "__lt__", "less_equal": "__le__", "greater": "__gt__", "greater_equal": "__ge__", "equal": "__eq__", "not_equal": "__ne__"}
            flip = {"less": "__gt__", "less_equal": "__ge__", "greater": "__lt__", "greater_equal": "__le__", "equal": "__eq__", "not_equal": "__ne__"}
            if n in rev:
                return getattr(a[0], rev[n])(a[1]) if isinstance(a[0], TimeSeries) else getattr(a[1], flip[n])(a[0])
            if n in ("logical_and", "bitwise_and"):
                return a[0]._b2(a[1], z3.And)
            if n in ("logical_or", "bitwise_or"):
                return a[0]._b2(a[1], z3.Or)
            if n in ("logical_not", "invert"):
                return ~a[0]
            if n == "absolute":
                return abs(a[0])
            ops = {"subtract": "sub", "add": "add", "remainder": "mod", "floor_divide": "floordiv", "divide": "truediv", "multiply": "mul"}
            if n in ops and isinstance(a[0], TimeSeries):
                return getattr(a[0], "__%s__" % ops[n])(a[1])
        raise Unsupported("numpy.%s of a time series" % uf.__name__)

    def __array_function__(self, func, types, args, kw):
        n = func.__name__
        if n in ("all", "any") and len(args) == 1 and not kw:
            return args[0]._quant(n == "any")
        if n == "diff" and len(args) == 1 and not kw:
            return args[0].diff().dropna()
        raise Unsupported("numpy.%s of a time series" % n)


class _TSIloc(Opaque):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.s._slice(k)
        if isinstance(k, (int, SInt)):
            s = self.s
            i = s._index(k)
            if s.head and not sym.ctx().branch(i >= s.head) or s.kind == "bool":
                raise Unsupported("time series .iloc[...]")
            return s.fn(i) if s.kind == "num" else TimeVal(s.fn(i).t, s.kind)
        if isinstance(k, (list, tuple)) and k and all(type(i) is int for i in k) and not self.s.head:
            s = self.s
            at = [s._index(i) for i in k]

            def fn(i):
                r = s.fn(at[-1])
                for p, q in list(enumerate(at))[-2::-1]:
                    r = sym.ite(i == p, s.fn(q), r)
                return r
            return TimeSeries(len(at), fn, s.kind)
        raise Unsupported("time series .iloc[...]")


# -- tables -----------------------------------------------------------------------------

class Times:
    """The time points of one timeseries: entry j lies at position at(j) of the time axis."""

    def __init__(self, row, n, at=None):
        self.row, self.n, self.at = row, n, at


class Row:
    """One timeseries: metadata (ordered by names), its time points and values."""

    def __init__(self, meta, times, values):
        self.meta, self.times, self.values = meta, times, values

    def but(self, **over):
        m = dict(self.meta)
        m.update(over)
        return Row(m, self.times, self.values)


class Source:
    """The caller's scenarios."""

    def __init__(self, c, T=None, extra=()):
        self.c = c
        self.columns = COLUMNS + tuple(extra)
        self.absent = set()  # names already found not to be columns
        self.tables = 0
        self.T = T or c.int("T", 1)
        self.time = c.func("time", z3.IntSort(), z3.IntSort())
        self.year = c.func("year", z3.IntSort(), z3.IntSort())
        self.counts = {}
        self.rows = {}
        self.log = []  # modifications of the caller's object

    def has(self, name):
        """Does the caller's table have a column of this name?  It may, for every name."""
        if name in self.columns:
            return True
        if type(name) is not str:
            raise Unsupported("metadata column %r" % (name,))
        if name in self.absent:
            return False
        if self.rows or self.tables:
            raise Unsupported("asking for column %r after rows were read" % name)
        if self.c.choose("input has a column %r" % name):
            self.columns += (name,)
            return True
        self.absent.add(name)
        return False

    def count(self, conds):
        if conds not in self.counts:
            self.counts[conds] = self.c.int("N" if not self.counts else "N_%d" % len(self.counts), 0)
        return self.counts[conds]

    def row(self, conds, k):
        """Selected row k (an Int term): any non-empty set of time points may have a value.

        Value j of the row is the one at position at(j); raw values are
        missing where present(t) is false."""
        k = z3.simplify(k)
        key = (conds, k.sexpr())
        if key not in self.rows:
            c = self.c
            tag = "row%d" % len(self.rows)
            n = c.int("n_" + tag, 1)
            c.require(n <= self.T)
            V = c.func("V_" + tag, z3.IntSort(), z3.RealSort())
            at = c.func("at_" + tag, z3.IntSort(), z3.IntSort())
            present = c.func("present_" + tag, z3.IntSort(), z3.BoolSort())
            T = iterm(self.T)

            def value(j):
                sym.ctx().require(z3.Implies(z3.And(j >= 0, j < n.t), z3.And(at(j) >= 0, at(j) < T, present(at(j)))))
                sym.ctx().require(z3.Implies(n.t == T, at(j) == j))
                return SReal(V(at(j)))

            def raw():
                t = z3.Int("t!" + tag)
                sym.ctx().require((n.t == T) == z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < T), present(t))))
                return SArray(self.T, lambda t: SReal(V(t), z3.Not(present(t))))
            meta = {col: SymStr("%s of %s" % (col, tag)) for col in self.columns}
            self.rows[key] = dict(n=n, V=V, meta=meta, key=key, times=Times(key, n, at), all=Times(key, self.T, lambda t: t),
                                  values=lambda: SArray(n, value), raw=raw, present=present)
        return self.rows[key]


def norm_cond(k, v, keep):
    if isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    if isinstance(v, (list, tuple)):
        v = tuple(v)
    return (k, v, bool(keep))


class Run(Opaque):
    """ScmRun over the caller's rows (selected by conds, with overridden metadata)."""

    def __init__(self, src, conds=frozenset(), over=None, caller=False):
        self.src, self.conds, self.over, self.caller = src, conds, dict(over or {}), caller
        self.poisoned = None

    @property
    def __class__(self):
        return REAL_SCMRUN

    def copy(self):
        return Run(self.src, self.conds, self.over)

    def __copy__(self):
        return Run(self.src, self.conds, self.over)

    def __deepcopy__(self, memo):
        return self.copy()

    def filter(self, keep=True, inplace=False, **kw):
        if not isinstance(keep, bool) or not kw or inplace:
            raise Unsupported("filter arguments")
        new = set(self.conds)
        if not keep and len(kw) != 1:
            raise Unsupported("filter(keep=False) on several columns")
        for k, v in kw.items():
            if k in self.over or k not in self.src.columns:
                raise Unsupported("filter on %s" % k)
            new.add(norm_cond(k, v, keep))
        return Run(self.src, frozenset(new), self.over)

    @property
    def n(self):
        return self.src.count(self.conds)

    @property
    def shape(self):
        return (self.n, self.src.T)

    def __symlen__(self):
        return self.n

    def __len__(self):
        raise Unsupported("len() outside the verified modules")

    @property
    def empty(self):
        return SBool(iterm(self.n) == 0)

    def __setitem__(self, k, v):
        if not isinstance(k, str) or type(k) is SymStr or k in ("time", "year"):
            raise Unsupported("metadata column %r" % (k,))
        if isinstance(v, (list, tuple, np.ndarray, SArray)):
            raise Unsupported("metadata column set to a sequence")
        if self.caller:
            self.src.log.append("metadata %r overwritten" % k)
        self.over[k] = v

    def __getitem__(self, k):
        s = self.src
        if k == "time":
            return TimeSeries(s.T, lambda i: SInt(s.time(i)), "time")
        if k == "year":
            return TimeSeries(s.T, lambda i: SInt(s.year(i)), "num")
        if isinstance(k, str) and type(k) is not SymStr and k in s.columns and k not in self.over:
            return _Labelled(self, k)
        raise Unsupported("metadata column access")

    @property
    def meta(self):
        return Meta(sorted(set(self.src.columns) | set(self.over)), self)

    def timeseries(self, *a, **k):
        if a or k:
            raise Unsupported("timeseries arguments")
        return Table(self)

    def get(self, k):
        """Metadata and pieces of row k."""
        r = self.src.row(self.conds, iterm(k))
        meta = {n: self.over[n] if n in self.over else r["meta"][n] for n in sorted(set(self.src.columns) | set(self.over))}
        return r, meta


class Meta(Opaque):
    def __init__(self, cols, run=None):
        self.cols, self.run = cols, run

    def __contains__(self, x):
        return x in self.cols or self.run is not None and self.run.src.has(x)

    @property
    def columns(self):
        return Cols(self.cols, self.run)


class Cols(Opaque):
    def __init__(self, cols, run=None):
        self.cols, self.run = cols, run

    def tolist(self):
        return list(self.cols)

    to_list = tolist

    def __iter__(self):
        return iter(self.cols)

    def __len__(self):
        return len(self.cols)

    def __contains__(self, x):
        return x in self.cols or self.run is not None and self.run.src.has(x)


class Table(Opaque):
    """timeseries() of a Run: one row per selected input row."""

    def __init__(self, run, common=None):
        self.run = Run(run.src, run.conds, run.over)
        run.src.tables += 1
        self.names = sorted(set(run.src.columns) | set(run.over))
        self.common = common  # (number, position) of the time points kept

    @property
    def __class__(self):
        return pd.DataFrame

    @property
    def index(self):
        return TableIndex(self)

    @property
    def shape(self):
        return self.run.shape

    def __symlen__(self):
        return self.run.n

    @property
    def empty(self):
        return SBool(iterm(self.run.n) == 0)

    def _row(self, k):
        r, meta = self.run.get(k)
        name = tuple(meta[n] for n in self.names)
        if self.common is None:
            return Series(r, name)
        n, at = self.common
        c = sym.ctx()
        c.require(n.t <= r["n"].t)
        c.require(z3.Implies(iterm(self.run.n) == 1, n.t == r["n"].t))

        def value(j):
            p = at(j)
            one = iterm(self.run.n) == 1
            sym.ctx().require(z3.Implies(z3.And(j >= 0, j < n.t), z3.And(p >= 0, p < iterm(self.run.src.T), r["present"](p))))
            own = r["times"].at(j)
            sym.ctx().require(z3.Implies(one, p == own))
            return SReal(r["V"](p))
        return Series(r, name, "full", lambda: SArray(n, value), Times(r["key"], n, at))

    def dropna(self, axis=0, how="any", **k):
        """axis 1: only the time points at which every row has a value."""
        if axis in (1, "columns") and how == "all" and not k and self.common is None:
            return self  # scmdata's own time axis: every time point has a value in some timeseries
        if axis not in (1, "columns") or how != "any" or k or self.common is not None:
            raise Unsupported("dropna arguments of a table")
        c = sym.ctx()
        return Table(self.run, (c.int("n_common", 0), c.func("at_common", z3.IntSort(), z3.IntSort())))

    def iterrows(self):
        def get(k):
            s = self._row(k)
            return s.name, s
        q = SymSeq(self.run.n, get)
        q.table = self
        return q

    @property
    def iloc(self):
        return TableIloc(self)

    def copy(self, deep=True):
        return self


class TableIloc(Opaque):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None):
            k = k[0]
        if isinstance(k, SInt) or type(k) is int and k >= 0:
            if not sym.ctx().branch(z3.And(iterm(k) >= 0, iterm(k) < iterm(self.t.run.n))):
                raise Unsupported("row position out of range")
            return self.t._row(iterm(k))
        raise Unsupported("table .iloc[...]")


class TableIndex(Opaque):
    def __init__(self, t):
        self.t = t

    @property
    def names(self):
        return list(self.t.names)

    @property
    def nlevels(self):
        return len(self.t.names)

    def __symlen__(self):
        return self.t.run.n

    def __getitem__(self, k):
        return TableIloc(self.t)[k].name

    def get_level_values(self, name):
        if not isinstance(name, str) or type(name) is SymStr or name not in self.t.names:
            raise Unsupported("index level %r" % (name,))
        return MetaColumn(self.t.run, name)


class MetaColumn(Opaque):
    """The values of one metadata column."""

    def __init__(self, run, name):
        self.run, self.name = run, name

    def __symlen__(self):
        return self.run.n

    @property
    def iloc(self):
        return MetaColumn(self.run, self.name)

    @property
    def values(self):
        return MetaColumn(self.run, self.name)

    to_numpy = tolist = to_list = lambda self: MetaColumn(self.run, self.name)

    def __getitem__(self, k):
        n = iterm(self.run.n)
        if type(k) is int or isinstance(k, SInt):
            t = iterm(k)
            if not sym.ctx().branch(z3.And(t >= -n, t < n)):
                raise IndexError("index out of bounds")
            if not sym.ctx().branch(t >= 0):
                t = z3.simplify(t + n)
            return self.run.get(SInt(t))[1][self.name]
        raise Unsupported("metadata column [...]")


class _Labelled(MetaColumn):
    """ScmRun[column]: a pandas Series; positions only through iloc or values."""

    def __getitem__(self, k):
        raise Unsupported("label access to a metadata column")


class Mask(Opaque):
    def __init__(self, row, valid):
        self.row, self.valid = row, valid

    def __invert__(self):
        return Mask(self.row, not self.valid)


class Series(Opaque):
    """One row of a table: values (mk makes the array) at some of the time points.

    state: 'raw' (every time point), 'dropped' (missing ones removed), 'full' (derived,
    none missing) or 'other' (derived, may have missing ones)."""

    def __init__(self, r, name, state="raw", mk=None, times=None):
        self.r, self.name, self.state = r, name, state
        self._mk = mk or (r["raw"] if state == "raw" else r["values"])
        self.times = times or (r["all"] if state == "raw" else r["times"])

    @property
    def __class__(self):
        return pd.Series

    def dropna(self):
        if self.state == "other":
            raise Unsupported("dropna of a derived series")
        if self.state == "full":
            return self.copy()
        return Series(self.r, self.name, "dropped")

    def isnull(self):
        if self.state == "raw":
            return Mask(self.r, False)
        raise Unsupported("isnull of a derived series")

    isna = isnull

    def notnull(self):
        return ~self.isnull()

    notna = notnull

    def __getitem__(self, k):
        if isinstance(k, Mask) and k.row is self.r and k.valid and self.state == "raw":
            return self.dropna()
        raise Unsupported("series [...]")

    @property
    def values(self):
        return self._mk()

    def to_numpy(self):
        return self.values

    @property
    def iloc(self):
        return _SeriesIloc(self)

    @property
    def size(self):
        return self.values.n

    @property
    def empty(self):
        return SBool(iterm(self.values.n) == 0)

    @property
    def shape(self):
        return (self.values.n,)

    def __symlen__(self):
        return self.values.n

    def __symseq__(self):
        v = self.values
        return SymSeq(v.n, lambda k: v.fn(k))

    def copy(self, deep=True):
        return Series(self.r, self.name, self.state, self._mk, self.times)

    def astype(self, t):
        if t in (float, "float"):
            return self.copy()
        raise Unsupported("astype")

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def _derived(self, mk, times=None, full=False):
        return Series(self.r, self.name, "full" if full or self.state in ("dropped", "full") else "other", mk, times or self.times)

    def fillna(self, value=None, **k):
        if k or sym.lift(value) is None:
            raise Unsupported("fillna arguments")
        v = self.values
        x = SReal(*sym.lift(value))
        return self._derived(lambda: SArray(v.n, lambda j: sym.ite(bterm(v.fn(j).nan), x, v.fn(j))), full=True)

    def _fill(self, back):
        """Forward or backward fill: the value at the nearest present time point on that side."""
        if self.state in ("dropped", "full"):
            return self.copy()
        if self.state != "raw":
            raise Unsupported("fill of a derived series")
        c = sym.ctx()
        r, T = self.r, iterm(self.times.n)
        src = c.func("fill", z3.IntSort(), z3.IntSort())
        V, P = r["V"], r["present"]

        t, j = z3.Int("t!fill"), z3.Int("j!fill")
        near = z3.And(t <= src(t), src(t) <= j) if back else z3.And(j <= src(t), src(t) <= t)
        among = z3.And(t <= j, j < T, 0 <= t) if back else z3.And(0 <= j, j <= t, t < T)
        c.require(z3.ForAll([t, j], z3.Implies(z3.And(among, P(j)), z3.And(near, P(src(t))))))

        def value(t):
            x = src(t)
            side = z3.And(t <= x, x < T) if back else z3.And(0 <= x, x <= t)
            return SReal(V(x), z3.Not(z3.And(side, P(x))))
        return self._derived(lambda: SArray(self.times.n, value))

    def ffill(self):
        return self._fill(False)

    pad = ffill

    def bfill(self):
        return self._fill(True)

    backfill = bfill

    def _arith(self, o, op):
        if isinstance(o, (np.ndarray, SArray)) or sym.lift(o) is None:
            raise Unsupported("arithmetic on a series")
        return self._derived(lambda: op(self.values, o))

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __abs__(self):
        v = self.values

        def fn(j):
            x = v.fn(j)
            return sym.ite(x.t < 0, -x, x)
        return self._derived(lambda: SArray(v.n, fn))

    abs = __abs__

    def _compare(self, o, op):
        if isinstance(o, (np.ndarray, SArray)) or sym.lift(o) is None:
            raise Unsupported("comparison of a series")
        return op(self.values, o)

    def __eq__(self, o):
        return self._compare(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._compare(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._compare(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._compare(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._compare(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._compare(o, lambda a, b: a >= b)

    __hash__ = None
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def to_frame(self, *a):
        if a:
            raise Unsupported("to_frame arguments")
        return Column(self)


class _SeriesIloc(Opaque):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        v = s.values
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            return v[k]
        if isinstance(k, slice):
            a, b = v._bounds(k)
            at = s.times.at
            n = sym.sint(z3.simplify(b - a))

            def mk():
                w = s.values
                return SArray(n, lambda j: w.fn(z3.simplify(j + a)))
            return s._derived(mk, Times(s.times.row, n, lambda j: at(z3.simplify(j + a))))
        raise Unsupported("series .iloc[...]")


class Column(Opaque):
    """A one-column frame (series.to_frame())."""

    def __init__(self, s):
        self.s = s

    @property
    def T(self):
        s = self.s
        row = Row(list(s.name), s.times, s.values)
        return Frame([row], None)

    def transpose(self):
        return self.T


class Frame(Opaque):
    """A frame of finitely many timeseries rows; meta of a Row is a list until named."""

    def __init__(self, rows, names):
        self._rows, self._names = rows, names
        self._dead = False

    @property
    def __class__(self):
        return pd.DataFrame

    def _ok(self):
        if self._dead:
            raise Unsupported("frame used after it was turned into an ScmRun")

    def copy(self, deep=True):
        self._ok()
        if deep is not True:
            raise Unsupported("shallow frame copy")
        return Frame([Row(list(r.meta), r.times, r.values.snapshot()) for r in self._rows],
                     None if self._names is None else list(self._names))

    @property
    def index(self):
        self._ok()
        return FrameIndex(self)

    @index.setter
    def index(self, ix):
        self._ok()
        if not isinstance(ix, FrameIndex) or len(ix.labels) != len(self._rows):
            raise Unsupported("frame index")
        self._names = None if ix.nm is None else list(ix.nm)
        for r, l in zip(self._rows, ix.labels):
            r.meta = list(l)

    @property
    def iloc(self):
        self._ok()
        return FrameIloc(self)

    def __setitem__(self, k, v):
        if k == slice(None):
            FrameIloc(self)[:, :] = v
            return
        raise Unsupported("frame [...] =")

    def reorder_levels(self, order, axis=0):
        self._ok()
        order = list(order)
        if axis not in (0, "index") or self._names is None or sorted(order) != sorted(self._names):
            raise Unsupported("reorder_levels")
        pos = [self._names.index(o) for o in order]
        return Frame([Row([r.meta[p] for p in pos], r.times, r.values.snapshot()) for r in self._rows], order)

    @property
    def T(self):
        raise Unsupported("transpose of a frame")

    @property
    def shape(self):
        if len(self._rows) == 1:
            return (1, self._rows[0].values.n)
        raise Unsupported("shape of a frame")


class FrameIndex(Opaque):
    def __init__(self, f, nm=UNSET, labels=None):
        self.f = f
        self.nm = (None if f is None or f._names is None else list(f._names)) if nm is UNSET else nm
        self.labels = labels if labels is not None else [list(r.meta) for r in f._rows]

    @property
    def names(self):
        return list(self.nm) if self.nm is not None else [None] * len(self.labels[0])

    @names.setter
    def names(self, v):
        v = list(v)
        if len(v) != len(self.labels[0]):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        self.nm = v
        if self.f is not None:
            self.f._names = list(v)

    def set_names(self, names):
        i = FrameIndex(None, list(names), [list(l) for l in self.labels])
        return i

    rename = set_names

    def set_levels(self, levels, level=None, verify_integrity=True):
        if level is None or len(self.labels) != 1 or self.nm is None:
            raise Unsupported("set_levels")
        if isinstance(level, str):
            level, levels = [level], [levels]
        lab = list(self.labels[0])
        for lv, vals in zip(level, levels):
            vals = list(vals)
            if lv not in self.nm:
                raise KeyError("Level %s not found" % lv)
            if len(vals) != 1:
                raise Unsupported("several levels")
            lab[self.nm.index(lv)] = vals[0]
        return FrameIndex(None, list(self.nm), [lab])


class FrameIloc(Opaque):
    def __init__(self, f):
        self.f = f

    def __setitem__(self, k, v):
        f = self.f
        full = slice(None)
        if k not in ((full, full), full, (0, full), 0, (slice(0, 1), full)):
            raise Unsupported("frame .iloc[...] =")
        if len(f._rows) != 1:
            raise Unsupported("assignment to several rows")
        r = f._rows[0]
        if isinstance(v, SArray) and type(v) is SArray:
            if not sym.ctx().branch(iterm(v.n) == iterm(r.values.n)):
                raise ValueError("could not broadcast input array")
            r.values = v.snapshot()
        elif sym.lift(v) is not None:
            x = SReal(*sym.lift(v))
            r.values = SArray(r.values.n, lambda j: x)
        else:
            raise Unsupported("frame values %r" % type(v))


class Rows(Opaque):
    """ScmRun of finitely many rows."""

    def __init__(self, rows):
        self.rows = rows  # Row with dict meta

    @property
    def __class__(self):
        return REAL_SCMRUN

    def copy(self):
        return Rows([Row(dict(r.meta), r.times, r.values.snapshot()) for r in self.rows])

    def __setitem__(self, k, v):
        if not isinstance(k, str) or type(k) is SymStr or k in ("time", "year") or isinstance(v, (list, tuple, np.ndarray, SArray)):
            raise Unsupported("metadata column")
        for r in self.rows:
            r.meta[k] = v

    def names(self):
        return sorted(set().union(*[set(r.meta) for r in self.rows]))

    @property
    def meta(self):
        return Meta(self.names())

    def timeseries(self, *a, **k):
        if a or k:
            raise Unsupported("timeseries arguments")
        n = self.names()
        if any(set(r.meta) != set(n) for r in self.rows):
            raise Unsupported("rows with different metadata columns")
        return Frame([Row([r.meta[x] for x in n], r.times, r.values.snapshot()) for r in self.rows], n)


REAL_SCMRUN = None
import scmdata.run as _sr  # noqa: E402
REAL_SCMRUN = _sr.ScmRun


class CallerFrame(Opaque):
    """A pandas DataFrame given by the caller."""

    def __init__(self, src, caller=True):
        self.src, self.caller = src, caller

    @property
    def __class__(self):
        return pd.DataFrame

    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported("shallow frame copy")
        return CallerFrame(self.src, False)


class CallerOther(Opaque):
    """Any other input ScmRun accepts (path, pyam frame, ...)."""

    def __init__(self, src):
        self.src = src


class _ScmRunMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL_SCMRUN)

    def __getattr__(cls, k):
        raise Unsupported("ScmRun.%s" % k)


class ScmRunProxy(metaclass=_ScmRunMeta):
    def __new__(cls, data=None, *a, **k):
        if a or k:
            raise Unsupported("ScmRun arguments")
        t = type(data)
        if t is CallerFrame:
            if data.caller:
                data.src.log.append("index of the data frame reset")
            return Run(data.src)
        if t is CallerOther:
            return Run(data.src)
        if t is Run:
            return data.copy()
        if t is Rows:
            return data.copy()
        if t is Table:
            return Run(data.run.src, data.run.conds, data.run.over)
        if t is Frame:
            data._ok()
            data._dead = True
            if data._names is None or any(n is None for n in data._names):
                raise Unsupported("ScmRun of a frame without names")
            return Rows([Row(dict(zip(data._names, r.meta)), r.times, r.values.snapshot()) for r in data._rows])
        raise Unsupported("ScmRun(%s)" % t.__name__)


def concat(objs, axis=0, **k):
    if axis not in (0, "index") or set(k) - {"sort"}:
        raise Unsupported("concat arguments")
    objs = list(objs)
    if not objs:
        raise ValueError("No objects to concatenate")
    if any(type(o) is not Frame for o in objs):
        raise Unsupported("concat of %s" % {type(o).__name__ for o in objs})
    names = objs[0]._names
    for o in objs:
        o._ok()
        if o._names is None or o._names != names:
            raise Unsupported("concat of differently named frames")
    return Frame([Row(list(r.meta), r.times, r.values.snapshot()) for o in objs for r in o._rows], list(names))


class PdProxy:
    _ALLOW = {"DataFrame", "Series", "Timedelta"}

    def __getattr__(self, k):
        if k == "concat":
            return concat
        if k in self._ALLOW:
            return getattr(pd, k)
        raise Unsupported("pandas.%s" % k)


def _tqdm(it=None, *a, **k):
    return it


class TqdmProxy:
    def __getattr__(self, k):
        if k in ("tqdm", "trange"):
            return _tqdm
        raise Unsupported("tqdm.%s" % k)


def scm_append(*a, **k):
    raise Unsupported("scmdata.run_append")


@contextlib.contextmanager
def environment():
    """The verified modules see the stand-ins instead of scmdata, pandas and tqdm."""
    import tqdm.autonotebook as tq
    import scmdata
    mods = [m for n, m in sys.modules.items() if n.startswith(loader.PKG) and m is not None]
    saved = []
    ur = loader.UR
    urp = UrProxy(ur)
    for m in mods:
        for k, v in list(m.__dict__.items()):
            new = None
            if v is pd:
                new = PdProxy()
            elif v is REAL_SCMRUN:
                new = ScmRunProxy
            elif v is tq or getattr(v, "__name__", "").split(".")[0] == "tqdm" and isinstance(v, type(sys)):
                new = TqdmProxy()
            elif v is tq.tqdm:
                new = _tqdm
            elif v is ur:
                new = urp
            elif v is pd.concat:
                new = concat
            elif v is scmdata or v is _sr or v is getattr(scmdata, "run_append", UNSET):
                new = scm_append if callable(v) else PdProxy()
            if new is not None:
                saved.append((m, k, v))
                m.__dict__[k] = new
    try:
        yield
    finally:
        for m, k, v in saved:
            m.__dict__[k] = v
