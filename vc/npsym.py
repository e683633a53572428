"""Rules for numpy functions applied to symbolic values (assumed contracts on numpy)."""
import numpy as np
import z3

from .sym import (SArray, SBool, SInt, SReal, Unsupported, bterm, conv, ctx, iterm, lift,
                  truth)


def _scalar(name, a):
    x = a[0]
    y = a[1] if len(a) > 1 else None
    if name == "isnan":
        return SBool(bterm(lift(x)[1]))
    if name == "isfinite":
        return SBool(z3.Not(bterm(lift(x)[1])))
    if name == "isinf":
        return SBool(z3.BoolVal(False))
    if name == "equal":
        return x == y
    if name == "not_equal":
        return x != y
    if name == "less":
        return x < y
    if name == "less_equal":
        return x <= y
    if name == "greater":
        return x > y
    if name == "greater_equal":
        return x >= y
    if name == "add":
        return x + y
    if name == "subtract":
        return x - y
    if name == "multiply":
        return x * y
    if name in ("divide", "true_divide"):
        return x / y
    if name == "negative":
        return -x
    if name == "positive":
        return x
    if name in ("absolute", "fabs"):
        return abs(x)
    if name == "power":
        return x ** y
    if name == "float_power":
        return x ** y
    if name == "square":
        return x * x
    if name == "reciprocal":
        return 1 / x
    if name == "sqrt":
        return _r(x).sqrt()
    if name == "exp":
        return _r(x).exp()
    if name == "expm1":
        return _r(x).exp() - 1
    if name == "exp2":
        raise Unsupported("exp2")
    if name == "logical_and":
        return SBool(z3.And(truth(x), truth(y)))
    if name == "logical_or":
        return SBool(z3.Or(truth(x), truth(y)))
    if name == "logical_not":
        return SBool(z3.Not(truth(x)))
    if name == "logical_xor":
        return SBool(z3.Xor(truth(x), truth(y)))
    if name in ("maximum", "minimum"):
        p, q = lift(x), lift(y)
        from .sym import Or
        c = p[0] >= q[0] if name == "maximum" else p[0] <= q[0]
        return SReal(z3.If(c, p[0], q[0]), Or(p[1], q[1]))
    raise Unsupported("numpy." + name)


def _r(x):
    return x if isinstance(x, SReal) else SReal(*lift(x))


def ufunc(uf, method, args, kw):
    if method == "reduce" and uf.__name__ in ("logical_and", "logical_or"):
        a = args[0]
        return a.all() if uf.__name__ == "logical_and" else a.any()
    if method != "__call__":
        raise Unsupported("ufunc method " + method)
    if kw:
        raise Unsupported("ufunc keyword %s" % sorted(kw))
    name = uf.__name__
    args = list(args)
    for a in args:
        if not (isinstance(a, (SArray, SBool, np.ndarray)) or lift(a) is not None):
            return NotImplemented
    args = [a.item() if isinstance(a, np.ndarray) and a.ndim == 0 else a for a in args]
    arrs = [a for a in args if isinstance(a, (SArray, np.ndarray))]
    if not arrs:
        return _scalar(name, args)
    args = [SArray.of(list(a)) if isinstance(a, np.ndarray) else a for a in args]
    arrs = [a for a in args if isinstance(a, SArray)]
    n = arrs[0].n
    from .sym import broadcast
    for a in arrs[1:]:
        broadcast(n, a.n)
    fns = [(a.fn if isinstance(a, SArray) else (lambda i, a=a: a)) for a in args]
    isb = name.startswith(("is", "logical", "less", "greater", "equal", "not_eq"))
    return SArray(n, lambda i: _scalar(name, [f(i) for f in fns]), bool if isb else float)


def full(n, v):
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported("multi-dimensional symbolic array")
        n = n[0]
    v = conv(v, np.dtype(float))
    return SArray(n, lambda i: v)


def _like(a):
    if not isinstance(a, SArray):
        return None
    return a.n


def function(func, args, kw):
    name = func.__name__
    a = args[0] if args else None
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        kw = dict(kw)
        dt = kw.pop("dtype", None)
        if name == "full_like" and "fill_value" in kw:
            args = (a, kw.pop("fill_value"))
        if kw.get("shape", None) is None:
            kw.pop("shape", None)
        kw.pop("subok", None)
        if kw:
            raise Unsupported("%s keyword %s" % (name, sorted(kw)))
        if dt is None:
            dt = a.dtype if isinstance(a, SArray) else float
        if np.dtype(dt).kind == "f" and np.dtype(dt).itemsize < 8:
            raise Unsupported("single precision")
        if np.dtype(dt).kind not in "f":
            if name == "full_like" or np.dtype(dt).kind not in "i":
                raise Unsupported(name + " dtype")
            if isinstance(a, SArray):  # stays an array of integers: what is stored must be one
                if name == "empty_like":
                    return SArray.fresh("empty%d" % ctx().counter("empty"), a.n, dtype=int)
                one = SInt(1 if name == "ones_like" else 0)
                return SArray(a.n, lambda i: one, int)
            dt = float
        v = {"zeros_like": 0.0, "ones_like": 1.0}.get(name)
        if name == "empty_like":
            return SArray.fresh("empty%d" % ctx().counter("empty"), a.n if isinstance(a, SArray) else 1, nan=True)
        if name == "full_like":
            v = args[1]
        if isinstance(a, SArray):
            return full(a.n, v)
        return SReal(*lift(v))
    if name in ("any", "all") and len(args) == 1 and not kw:
        if isinstance(a, SArray):
            return a.any() if name == "any" else a.all()
        return SBool(truth(a))
    if name in ("sum", "count_nonzero") and len(args) == 1 and not kw and isinstance(a, SArray):
        if name == "count_nonzero" and a.dtype.kind != "b":
            return a.map(lambda x: SBool(truth(x)), bool).sum()
        return a.sum()
    if name == "shape":
        return a.shape
    if name == "ndim":
        return a.ndim
    if name == "size":
        return a.size if isinstance(a, SArray) else 1
    if name == "copy":
        return a.copy()
    if name == "isclose" or name == "allclose":
        b = args[1]
        rtol = kw.get("rtol", args[2] if len(args) > 2 else 1e-5)
        atol = kw.get("atol", args[3] if len(args) > 3 else 1e-8)
        if kw.get("equal_nan"):
            raise Unsupported("equal_nan")

        def f(x, y):
            return abs(x - y) <= atol + rtol * abs(y)

        if isinstance(a, SArray) or isinstance(b, SArray):
            arr = a if isinstance(a, SArray) else b
            g = (lambda i: f(a.fn(i) if isinstance(a, SArray) else a, b.fn(i) if isinstance(b, SArray) else b))
            if isinstance(a, SArray) and isinstance(b, SArray):
                from .sym import broadcast
                broadcast(a.n, b.n)
            r = SArray(arr.n, g, bool)
            return r.all() if name == "allclose" else r
        return f(a, b)
    if name == "where" and len(args) == 3:
        from .sym import ite
        c, x, y = args
        arrs = [v for v in args if isinstance(v, SArray)]
        if not arrs:
            return ite(truth(c), x, y)
        from .sym import broadcast
        for v in arrs[1:]:
            broadcast(arrs[0].n, v.n)
        at = lambda v, i: v.fn(i) if isinstance(v, SArray) else v
        return SArray(arrs[0].n, lambda i: ite(truth(at(c, i)), at(x, i), at(y, i)))
    if name in ("squeeze", "ravel", "atleast_1d") and isinstance(a, SArray):
        return a
    if name == "isscalar":
        return not isinstance(a, SArray)
    if name == "array_equal":
        b = args[1]
        if isinstance(a, SArray) and isinstance(b, SArray):
            if not ctx().branch(iterm(a.n) == iterm(b.n)):
                return False
            return (a == b).all()
    if name == "isreal":
        return True
    raise Unsupported("numpy." + name)


class NpProxy:
    """``np`` as seen by the verified modules: numpy plus symbolic sizes."""

    def __init__(self, np_):
        object.__setattr__(self, "_np", np_)

    def __getattr__(self, k):
        v = getattr(np, k)
        f = _OVER.get(k)
        return f if f is not None else v


def _mkfill(real, v):
    def f(shape, *a, **k):
        if isinstance(shape, SInt) or (isinstance(shape, tuple) and any(isinstance(s, SInt) for s in shape)):
            if a or k and set(k) - {"dtype"}:
                raise Unsupported("array constructor arguments")
            if k.get("dtype") not in (None, float, np.float64):
                raise Unsupported("array dtype")
            if v is None:
                n = shape[0] if isinstance(shape, tuple) else shape
                return SArray.fresh("empty%d" % ctx().counter("empty"), n, nan=True)
            return full(shape, v)
        return real(shape, *a, **k)
    return f


def _np_full(shape, fill_value, *a, **k):
    sym = isinstance(shape, SInt) or (isinstance(shape, tuple) and any(isinstance(s, SInt) for s in shape))
    if sym:
        return full(shape, fill_value)
    if isinstance(fill_value, SReal):
        n = shape[0] if isinstance(shape, tuple) else shape
        return full(n, fill_value)
    return np.full(shape, fill_value, *a, **k)


def _np_asarray(x, *a, **k):
    if isinstance(x, (SArray, SReal)):
        if isinstance(x, SArray):
            return x.copy() if True else x
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(v, (SReal, SInt, SBool)) for v in x):
        return SArray.of(list(x))
    return np.array(x, *a, **k)


def _np_asarray_nocopy(x, *a, **k):
    if isinstance(x, (SArray, SReal)):
        return x
    return _np_asarray(x, *a, **k)


def _np_arange(*a, **k):
    if any(isinstance(v, SInt) for v in a):
        if len(a) > 2 or k:
            raise Unsupported("np.arange arguments")
        lo, hi = (0, a[0]) if len(a) == 1 else a
        d = z3.simplify(iterm(hi) - iterm(lo))
        if not ctx().branch(d >= 0):
            return np.arange(0)
        return SArray(SInt(d), lambda i: SInt(z3.simplify(iterm(lo) + i)), int)
    return np.arange(*a, **k)


_OVER = {
    "zeros": _mkfill(np.zeros, 0.0),
    "ones": _mkfill(np.ones, 1.0),
    "empty": _mkfill(np.empty, None),
    "full": _np_full,
    "array": _np_asarray,
    "asarray": _np_asarray_nocopy,
    "arange": _np_arange,
}


_MATH = {"exp": "exp", "expm1": "expm1", "sqrt": "sqrt", "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf",
         "fabs": "fabs", "pow": "power", "isclose": None}


def math_function(name, real):
    """A function of the math module that also accepts symbolic numbers."""
    def f(*a, **k):
        b = [v.to("dimensionless").magnitude if hasattr(v, "magnitude") and hasattr(v, "to") else v for v in a]
        if not any(isinstance(v, (SReal, SInt)) for v in b):
            return real(*a, **k)
        if name in _MATH and _MATH[name] and not k:
            return _scalar(_MATH[name], b)
        raise Unsupported("math." + name)
    return f


class MathProxy:
    def __getattr__(self, k):
        import math
        v = getattr(math, k)
        return math_function(k, v) if callable(v) else v


def proxied(v):
    """The replacement of a module global that is numpy, math or a function of theirs; else None."""
    import math
    if v is np:
        return NpProxy(np)
    if v is math:
        return MathProxy()
    n = getattr(v, "__name__", None)
    if isinstance(n, str):
        if getattr(math, n, None) is v:
            return math_function(n, v)
        if n in _OVER and getattr(np, n, None) is v:
            return _OVER[n]
    return None
