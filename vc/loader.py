"""Load the repository's current modules for verification.

What differs from a plain import, and nothing else:
* loops and comprehensions are instrumented so that a loop contract can take
  over (vc/instrument.py says exactly how);
* ``openscm_units.unit_registry`` is a registry with exact rational scale
  factors (same definition files, ``non_int_type=Fraction``);
* after each module body ran, its global ``np`` (and ``math``) is replaced by a
  proxy that also accepts symbolic values, and the builtins len/range/enumerate/zip/
  list/all/any/sum/min/max/int/float/abs/isinstance it looks up are shadowed by
  versions that also accept symbolic values.
"""
import builtins
import importlib
import os
import sys
import types
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import instrument, sym
from .npsym import proxied
from .sym import SArray, SBool, SInt, SReal, Sym, Unsupported, ctx, iterm, lift

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "openscm_twolayermodel"
UR = None


def exact_registry():
    global UR
    if UR is not None:
        return UR
    import fractions
    orig = fractions.Fraction.__format__ if "__format__" in fractions.Fraction.__dict__ else None

    def fmt(self, spec):
        if spec.endswith("n"):
            return str(self.numerator) if self.denominator == 1 else format(float(self), spec)
        return orig(self, spec) if orig else format(float(self), spec)

    fractions.Fraction.__format__ = fmt
    import openscm_units
    from openscm_units._unit_registry import ScmUnitRegistry
    ur = ScmUnitRegistry(non_int_type=Fraction)
    ur.add_standards() if hasattr(ur, "add_standards") else None
    try:
        ur.enable_contexts
    except AttributeError:
        pass
    openscm_units.unit_registry = ur
    UR = ur
    return ur


_UNITS = {}


def symunit(name, like, scale):
    """Define unit ``name`` with 1 name = scale * like (scale: positive Real term)."""
    from pint.converters import ScaleConverter
    from pint.definitions import UnitDefinition
    name = "%s_%d" % (name, len(_UNITS))
    key = (name.rsplit("_", 1)[0], like, scale.sexpr())
    if key not in _UNITS:
        u = UR.Unit(like)
        UR.define(UnitDefinition(name, None, (), ScaleConverter(SReal(scale)), u._units))
        _UNITS[key] = (name, scale)
    return _UNITS[key][0]


# -- shadowed builtins ---------------------------------------------------------

def v_len(x):
    if isinstance(x, SArray):
        return x.n
    import pint
    if isinstance(x, pint.Quantity) and isinstance(x.magnitude, SArray):
        return x.magnitude.n
    h = getattr(type(x), "__symlen__", None)
    if h is not None:
        return h(x)
    return builtins.len(x)


class SymSeq:
    """A sequence of symbolic length: item k is ``get(k)`` (k an Int term)."""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def __iter__(self):
        return SymIter(self, sys._getframe(1))

    def __symlen__(self):
        return self.n

    def __len__(self):
        raise Unsupported("len() of a symbolic sequence")

    def __getitem__(self, k):
        if isinstance(k, (int, SInt)):
            return self.get(iterm(k))
        raise Unsupported("slice of a symbolic sequence")


def as_seq(x):
    import pint
    if isinstance(x, SymSeq):
        return x
    h = getattr(type(x), "__symseq__", None)
    if h:
        return h(x)
    if isinstance(x, SArray):
        return SymSeq(x.n, lambda k: x.fn(k))
    if isinstance(x, pint.Quantity) and isinstance(x.magnitude, SArray):
        m = x.magnitude
        return SymSeq(m.n, lambda k: x.__class__(m.fn(k), x._units))
    return None


def is_symseq(x):
    if isinstance(x, (SymSeq, SArray)):
        return not isinstance(getattr(x, "n", None), int)
    s = None
    try:
        import pint
        if isinstance(x, pint.Quantity) and isinstance(x.magnitude, SArray):
            return not isinstance(x.magnitude.n, int)
    except Exception:
        pass
    return getattr(type(x), "__symseq__", None) is not None


class v_range_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)


def v_range(*a):
    if not any(isinstance(v, SInt) for v in a):
        return builtins.range(*a)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
    if step != 1:
        raise Unsupported("range step")
    d = iterm(hi) - iterm(lo)
    n = SInt(z3.simplify(d))
    if not ctx().branch(d >= 0):
        return builtins.range(0)
    return SymSeq(n, lambda k: SInt(z3.simplify(iterm(lo) + k)))


def v_enumerate(x, start=0):
    if type(x) is instrument.AccList:
        return x.enumerated(start)
    if not is_symseq(x):
        return builtins.enumerate(x, start)
    s = as_seq(x)
    return SymSeq(s.n, lambda k: (SInt(z3.simplify(k + iterm(start))), s.get(k)))


def v_zip(*xs):
    if not any(is_symseq(x) for x in xs):
        return builtins.zip(*xs)
    ss = [as_seq(x) for x in xs]
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete sequences")
    for s in ss[1:]:
        if not sym.same_len(ss[0].n, s.n):
            raise Unsupported("zip of different symbolic lengths")
    return SymSeq(ss[0].n, lambda k: tuple(s.get(k) for s in ss))


def v_list(*a):
    if a and is_symseq(a[0]):
        return as_seq(a[0])
    return builtins.list(*a)


def _quant(x, ex):
    if isinstance(x, SArray) or is_symseq(x):
        if isinstance(x, SArray):
            return x.any() if ex else x.all()
        s = as_seq(x)
        arr = SArray(s.n, lambda i: s.get(i), bool)
        return arr.any() if ex else arr.all()
    return None


def v_all(x):
    h = getattr(type(x), "__symall__", None)
    if h is not None:
        return h(x)
    r = _quant(x, False)
    return builtins.all(x) if r is None else r


def v_any(x):
    h = getattr(type(x), "__symany__", None)
    if h is not None:
        return h(x)
    r = _quant(x, True)
    return builtins.any(x) if r is None else r


def v_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    return builtins.int(x, *a)


def v_float(x=0.0):
    import pint
    if isinstance(x, (SReal, SInt)):
        return SReal(*lift(x))
    return builtins.float(x)


def v_bool(x=False):
    if isinstance(x, SBool):
        return x
    return builtins.bool(x)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        vs = a if len(a) > 1 else builtins.list(a[0])
        if any(isinstance(v, Sym) for v in vs):
            if k:
                raise Unsupported(name + " keyword")
            r = vs[0]
            for v in vs[1:]:
                c = (v < r) if name == "min" else (v > r)
                r = v if bool(c) else r
            return r
        return real(*a, **k)
    return f


class _TypeShadow:
    pass


def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    conv = []
    for u in ts:
        conv.append(_REALTYPE.get(u, u))
    for u in conv:
        if isinstance(x, SReal) and u in (float, np.floating, np.float64):
            return True
        if isinstance(x, SInt) and u in (int, np.integer):
            return True
        if isinstance(x, SBool) and u in (bool, np.bool_):
            return True
        if u is np.ndarray and (isinstance(x, SArray) or getattr(type(x), "stands_for_ndarray", False)):
            return True
        import numbers
        if isinstance(x, (SReal, SInt)) and u in (numbers.Number, numbers.Real):
            return True
    return builtins.isinstance(x, tuple(conv))


_REALTYPE = {v_int: int, v_float: float, v_list: list, v_bool: bool, v_range: range,
             v_enumerate: enumerate, v_zip: zip}

SHADOW = {"len": v_len, "range": v_range, "enumerate": v_enumerate, "zip": v_zip, "list": v_list,
          "all": v_all, "any": v_any, "int": v_int, "float": v_float, "bool": v_bool,
          "min": _minmax("min"), "max": _minmax("max"), "isinstance": v_isinstance}


# -- loops -----------------------------------------------------------------------

class SymIter:
    """Cuts a ``for`` loop over a symbolic sequence at the loop contract."""

    cut = False
    is_while = False
    policy = info = None

    def __init__(self, seq, frame):
        self.seq = seq
        self.state = 0
        self.n = seq.n if seq is not None else None

    def begin(self, env):
        return self.policy.begin(self, env)

    def end(self, env):
        return self.policy.end(self, env)

    def leave(self):
        return self.policy.leave(self)

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        while fr is not None and fr.f_globals.get("__name__", "").split(".")[0] not in (PKG,):
            if fr.f_globals.get("__name__", "").startswith(("vc.", "contracts")):
                fr = None
                break
            fr = fr.f_back
        if fr is None:
            raise Unsupported("symbolic iteration outside the verified modules")
        c = ctx()
        pol = self.policy
        if pol is not None:
            return pol.next(self, fr)
        for p in reversed(c.loop_policies):
            if p.matches(fr, self.seq):
                pol = p
                break
        if pol is None:
            raise Unsupported("loop without a contract in %s" % fr.f_code.co_name)
        if self.info is None:
            raise Unsupported("symbolic loop in a nested expression of %s" % fr.f_code.co_name)
        self.policy, self.cut = pol, True
        return pol.next(self, fr)


def patch_pint_iter():
    import pint
    Q = UR.Quantity if UR is not None else pint.Quantity
    for K in {pint.Quantity, pint.quantity.Quantity, UR.Quantity}:
        if "__iter__" in K.__dict__ or K is pint.quantity.Quantity:
            orig = K.__iter__
            if getattr(orig, "_vc", False):
                continue

            def __iter__(self, orig=orig):
                if isinstance(self._magnitude, SArray) and not isinstance(self._magnitude.n, int):
                    return SymIter(as_seq(self), None)
                return orig(self)

            __iter__._vc = True
            K.__iter__ = __iter__


def _sarray_iter(self):
    if isinstance(self.n, int):
        return iter([self.fn(z3.IntVal(k)) for k in range(self.n)])
    return SymIter(as_seq(self), None)


SArray.__iter__ = _sarray_iter

# -- modules -------------------------------------------------------------------------

_LOADED = None


def load(extra=None):
    """Import the repository package afresh; returns a namespace of its modules."""
    global _LOADED
    if _LOADED is not None:
        return _LOADED
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    ur = exact_registry()
    for m in [m for m in sys.modules if m.split(".")[0] == PKG]:
        del sys.modules[m]
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    builtins.__vc_for__, builtins.__vc_while__, builtins.__vc_comp__ = instrument.v_for, instrument.v_while, instrument.v_comp
    sys.meta_path.insert(0, instrument.Finder(src, PKG))
    pkg = importlib.import_module(PKG)
    if not os.path.realpath(pkg.__file__).startswith(os.path.realpath(src)):
        raise RuntimeError("loaded %s, not the repository" % pkg.__file__)
    ns = types.SimpleNamespace()
    for name, m in sorted(sys.modules.items()):
        if name.startswith(PKG + ".") and m is not None and not name.endswith("_version"):
            f = getattr(m, "__file__", None)
            setattr(ns, name.split(".", 1)[1].replace(".", "_"), m)
            for k, v in SHADOW.items():
                if k not in m.__dict__:
                    m.__dict__[k] = v
            for k, v in list(m.__dict__.items()):
                if proxied(v) is not None:
                    m.__dict__[k] = proxied(v)
    ns.ur = ur
    for opt in ("utils", "constants", "errors", "base", "two_layer_model", "impulse_response_model"):
        full = PKG + "." + opt
        if not hasattr(ns, opt):
            try:
                m = importlib.import_module(full)
                for k, v in SHADOW.items():
                    m.__dict__.setdefault(k, v)
                for k, v in list(m.__dict__.items()):
                    if proxied(v) is not None:
                        m.__dict__[k] = proxied(v)
                setattr(ns, opt, m)
            except ImportError:
                pass
    patch_pint_iter()
    ns.pkg = pkg
    ns.TwoLayerModel = pkg.TwoLayerModel
    ns.ImpulseResponseModel = pkg.ImpulseResponseModel
    _LOADED = ns
    return ns
