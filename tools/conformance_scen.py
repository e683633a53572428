"""Differential test of the scmdata/pandas stand-ins (contracts/scen_model.py) against the real libraries.

    /opt/venv/bin/python tools/conformance_scen.py [seconds]

A random concrete scenario table is built twice: as a real ScmRun and as a
stand-in whose symbolic functions are constrained to the same numbers.  The
same expression is evaluated on both; results and exceptions have to agree.
An expression the stand-in refuses (Unsupported) is no mismatch; it is counted."""
import collections
import datetime
import math
import os
import random
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pandas as pd
import vc  # noqa
import z3
import scmdata

from contracts import common, scen_model as S
common.init()
from vc import engine, loader, npsym, sym
from vc.sym import SArray, SBool, SInt, SReal, Unsupported, bterm, iterm

NP = npsym.NpProxy(np)
R = random.Random(int(os.environ.get("VERIF_SEED", "1")))
DV = "Effective Radiative Forcing"


def table(r):
    T = r.choice([1, 2, 3, 4, 6])
    k = r.randrange(4)
    t = datetime.datetime(r.choice([1850, 1999, 2019]), r.choice([1, 1, 11, 12]), r.choice([1, 1, 16]))
    times = []
    for _ in range(T):
        times.append(t)
        if k == 0:
            t = datetime.datetime(t.year + (t.month == 12), t.month % 12 + 1, t.day)
        elif k == 1:
            t = datetime.datetime(t.year + 1, t.month, t.day)
        elif k == 2:
            t = t + datetime.timedelta(days=r.choice([1, 28, 30, 31, 365, 366]))
        else:
            t = t + datetime.timedelta(days=r.choice([27, 28, 31, 32, 365]), hours=r.choice([0, 0, 12]))
    N = r.choice([1, 2, 3])
    rows = []
    for i in range(N):
        v = [r.choice([0.0, 1.0, -1.5, 2.0, 0.25, math.nan]) for _ in range(T)]
        if all(x != x for x in v):
            v[r.randrange(T)] = 3.0
        rows.append(v)
    for j in range(T):  # every time point has a value in some timeseries (as scmdata's own axis)
        if all(v[j] != v[j] for v in rows):
            rows[r.randrange(N)][j] = 1.0
    units = [r.choice(["W/m^2", "mW/m^2"]) for _ in range(N)]
    return times, rows, units


TEXPR = ["{d}", "{d}.values", "{d}.iloc[1:]", "{d}.iloc[:-1]", "{d} {c} {x}", "({d} {c} {x}).all()", "({d} {c} {x}).any()", "all({d} {c} {x})", "any({d} {c} {x})",
         "np.all({d} {c} {x})", "np.logical_and({d} <= {x}, {d} >= {x2}).all()", "all(np.logical_and({d} <= {x}, {d} >= {x2}))", "(({d} <= {x}) & ({d} >= {x2})).all()",
         "(({d} <= {x}) | ({d} >= {x2})).all()", "(~({d} <= {x})).all()", "{d}.between({x2}, {x}).all()", "{d}.max() {c} {x}", "{d}.min() {c} {x}", "{d}.empty", "len({d})", "bool({d}.empty)",
         "{d}.iloc[{i}] {c} {x}", "{d}.eq({x}).all()", "{d}.le({x}).any()", "{d}.ne({x}).any()", "len({d}) > 1 and {d}.iloc[0] {c} {x}", "[v {c} {x} for v in {d}]", "({d} - {x}).abs().max() {c} {x2}",
         "-{d}", "abs({d})", "{d} + {x}", "{d} - {x}", "({d} {c} {d}.iloc[0]).all()", "{d}.iloc[[0, -1]]", "{d}.shape[0]", "{d}.size", "({d}.iloc[-1] - {d}.iloc[0]) {c} {x}",
         "not {d}.empty and all({d} {c} {x})"]
REXPR = ["{s}", "{s}.values", "{s}.to_numpy()", "{s}.values * 2.0", "{s}.iloc[{i}]", "{s}.iloc[{i}:].values", "{s}.iloc[:{i}].values", "len({s})", "{s}.shape", "{s}.size", "{s}.empty",
         "({s} {c} {f}).all()", "({s} {c} {f}).any()", "{s}.eq({f}).any()", "np.isnan({s}.values).any()", "np.isnan({s}.iloc[0])", "{s}.fillna({f}).values", "{s}.ffill().values",
         "{s}.bfill().values", "{s}.ffill().iloc[{i}]", "({s} * {f}).values", "({s} + 1).iloc[0]", "{s}.abs().values", "{s}.head(2).values", "{s}.tail(1).values", "({s} / 2).values", "({s} - {f}).values",
         "{s}.iloc[1:].iloc[:1].values", "{s}.copy().values", "{s}.astype(float).values", "{s}.isnull().sum() if False else 0", "[v for v in {s}.values]", "{s}.to_frame().T"]
SER = ["row", "row.dropna()", "row.dropna()", "row[~row.isnull()]", "row[row.notnull()]", "common.iloc[{k}]", "common.iloc[{k}].dropna()", "row.iloc[1:]", "row.dropna().iloc[1:]", "row.fillna(0)", "row.ffill()"]
GEXPR = ["tab.shape", "tab.empty", "len(tab)", "len(tab.index)", "tab.index.names", "[s.dropna().values[0] for l, s in tab.iterrows()]", "len(common)", "driver.shape", "len(driver)",
         "label(tab.index.get_level_values('unit')[{k}])", "label(driver['unit'].iloc[{k}])", "label(driver['scenario'].values[{k}])", "label(dict(zip(tab.index.names, tab.index[{k}]))['scenario'])",
         "'unit' in driver.meta", "sorted(driver.meta.columns.tolist())", "len(driver.filter(variable=DV)) if False else 1"]


def expr(r, T, N):
    c = r.choice(["<", "<=", ">", ">=", "==", "!="])
    i = r.randint(-2, 3)
    k = r.randint(0, N - 1)
    if r.random() < 0.1:
        return r.choice(GEXPR).format(k=k)
    if r.random() < 0.5:
        return r.choice(REXPR).format(s=r.choice(SER).format(k=k), c=c, i=i, f=r.choice(["0", "1.0", "-0.5", "0.25"]))
    q = r.randrange(9)
    if q < 3:
        d = r.choice(["driver['time'].diff().dropna()", "driver['time'].diff()", "driver['time'].diff().iloc[1:]"])
        x, x2 = r.sample(["np.timedelta64(31, 'D')", "np.timedelta64(28, 'D')", "pd.Timedelta(days=30)", "np.timedelta64(365, 'D')"], 2)
    elif q < 6:
        d = r.choice(["driver['year'].diff().dropna()", "driver['year'].diff()", "driver['year']", "driver['year'].iloc[1:]", "driver['year'].diff().iloc[1:]"])
        x, x2 = r.choice([("1", "0"), ("1.5", "0.5"), ("2000", "1")])
    elif q < 8:
        d = r.choice(["driver['time'].diff().dropna().dt.days", "(driver['time'].diff().dropna() / np.timedelta64(1, 'D'))", "driver['time'].diff().dt.days",
                      "(driver['time'].diff().dropna().dt.total_seconds() / 86400)", "(driver['time'].diff().dropna() // np.timedelta64(1, 'D'))", "(driver['year'].diff().dropna() % 3)"])
        x, x2 = r.choice([("31", "28"), ("30.5", "28"), ("365", "366")])
    else:
        d = "driver['time']"
        x, x2 = "driver['time'].iloc[0]", "driver['time'].iloc[-1]"
    return r.choice(TEXPR).format(d=d, c=c, x=x, x2=x2, i=i)


class Concrete:
    """Concrete values of stand-in results, from the facts of the path."""

    def __init__(self, c, src, N):
        self.c, self.src, self.N = c, src, N
        self.m = None

    def ev(self, t):
        if not z3.is_expr(t):
            t = bterm(t) if isinstance(t, bool) else t
        if self.m is None or self.pcn != len(self.c.pc):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*self.c.pc)
            if s.check() != z3.sat:
                raise Unsupported("no model of the path")
            self.m, self.pcn = s.model(), len(self.c.pc)
        return self.m.eval(t, model_completion=True)

    def truth(self, t):
        t = z3.simplify(bterm(t))
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.c.pc)
        a = s.check(t)
        b = s.check(z3.Not(t))
        if z3.unknown in (a, b):
            raise Unsupported("truth value not computed")
        if a == b:
            raise Unsupported("truth value not determined")
        return a == z3.sat

    def __call__(self, x):
        if isinstance(x, S.TimeSeries):
            n = self(x.n)
            return [None if i < x.head else self(x.fn(z3.IntVal(i))) for i in range(n)]
        if isinstance(x, S.Frame):
            return [self(x._rows[0].values)]
        if isinstance(x, S.Series):
            at = [self(SInt(x.times.at(z3.IntVal(j)))) for j in range(self(x.times.n))]
            return [at, self(x.values)]
        if type(x) is S.TimeVal:
            return self(SInt(x.t))
        if type(x) is S.SymStr:
            return x.tag
        if isinstance(x, SArray):
            n = self(x.n)
            return [self(x.fn(z3.IntVal(i))) for i in range(n)]
        if isinstance(x, SBool):
            return self.truth(x.t)
        if isinstance(x, SInt):
            return self.ev(x.t).as_long()
        if isinstance(x, SReal):
            if x.nan is not None and self.truth(bterm(x.nan)):
                return None
            return float(self.ev(x.t).as_fraction())
        if isinstance(x, (tuple, list)):
            return [self(y) for y in x]
        if x is None or isinstance(x, (str, bool, int, float)):
            return x
        return real(x)


def real(x, axis=None):
    """Comparable form of a pandas/numpy result."""
    if isinstance(x, pd.DataFrame):
        return [real(x.iloc[0].values)]
    if isinstance(x, pd.Series):
        if axis is not None and x.name is not None and isinstance(x.name, tuple):
            return [[axis[t] for t in x.index], real(x.values)]
        return [real(v) for v in x]
    if isinstance(x, (pd.Index, list, tuple, np.ndarray)):
        return [real(v, axis) for v in x]
    if x is pd.NaT or isinstance(x, (float, np.floating)) and math.isnan(x):
        return None
    if isinstance(x, pd.Timestamp):
        return x.value
    if isinstance(x, datetime.datetime):
        return pd.Timestamp(x).value
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return None if np.isnat(x) else int(x.astype(x.dtype.str[:3] + "[ns]").astype(int))
    if isinstance(x, (pd.Timedelta,)):
        return x.value
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def run_real(src, times, rows, units):
    df = pd.DataFrame(rows, columns=times)
    idx = {"variable": [DV] * len(rows), "region": ["World"] * len(rows), "scenario": ["s%d" % i for i in range(len(rows))], "model": ["m"] * len(rows),
           "unit": units, "vc_other": [0] * len(rows)}
    df.index = pd.MultiIndex.from_arrays(list(idx.values()), names=list(idx))
    driver = scmdata.ScmRun(df).filter(variable=DV, region="World")
    tab = driver.timeseries()
    axis = {t: i for i, t in enumerate(tab.columns)}
    order = [int(s[1:]) for s in tab.index.get_level_values("scenario")]
    return driver, tab, axis, order


def main(secs):
    t0, n, bad, refused, done = time.time(), 0, 0, collections.Counter(), 0
    while time.time() - t0 < secs:
        times, rows, units = table(R)
        driver, tab, axis, order = run_real(None, times, rows, units)
        rows, units = [rows[i] for i in order], [units[i] for i in order]
        if list(tab.columns) != times:
            continue
        T, N = len(times), len(rows)
        for _ in range(12):
            k = R.randrange(N)
            src_ = expr(R, T, N)
            e = {"np": np, "pd": pd, "driver": driver, "tab": tab, "row": tab.iloc[k], "common": tab.dropna(axis="columns"), "label": str, "DV": DV}
            try:
                want = ("ok", real(eval(src_, dict(e)), axis))
            except (IndexError, ValueError, TypeError, ZeroDivisionError, KeyError, AttributeError) as x:
                want = ("raise", "TypeError" if isinstance(x, TypeError) else type(x).__name__)
            got = []
            t = engine.TaskRun("conformance", "quick", deadline=time.time() + 20)

            def f(c):
                s = S.Source(c)
                c.require(iterm(s.T) == T)
                conds = frozenset([("variable", DV, True), ("region", "World", True)])
                c.require(iterm(s.count(conds)) == N)
                for j, x in enumerate(times):
                    c.require(s.time(j) == pd.Timestamp(x).value)
                    c.require(s.year(j) == x.year)
                for i, v in enumerate(rows):
                    r = s.row(conds, z3.IntVal(i))
                    pos = [j for j, x in enumerate(v) if x == x]
                    c.require(iterm(r["n"]) == len(pos))
                    for j, x in enumerate(v):
                        c.require(r["present"](z3.IntVal(j)) == z3.BoolVal(x == x))
                        if x == x:
                            c.require(r["V"](z3.IntVal(j)) == z3.RealVal(str(x)))
                    for q, j in enumerate(pos):
                        c.require(r["times"].at(z3.IntVal(q)) == j)
                if "common" in src_:
                    comm = [j for j in range(T) if all(v[j] == v[j] for v in rows)]
                d = S.Run(s).filter(variable=DV, region="World")
                con = Concrete(c, s, N)

                def label(x):
                    col, i = x.tag.split(" of row")
                    return units[int(i)] if col == "unit" else "s%d" % order[int(i)]
                with S.environment():
                    e = {"np": NP, "pd": S.PdProxy(), "driver": d, "label": label, "DV": DV}
                    e.update(loader.SHADOW)
                    try:
                        e["tab"] = d.timeseries()
                        e["row"] = e["tab"].iloc[k]
                        if "common" in src_:
                            e["common"] = e["tab"].dropna(axis="columns")
                            nc, at = e["common"].common
                            c.require(iterm(nc) == len(comm))
                            for q, j in enumerate(comm):
                                c.require(at(z3.IntVal(q)) == j)
                        got.append(("ok", con(eval(src_, e))))
                    except Unsupported as u:
                        got.append(("unsupported", str(u)))
                    except (IndexError, ValueError, TypeError, ZeroDivisionError, KeyError) as x:
                        got.append(("raise", type(x).__name__))
            t.explore(f)
            n += 1
            for u in t.unsupported:
                refused[u.split(" (at")[0]] += 1
            for g in got:
                if g[0] == "unsupported":
                    refused[g[1]] += 1
                    continue
                done += 1
                if g[0] != want[0] or g[0] == "raise" and g != want or g[0] == "ok" and not same(g[1], want[1]):
                    bad += 1
                    print("MISMATCH", src_, [str(x)[:10] for x in times], rows, "row", k, "real:", want, "stand-in:", g)
    print("%d expressions, %d compared, %d mismatches, refused: %s" % (n, done, bad, dict(refused.most_common(25))))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(float(sys.argv[1]) if len(sys.argv) > 1 else 30))
