"""Differential test of the trusted numpy rules: vc's arrays against numpy on random concrete values.

    python tools/conformance.py [seconds]

Every expression is evaluated twice, on numpy arrays and on vc arrays holding
the same numbers; values, NaN positions, lengths, exceptions and effects on
the operands have to agree.  A rule that refuses (Unsupported) is no mismatch;
it is counted."""
import collections, math, os, random, sys, time, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import vc  # noqa
import z3
from vc import engine, sym, npsym
from vc import loader
from vc.sym import SArray, SBool, SInt, SReal, Unsupported

NP = npsym.NpProxy(np)
R = random.Random(int(os.environ.get("VERIF_SEED", "1")))
NUMS = [0.0, 1.0, -1.0, 0.5, 2.0, -2.25, 3.0, math.nan, math.nan, 0.1]


def conc(x):
    """Concrete value of a vc result."""
    if isinstance(x, SArray):
        n = conc(x.n)
        return [conc(x.fn(z3.IntVal(i))) for i in range(n)]
    if isinstance(x, SBool):
        t = z3.simplify(x.t)
        if not (z3.is_true(t) or z3.is_false(t)):
            s = z3.Solver()
            s.add(x.t)
            return s.check() == z3.sat
        return z3.is_true(t)
    if isinstance(x, SInt):
        return z3.simplify(x.t).as_long()
    if isinstance(x, SReal):
        if x.nan is not None and z3.is_true(z3.simplify(x.nan)):
            return math.nan
        t = z3.simplify(x.t)
        return float(t.numerator_as_long()) / float(t.denominator_as_long())
    if isinstance(x, (tuple, list)):
        return [conc(y) for y in x]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.ndarray):
        return [conc(y) for y in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


UN = ["negative", "positive", "absolute", "square", "isnan", "isfinite", "fabs"]
BIN = ["add", "subtract", "multiply", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
OPS = ["+", "-", "*", "==", "!=", "<", "<=", ">", ">="]
AUG = ["+=", "-=", "*="]


def expr(r):
    n = r.choice([0, 1, 2, 3, 4, 6])
    env = {"A": [r.choice(NUMS) for _ in range(n)], "B": [r.choice(NUMS) for _ in range(n if r.random() < .9 else n + 1)],
           "x": r.choice(NUMS), "y": r.choice(NUMS), "i": r.randint(-n - 1, n + 1), "j": r.randint(-n - 1, n + 1)}
    k = r.randrange(20)
    op = r.choice(OPS)
    src = [
        lambda: "np.%s(A)" % r.choice(UN), lambda: "np.%s(A, B)" % r.choice(BIN), lambda: "np.%s(A, x)" % r.choice(BIN), lambda: "np.%s(x, A)" % r.choice(BIN),
        lambda: "A %s B" % op, lambda: "A %s x" % op, lambda: "x %s A" % op, lambda: "A[i]", lambda: "A[i:j]", lambda: "A[%s]" % r.choice(["1:", ":-1", ":", "-1:", ":2", "2:", "..."]),
        lambda: "np.isnan(A).%s()" % r.choice(["any", "all", "sum"]) + r.choice(["", " > 0", " == 0", " >= 1", " != 0"]),
        lambda: "np.%s(A %s x)" % (r.choice(["any", "all"]), r.choice(OPS[3:])),
        lambda: "np.%s(A) * np.nan" % r.choice(["zeros_like", "ones_like"]), lambda: "np.full_like(A, x)", lambda: "np.full(len_(A), x)",
        lambda: "np.where(A %s x, A, B)" % r.choice(OPS[3:]), lambda: "(~(A > x)) & (A < 2) | (A == B)", lambda: "np.array_equal(A, B)",
        lambda: "np.%s(A, B)" % r.choice(["maximum", "minimum", "isclose", "logical_and", "logical_or"]), lambda: "[v for v in A][-1:]",
        ][k]()
    if k in (10,) and "sum" in src and not src.endswith(tuple("01")):
        src = "bool_(%s)" % src
    stmt = None
    if r.random() < 0.35:
        c = r.choice(["x", "y"])
        src = r.choice([
            "np.isnan(%s)" % c, "np.%s(%s, %s)" % (r.choice(BIN), c, r.choice(["x", "y", "0", "1"])), "x %s y" % op, "x %s i" % op, "i %s j" % op, "i %s 1" % op,
            "%s(x, y)" % r.choice(["min", "max"]) if not (math.isnan(env["x"]) or math.isnan(env["y"])) else "x + y", "abs(%s)" % c, "-%s" % c, "x ** 2", "x ** 3", "y ** 0", "(x + y) * 2 - i", "x / 4", "float(i) + 0.5",
            "int(x > y)", "bool(x)", "not x", "x and y", "x or 7.5", "1 if i else 2", "i % 3", "i // 2", "isinstance(x, float)", "isinstance(i, int)",
            "np.zeros_like(A)[i]", "A[len(A) - 1]", "all(v == v for v in [x, y])", "any([x > 0, y > 0])", "np.logical_and(x > 0, y > 0)",
            "np.where(x > 0, x, y)", "np.maximum(x, y)", "np.sign(x) if False else x", "np.isclose(x, y)", "np.full(len(A), np.nan)", "A.size", "np.shape(A)", "A.ndim",
            "len(A[i:])", "A[i:][j:]", "A.copy()[i:j]", "[k for k in range(len(A))]", "list(zip(A, B))[:1]", "A.mean() if False else A", "(x > 0) == (y > 0)", "(x > 0) != 1", "(x > 0) + 1"])
        return env, None, src
    if r.random() < 0.35:
        stmt = r.choice(["A[i] = x", "A[i:j] = x", "A[:] = B", "A[1:] = B[1:]", "A[:] = x", "A %s B" % r.choice(AUG), "A %s x" % r.choice(AUG),
                         "C = A; C %s x" % r.choice(AUG), "C = A.copy(); C[i] = x", "C = A[1:]; A[i] = x", "C = A; C[i] = x"])
        if stmt.startswith("C") and r.random() < .7:
            src = "C"
    return env, stmt, src


def evaluate(env, stmt, src, np_, mk, num=lambda v: np.float64(v) if isinstance(v, float) else v, extra={}):
    e = {"np": np_, "A": mk(env["A"]), "B": mk(env["B"]), "x": num(env["x"]), "y": num(env["y"]), "i": num(env["i"]), "j": num(env["j"]),
         "len_": lambda a: a.shape[0], "bool_": bool}
    e.update(extra)
    try:
        if stmt:
            exec(stmt, e)
        out = eval(src, e)
        if type(out).__name__ == "Count":
            out = bool(out)
        return ("ok", conc(out), conc(e["A"]), conc(e["B"]))
    except Unsupported as u:
        return ("unsupported", str(u))
    except (IndexError, ValueError, TypeError, ZeroDivisionError) as x:
        return ("raise", type(x).__name__)


def main(secs):
    t0, n, bad, refused = time.time(), 0, 0, collections.Counter()
    while time.time() - t0 < secs:
        env, stmt, src = expr(R)
        want = evaluate(env, stmt, src, np, lambda v: np.array(v, dtype=float))
        got = []
        t = engine.TaskRun("conformance", "quick", deadline=time.time() + 20)

        def f(c):
            got.append(evaluate(env, stmt, src, NP, lambda v: SArray.of(v),
                                lambda v: SInt(z3.IntVal(v)) if isinstance(v, int) else SReal(*sym.lift(v)), loader.SHADOW))
        t.explore(f)
        n += 1
        if t.unsupported and not got:
            refused[t.unsupported[0].split(" (at")[0]] += 1
            continue
        for g in got:
            if g[0] == "unsupported":
                refused[g[1]] += 1
                continue
            if g[0] != want[0] or g[0] == "raise" and g != want or g[0] == "ok" and not all(map(same, g[1:], want[1:])):
                bad += 1
                print("MISMATCH", stmt, "|", src, env, "numpy:", want, "vc:", g)
    print("%d expressions, %d mismatches, refused: %s" % (n, bad, dict(refused.most_common(12))))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(float(sys.argv[1]) if len(sys.argv) > 1 else 30))
