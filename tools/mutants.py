"""Single-edit mutants of the repository: which survive its tests, and which of those no check reports.

    python3 tools/mutants.py -t OUT.json [-j N] [-f FILE]              run the tests on every mutant
    python3 tools/mutants.py -c OUT.json [-j N] [-o OUT2.json] [ids]   run the checks on those which survived
(scratch copies only)
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src/openscm_twolayermodel"
FILES = ["base.py", "two_layer_model.py", "impulse_response_model.py", "utils.py", "constants.py"]
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!=", ">="], ast.NotEq: ["=="]}


def sites(src):
    """(description, start, end, replacement) of every mutation of the source text."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            s, e = pos(n)
            yield "op", s, e, "(%s) %s (%s)" % (text(n.left), OPS[type(n.op)], text(n.right))
            yield "left", s, e, "(%s)" % text(n.left)
            yield "right", s, e, "(%s)" % text(n.right)
        elif isinstance(n, ast.UnaryOp):
            s, e = pos(n)
            yield "unary", s, e, "(%s)" % text(n.operand)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = pos(n)
            for o in CMP[type(n.ops[0])]:
                yield "cmp", s, e, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0]))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (bytes, type(None))):
            s, e = pos(n)
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1, 2 * v] if isinstance(v, int) else [v * 1.01, v * 2] if isinstance(v, float) else []):
                if w != v:
                    yield "const", s, e, repr(w)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            s, e = pos(n.test)
            yield "not", s, e, "(not (%s))" % text(n.test)
            yield "true", s, e, "True"
            yield "false", s, e, "False"
        elif isinstance(n, ast.Call):
            s, e = pos(n)
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name) or isinstance(n.func, ast.Attribute) and len(n.args) == 0:
                yield "uncall", s, e, "(%s)" % text(n.func.value)
            elif len(n.args) == 1:
                yield "uncall1", s, e, "(%s)" % text(n.args[0])
            if len(n.args) >= 2:
                x, y = pos(n.args[0]), pos(n.args[1])
                yield "swap", x[0], y[1], "%s, %s" % (text(n.args[1]), text(n.args[0]))
            for k in n.keywords:
                pass
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            s, e = pos(n.slice)
            yield "idx", s, e, "(%s) - 1" % text(n.slice) if not isinstance(n.slice, ast.Constant) or isinstance(n.slice.value, int) else text(n.slice)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and id(n) not in docs and n.col_offset > 0:
            s, e = pos(n)
            yield "delete", s, e, "pass"
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and not isinstance(n.value, ast.Constant):
            s, e = pos(n)
            yield "once", s, e, "%s = getattr(self, %r, None) if hasattr(self, %r) else %s" % (text(n.targets[0]), n.targets[0].attr, n.targets[0].attr, text(n.value))



def run_tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=d + "/src")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "tests", "--ignore=tests/regression",
                        "-k", "not heat_capacity_upper_no_setter and not heat_capacity_lower_no_setter"], cwd=d, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout[-300:]


ORDER = {"base.py": ["C15", "C14", "C13", "C11", "C12", "C09", "C06", "C10", "C08", "C07", "C04"],
         "two_layer_model.py": ["C01", "C02", "C08", "C06", "C10", "C11", "C18", "C13", "C12", "C09"],
         "impulse_response_model.py": ["C03", "C04", "C07", "C08", "C10", "C11", "C18", "C13", "C12", "C09"],
         "utils.py": ["C17"], "constants.py": ["C01", "C06", "C02", "C17", "C18"]}
ALL = ["C%02d" % i for i in range(1, 19)]


def one(job):
    i, f, what, s, e, new, src = job
    b = src.encode()
    old = b[s:e].decode()
    mut = (b[:s] + new.encode() + b[e:]).decode()
    rec = {"id": i, "file": f, "line": b[:s].count(b"\n") + 1, "what": what, "old": old, "new": new}
    try:
        ast.parse(mut)
    except SyntaxError:
        return None
    if ast.dump(ast.parse(mut)) == ast.dump(ast.parse(src)):
        return None
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        open(os.path.join(d, "repo", PKG, f), "w").write(mut)
        if not CHECK:
            rec["tests"] = run_tests(d + "/repo")[0]
            if rec["tests"] == 0:
                print("%-4d %s:%d %s  %r -> %r" % (i, f, rec["line"], what, old[:90], new[:90]), flush=True)
        else:
            rec["tests"] = 0
            os.makedirs(d + "/verif")
            for x in os.listdir(V):
                if x not in (".git", "seeded", "work", "evidence", "replays"):
                    subprocess.check_call(["cp", "-a", os.path.join(V, x), d + "/verif/"])
            rec["checks"] = {}
            for p in ORDER[f] + [p for p in ALL if p not in ORDER[f]]:
                r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "check.py", p], cwd=d + "/verif", capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
                rec["checks"][p] = [r.returncode, r.stdout[-300:]]
                if r.returncode == 1:
                    rec["caught"] = p
                    break
            print("%-4d %s:%d %s  %r -> %r   %s" % (i, f, rec["line"], what, old[:70], new[:70], rec.get("caught", "SURVIVES " + str(
                {p: c[1][-160:] for p, c in rec["checks"].items() if "not re-established" in c[1]}))), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec


if __name__ == "__main__":
    a, opt, ids = sys.argv[1:], {}, set()
    while a:
        x = a.pop(0)
        if x.startswith("-"):
            opt[x] = a.pop(0)
        else:
            ids.add(int(x))
    CHECK = "-c" in opt
    if CHECK:
        ids = ids or {r["id"] for r in json.load(open(opt["-c"])) if r["tests"] == 0}
    jobs, i = [], 0
    for f in FILES:
        src = open(os.path.join("/repo", PKG, f)).read()
        for m in sites(src):
            if (not CHECK or i in ids) and opt.get("-f", f) == f:
                jobs.append((i, f) + m + (src,))
            i += 1
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(opt.get("-j", 4))) as ex:
        res = [r for r in ex.map(one, jobs) if r]
    out = opt.get("-o") if CHECK else opt["-t"]
    if out:
        json.dump(res, open(out, "w"), indent=1)
    if CHECK:
        print("caught %d, survive %d" % (sum("caught" in r for r in res), sum("caught" not in r for r in res)))
    else:
        print("killed by the tests %d, survive %d" % (sum(r["tests"] != 0 for r in res), sum(r["tests"] == 0 for r in res)))
