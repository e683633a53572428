"""Mechanical loop instrumentation of the repository's source (done in memory on every run).

What runs is the parsed source with exactly these rewrites, in functions only:

1. ``for T in X: B`` becomes
       it = __vc_for__(X, ...)
       for T in it:
           if it.cut: <locals> = it.begin(locals())
           B
       else: if it.cut: <locals> = it.end(locals())
2. ``while C: B`` (without else) becomes the same over an endless iterator, with
   ``if not (C): break`` before B.
3. a list comprehension or generator expression with one ``for`` becomes
   ``__vc_comp__(X, element function, condition function, is list, ...)``.  Over
   something symbolic it is the sequence given by the element function; a list
   comprehension which calls methods of ``self`` is the loop appending to a list.

When nothing is symbolic (``it.cut`` is false) each form executes as the
original does.  When a loop contract applies, ``begin``/``end`` set the local
variables that the loop carries to their values at an arbitrary iteration.
"""
import ast
import builtins
import importlib.machinery
import importlib.util
import itertools
import sys

import z3

from . import sym
from .engine import Restart, eqv
from .sym import SArray, SBool, SInt, SReal, Unsupported, bterm, iterm, lift

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(nodes):
    """Nodes of this scope only (not those of nested functions, classes or comprehensions)."""
    stack = list(nodes)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, SCOPES):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


def stores(nodes):
    out = set()
    for n in own(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def loads(nodes):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def consts(xs):
    return ast.Tuple(elts=[ast.Constant(x) for x in sorted(xs)], ctx=ast.Load())


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.k = 0

    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        params |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        declared = {n for x in own(f.body) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f.body))
        self.fn.append((f, params, declared, gen))
        f.body = [self.visit(s) for s in f.body]
        f.body = [y for s in f.body for y in (s if isinstance(s, list) else [s])]
        self.fn.pop()
        return f

    def visit_ClassDef(self, n):
        keep, self.fn = self.fn, []
        self.generic_visit(n)
        self.fn = keep
        return n

    def visit_Lambda(self, n):
        return n

    def _names(self, node):
        f, params, declared, _ = self.fn[-1]
        inside = [node.target] if isinstance(node, ast.For) else []
        body = node.body + node.orelse + ([node.test] if isinstance(node, ast.While) else [])
        within = set()
        for n in own([node]):
            within.add(id(n))
        outside = set(params)
        for n in own(f.body):
            if id(n) not in within:
                outside |= {n.id} if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else set()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    outside.add(n.name)
        target = stores(inside)
        st = stores(body)
        carried = (st & outside) - declared
        loaded = ((loads(body) & outside) - carried - declared - {"self", "cls"})
        private = st - outside - declared
        return carried, loaded - target, private, target

    def _loop(self, node):
        carried, loaded, private, target = self._names(node)
        if isinstance(node, ast.For):
            node.iter = self.visit(node.iter)
        else:
            test = node.test
        calls = {n.func.attr for b in node.body for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        body = [y for s in node.body for y in self._list(self.visit(s))]
        orelse = [y for s in node.orelse for y in self._list(self.visit(s))]
        self.k += 1
        it = "__vc_it%d" % self.k
        names = sorted((carried | loaded | private) - target)
        meta = [consts(carried - target), consts(loaded), consts(private - target), consts(calls), ast.Constant(node.lineno), ast.Constant(self.fn[-1][0].name)]

        def assign(meth):
            if not names:
                return []
            tgt = ast.Tuple(elts=[name(n, ast.Store()) for n in names], ctx=ast.Store())
            return [ast.If(test=ast.Attribute(value=name(it), attr="cut", ctx=ast.Load()),
                           body=[ast.Assign(targets=[tgt], value=call(ast.Attribute(value=name(it), attr=meth, ctx=ast.Load()),
                                                                         call(name("locals"))))], orelse=[])]
        if isinstance(node, ast.For):
            pre = ast.Assign(targets=[name(it, ast.Store())], value=call(name("__vc_for__"), node.iter, *meta))
            new = ast.For(target=node.target, iter=name(it), body=assign("begin") + body, orelse=assign("end") + orelse)
        else:
            simple = not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(test))
            noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            probe = ast.Lambda(args=noargs, body=test) if simple else ast.Constant(None)
            import copy
            pre = ast.Assign(targets=[name(it, ast.Store())], value=call(name("__vc_while__"), copy.deepcopy(probe), *meta))
            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.visit(test)),
                          body=[ast.Expr(call(ast.Attribute(value=name(it), attr="leave", ctx=ast.Load()))), ast.Break()], orelse=[])
            new = ast.For(target=name(it + "_k", ast.Store()), iter=name(it), body=assign("begin") + [stop] + body, orelse=[])
        out = [pre, new]
        for o in out:
            ast.copy_location(o, node)
            for n in ast.walk(o):
                if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                    ast.copy_location(n, node)
        return out

    @staticmethod
    def _list(x):
        return x if isinstance(x, list) else [x]

    def visit_For(self, node):
        if not self.fn or self.fn[-1][3]:
            return self.generic_visit(node)
        return self._loop(node)

    def visit_While(self, node):
        if not self.fn or self.fn[-1][3] or node.orelse:
            return self.generic_visit(node)
        return self._loop(node)

    def _comp(self, node, lst):
        self.generic_visit(node)
        if not self.fn or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(node)):
            return node

        def over(expr):
            import copy
            one = ast.comprehension(target=copy.deepcopy(g.target), iter=ast.Tuple(elts=[name("__vc_x")], ctx=ast.Load()), ifs=[], is_async=0)
            body = ast.Subscript(value=ast.ListComp(elt=expr, generators=[one]), slice=ast.Constant(0), ctx=ast.Load())
            args = ast.arguments(posonlyargs=[], args=[ast.arg(arg="__vc_x")], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(args=args, body=body)

        cond = ast.Constant(None)
        if g.ifs:
            cond = over(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        calls = {n.func.attr for n in ast.walk(node.elt) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                 and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
        new = call(name("__vc_comp__"), g.iter, over(node.elt), cond, ast.Constant(lst), consts(calls), ast.Constant(node.lineno), ast.Constant(self.fn[-1][0].name))
        ast.copy_location(new, node)
        for n in ast.walk(new):
            if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr, ast.arg)):
                ast.copy_location(n, node)
        return new

    def visit_ListComp(self, node):
        return self._comp(node, True)

    def visit_GeneratorExp(self, node):
        return self._comp(node, False)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):  # never from or to a bytecode cache
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Loops().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)


class Finder:
    """Meta path finder for the repository package only."""

    def __init__(self, src, pkg):
        self.src, self.pkg = src, pkg

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != self.pkg or fullname.endswith("._version"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [self.src])
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        return importlib.util.spec_from_file_location(fullname, spec.origin, loader=Loader(fullname, spec.origin),
                                                      submodule_search_locations=spec.submodule_search_locations)


# -- run time -----------------------------------------------------------------------

class Plain:
    cut = False

    def __init__(self, it):
        self.__iter = iter(it)
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.__iter)


class PlainWhile:
    """A while loop without a contract: executed as it is."""
    cut = False

    def __init__(self):
        self.k = 0

    def __iter__(self):
        return self

    def leave(self):
        pass

    def __next__(self):
        self.k += 1
        c = sym.CUR
        if c is not None:
            if self.k == 1:
                self.depth = len(c.taken)
            elif self.k > 12 and len(c.taken) > self.depth + 8:
                raise Unsupported("while loop without a contract")
        return self.k


class Info:
    """What a loop may change: see Loops._names."""

    def __init__(self, carried, loaded, private, calls, line, fn):
        self.carried, self.loaded, self.private, self.calls, self.line, self.fn = carried, loaded, private, set(calls), line, fn
        self.names = sorted(set(carried) | set(loaded) | set(private))


class Poison:
    """A local variable without a known value at this point."""

    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def _no(self, *a, **k):
        raise Unsupported("local variable %r from an earlier iteration" % object.__getattribute__(self, "_n"))

    def __getattribute__(self, k):
        if k == "__class__":
            return Poison
        return object.__getattribute__(self, "_no")()

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __call__ = __neg__ = _no
    __contains__ = __index__ = __int__ = __float__ = __str__ = __repr__ = __format__ = __pow__ = __rpow__ = __enter__ = _no
    __hash__ = None


def v_for(x, *meta):
    it = iter(x)
    from .loader import SymIter
    if type(it) is SymIter:
        it.info = Info(*meta)
        return it
    return Plain(it)


def v_while(probe, *meta):
    c = sym.CUR
    if c is None or not c.loop_policies:
        return PlainWhile()
    info = Info(*meta)
    fr = sys._getframe(1)
    from .loader import SymIter
    for p in reversed(c.loop_policies):
        if p.matches_while(fr, info, probe):
            it = SymIter(None, fr)
            it.info, it.policy, it.n, it.is_while, it.cut = info, p, p.while_n(), True, True
            return it
    return PlainWhile()


class CompFrame:
    """Stands for the frame of a list comprehension executed as a loop."""

    def __init__(self, fr, env):
        self.f_locals, self.f_globals, self.f_code = env, fr.f_globals, fr.f_code


def comp_loop(seq, f, info):
    """A list comprehension calling methods of the model: the loop which appends to a list."""
    from .loader import SymIter
    c = sym.CUR
    env = {"result": []}
    fr = CompFrame(sys._getframe(2), env)
    pol = next((p for p in reversed(c.loop_policies) if p.matches(fr, seq)), None) if c is not None else None
    if pol is None or not getattr(pol, "comprehensions", False):
        return None
    it = SymIter(seq, fr)
    it.info, it.policy, it.cut = info, pol, True
    while True:
        try:
            x = pol.next(it, fr)
        except StopIteration:
            break
        env["result"], = pol.begin(it, env)
        env["result"].append(f(x))
    env["result"], = pol.end(it, env)
    return env["result"]


def v_comp(x, f, cond, lst, calls=(), line=0, fn=""):
    from .loader import as_seq, is_symseq, SymSeq
    if is_symseq(x):
        s = as_seq(x)
        if lst and calls and cond is None:
            out = comp_loop(s, f, Info((), ("result",), (), calls, line, fn))
            if out is not None:
                return out
        if cond is not None:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        return SymSeq(s.n, lambda k: f(s.get(k)))
    if lst:
        return [f(v) for v in x if cond is None or cond(v)]
    it = iter(x)
    return (f(v) for v in it if cond is None or cond(v))


# -- local variables carried by a loop -------------------------------------------------

class Carried:
    """Local variables at iteration k, by a guessed and then verified invariant.

    Each variable has a list of candidate invariants (a function of k).  The
    first that agrees at entry is assumed; if the loop body does not preserve
    it, the task starts again with the next one; with none left the loop is
    out of reach."""

    def __init__(self, c, info, entry, specs=()):
        self.c, self.info, self.entry, self.specs = c, info, dict(entry), list(specs)
        self.tab = c.run.candidates

    def key(self, n):
        return (self.info.fn, self.info.line, n)

    def cands(self, n):
        if n not in self.entry:
            return [("poison", lambda k: Poison(n))]
        v = self.entry[n]
        out = []
        num = isinstance(v, (int, SInt)) and not isinstance(v, bool)
        if num:
            out.append(("entry value + k", lambda k: SInt(z3.simplify(iterm(v) + k)) if not z3.is_int_value(z3.simplify(iterm(v) + k))
                        else z3.simplify(iterm(v) + k).as_long()))
        out.append(("unchanged", lambda k: v))
        if num:
            out.append(("entry value - k", lambda k: SInt(z3.simplify(iterm(v) - k))))
        if isinstance(v, bool):
            out.append(("entry value first, then the opposite", lambda k: v if z3.is_int_value(k) and k.as_long() == 0 else not v))
        if not isinstance(v, (str, tuple, list, dict)) and (lift(v) is not None and not isinstance(v, bool)) or v is None:
            for label, f in self.specs:
                if v is None or label.endswith("before"):
                    out.append((label + ", entry value first", lambda k, f=f: v if z3.is_int_value(k) and k.as_long() == 0 else f(k)))
                if v is not None:
                    out.append((label, f))
        return out

    def value(self, n, k):
        cs = self.cands(n)
        i = self.tab.get(self.key(n), 0)
        if i >= len(cs):
            raise Unsupported("loop-carried local variable %r" % n)
        return cs[i][1](z3.simplify(k))

    def check(self, n, k, now, when):
        """The value at iteration k is the candidate's."""
        c = self.c
        k = z3.simplify(k)
        want = self.value(n, k)
        if now is want:
            return
        ok = False
        try:
            goal = bterm(eqv(now, want))
            ok = c.P.prove(list(c.pc), goal, c.rewrites)[0] == "discharged"
        except (Unsupported, AttributeError, TypeError):
            ok = type(now) is type(want) and isinstance(now, (bool, int, float, str, type(None))) and now == want
            goal = z3.BoolVal(ok)
        if not ok:
            i = self.tab.get(self.key(n), 0) + 1
            if i >= len(self.cands(n)):
                raise Unsupported("loop-carried local variable %r" % n)
            self.tab[self.key(n)] = i
            raise Restart()
        c.ensure("loop invariant (%s): local %s is %s" % (when, n, self.cands(n)[self.tab.get(self.key(n), 0)][0]), goal, "loop invariant")


class AccList(list):
    """A list collected by the scenario loop.

    Holds what was there at loop entry and what the verified iterations
    appended; its length is the real one (symbolic)."""

    def __init__(self, loop, items, base):
        list.__init__(self, items)
        self.loop, self.base = loop, base
        self.per = 0
        self.mark = len(items)
        self.k = z3.IntVal(0)
        self.done = False
        self.at = [z3.IntVal(j) for j in range(base)]  # real position of each held item

    def twin(self, items, at):
        t = AccList(self.loop, [], self.base)
        list.extend(t, items)
        t.per, t.mark, t.k, t.done, t.at = self.per, self.mark, self.k, self.done, list(at)
        self.loop.lists.append(t)
        return t

    def start(self, k):
        self.k = z3.simplify(k)
        self.mark = list.__len__(self)

    def finish(self, first):
        got = list.__len__(self) - self.mark
        if first:
            self.per = got
        elif got != self.per:
            raise Unsupported("list grows by a varying number of items per scenario")

    def close(self, n):
        self.k, self.done = z3.simplify(n), True
        self.mark = list.__len__(self)

    def _size(self):
        return z3.simplify(self.base + self.per * self.k + (list.__len__(self) - self.mark))

    def _known(self):
        return self.done or z3.is_int_value(self.k) and self.k.as_long() == 0

    def __symlen__(self):
        t = self._size()
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def __bool__(self):
        t = self._size()
        return sym.ctx().branch(t >= 1)

    def append(self, x):
        self.at.append(self._size())
        list.append(self, x)

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        t = self.twin(list.__iter__(self), self.at)
        t.extend(xs)
        return t

    def __iter__(self):
        if not self._known():
            raise Unsupported("iteration over a list still being collected")
        return list.__iter__(self)

    def enumerated(self, start):
        self.__iter__()
        out = []
        for p, x in zip(self.at, list.__iter__(self)):
            t = z3.simplify(p + iterm(start))
            out.append((t.as_long() if z3.is_int_value(t) else SInt(t), x))
        return iter(out)

    def __getitem__(self, i):
        if isinstance(i, int):
            if i == 0 and list.__len__(self):
                return list.__getitem__(self, 0)
            if i == -1 and (self._known() or list.__len__(self) > self.mark):
                return list.__getitem__(self, -1)
            if self._known() and self.loop.n is not None and z3.is_int_value(z3.simplify(self.loop.n)):
                return list.__getitem__(self, i)
        if isinstance(i, slice) and self.done and i.step in (None, 1) and i.start in (None, 0, 1) and i.stop is None:
            lo = i.start or 0
            return list(list.__iter__(self))[lo:]
        raise Unsupported("element of a list collected by the scenario loop")

    def _no(self, *a, **k):
        raise Unsupported("operation on a list collected by the scenario loop")

    def copy(self):
        return self.twin(list.__iter__(self), self.at)

    insert = sort = reverse = pop = remove = index = count = clear = __contains__ = __eq__ = __ne__ = __setitem__ = __delitem__ = _no
    __mul__ = __rmul__ = __reversed__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __hash__ = None
