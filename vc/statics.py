"""Module-, class- and function-level state of the repository package.

Contracts start from the state right after import.  That is every state the
package can ever be in only if no function changes it, so each path of each
contract carries the obligation that it does not; afterwards the state is put
back, so that paths stay independent of each other."""
import functools
import sys
import types

import numpy as np

from .sym import SArray

PKG = None
_CACHES = (type(functools.lru_cache()(lambda: 0)),)


def modules():
    from .loader import PKG as pkg
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == pkg or n.startswith(pkg + ".")) and not n.endswith("_version")]


def own(v):
    from .loader import PKG as pkg
    return (getattr(v, "__module__", None) or "").split(".")[0] == pkg


class Snap:
    def __init__(self):
        self.seen, self.undo, self.rows = set(), [], []
        self.keep = []
        for m in modules():
            self.names(m.__name__, m.__dict__, setattr, m)

    def names(self, path, d, setter, owner):
        d = dict(d)
        self.rows.append((path, "names", tuple(sorted(k for k in d if not k.startswith("__") and not k.startswith("_abc_")))))

        def back(owner=owner, d=d):
            now = dict(owner.__dict__)
            for k in now:
                if k not in d and not k.startswith("__"):
                    delattr(owner, k)
            for k, v in d.items():
                if now.get(k) is not v and not k.startswith("__"):
                    setter(owner, k, v)
        self.undo.append(back)
        for k, v in sorted(d.items(), key=lambda kv: kv[0]):
            if k.startswith("__") and k.endswith("__") or k.startswith("_abc_"):
                continue
            self.visit("%s.%s" % (path, k), v)

    def visit(self, path, v):
        self.rows.append((path, "is", id(v)))
        self.keep.append(v)
        if id(v) in self.seen or isinstance(v, types.ModuleType):
            return
        self.seen.add(id(v))
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if type(v) is property:
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self.visit(path, f)
        elif isinstance(v, functools.cached_property):
            self.visit(path, v.func)
        elif isinstance(v, _CACHES):
            i = v.cache_info()
            self.rows.append((path, "cached results", i.currsize))
            self.undo.append(v.cache_clear)
            self.visit(path, getattr(v, "__wrapped__", None))
        elif isinstance(v, types.FunctionType):
            if not own(v):
                return
            for what, x in (("default", v.__defaults__ or ()), ("default", tuple((v.__kwdefaults__ or {}).values()))):
                for y in x:
                    self.visit(path + " " + what, y)
            self.visit(path + " attributes", v.__dict__)
            for cell in v.__closure__ or ():
                try:
                    x = cell.cell_contents
                except ValueError:
                    continue
                self.visit(path + " closure", x)

                def back(cell=cell, x=x):
                    cell.cell_contents = x
                self.undo.append(back)
        elif isinstance(v, type):
            if own(v):
                self.names(path, v.__dict__, setattr, v)
        elif isinstance(v, dict):
            old = dict(v)
            self.rows.append((path, "entries", tuple((id(k) if not isinstance(k, (str, int, float)) else k, id(x)) for k, x in old.items())))
            self.undo.append(lambda v=v, old=old: (v.clear(), v.update(old)))
            for k, x in old.items():
                self.visit(path + "[...]", x)
        elif isinstance(v, list):
            old = list(v)
            self.rows.append((path, "items", tuple(id(x) for x in old)))
            self.undo.append(lambda v=v, old=old: v.__setitem__(slice(None), old))
            for x in old:
                self.visit(path + "[...]", x)
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.visit(path + "[...]", x)
        elif isinstance(v, set):
            old = set(v)
            self.keep.append(old)
            self.rows.append((path, "items", tuple(sorted(id(x) for x in old))))
            self.undo.append(lambda v=v, old=old: (v.clear(), v.update(old)))
        elif isinstance(v, np.ndarray):
            old = v.copy()
            self.rows.append((path, "values", old.tobytes()))
            if v.flags.writeable:
                self.undo.append(lambda v=v, old=old: v.__setitem__(Ellipsis, old))
        elif isinstance(v, SArray):
            self.rows.append((path, "version", v.version))
        elif hasattr(v, "_magnitude") and hasattr(v, "_units"):
            m, u = v._magnitude, v._units
            self.rows.append((path, "quantity", (id(m), id(u))))
            self.keep += [m, u]

            def back(v=v, m=m, u=u):
                v._magnitude, v._units = m, u
            self.undo.append(back)
            if isinstance(m, np.ndarray):
                self.visit(path + ".magnitude", m)
        elif own(type(v)) and hasattr(v, "__dict__"):
            self.visit(path + " attributes", v.__dict__)
        elif isinstance(v, (types.MappingProxyType,)) or type(v).__module__ in ("collections", "weakref", "itertools"):
            try:
                if hasattr(v, "items"):
                    old = dict(v)
                    self.rows.append((path, "entries", tuple(id(x) for x in old.values())))
                    self.keep.append(old)
                elif hasattr(v, "__len__"):
                    self.rows.append((path, "items", tuple(id(x) for x in v)))
                else:
                    self.rows.append((path, "state", repr(v)))
            except Exception:
                pass

    def changed(self):
        """Names of what differs now."""
        now = Snap()
        if now.rows == self.rows:
            return []
        a, b = {}, {}
        for rows, d in ((self.rows, a), (now.rows, b)):
            for p, w, x in rows:
                d.setdefault((p, w), []).append(x)
        return sorted({"%s %s" % k for k in set(a) | set(b) if a.get(k) != b.get(k)})

    def restore(self):
        for f in self.undo:
            try:
                f()
            except Exception:
                pass
