"""Fresh copies of the dxss modules, run from /repo's source under stand-ins."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

from .core import ENV, PathAbort, Unsupported
from . import shims

REPO = os.environ.get("DXSS_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "dxss")

_code = {}


def compiled(path, constants=None):
    """`constants`: values for module-level NAME = <literal> (settings that users edit)."""
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size, tuple(sorted((constants or {}).items())))
    if k not in _code:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        left = dict(constants or {})
        for node in tree.body:
            t = node.targets if isinstance(node, ast.Assign) else [
                node.target] if isinstance(node, ast.AnnAssign) else []
            if len(t) != 1:
                continue
            if isinstance(t[0], ast.Name):
                pairs = [(t[0], node, "value", None)]
            elif isinstance(t[0], ast.Tuple) and isinstance(node.value, ast.Tuple) \
                    and len(t[0].elts) == len(node.value.elts):
                pairs = [(n, node.value, "elts", i) for i, n in enumerate(t[0].elts)]
            else:
                continue
            for n, at, field, i in pairs:
                v = getattr(at, field) if i is None else getattr(at, field)[i]
                if isinstance(n, ast.Name) and n.id in left and isinstance(v, ast.Constant):
                    new = ast.copy_location(ast.Constant(left.pop(n.id)), v)
                    if i is None:
                        setattr(at, field, new)
                    else:
                        getattr(at, field)[i] = new
        if left:
            print(f"note: skipped, {os.path.basename(path)} has no setting {', '.join(left)}", file=sys.stderr)
            raise PathAbort("no such setting")
        _code[k] = compile(tree, path, "exec", dont_inherit=True)
    return _code[k]


class MissingModule(ImportError):
    pass


class Loader:
    """`standins`: full module name -> module; None means 'not installed'."""

    def __init__(self, standins, main=None, constants=None):
        env = ENV()
        self.env = env
        self.mode = env.mode
        self.standins = dict(standins)
        if self.mode == "sym":
            self.standins.setdefault("numpy", shims.make_numpy())
            self.standins.setdefault("math", shims.make_math())
        self.roots = {n.split(".")[0] for n in self.standins}
        self.main, self.constants = main, constants or {}
        self.modules = {}
        self.begun = {}
        self.output = []
        self.builtins = shims.make_builtins(self.imp, self.mode, self.output)

    # ------------------------------------------------------------
    def get(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == "dxss":
            path = os.path.join(PKG, "__init__.py")
        elif name.startswith("dxss."):
            rel = name[5:].replace(".", os.sep)
            path = os.path.join(PKG, rel + ".py")
            if not os.path.exists(path):
                path = os.path.join(PKG, rel, "__init__.py")
        else:
            raise MissingModule(name)
        if not os.path.exists(path):
            e = ModuleNotFoundError(f"No module named {name!r}")
            e.name = name
            raise e
        if "." in name:
            parent = self.get(name.rpartition(".")[0])
        else:
            parent = None
        m = types.ModuleType(name)
        m.__file__ = path
        if name == self.main:
            m.__dict__["__name__"] = "__main__"
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = self.begun[name] = m
        old = sys.modules.get(name)
        sys.modules[name] = m
        try:
            exec(compiled(path, self.constants.get(name)), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def lookup(self, name):
        """A module by absolute name for the code under test."""
        root = name.split(".")[0]
        if root == "dxss":
            return self.get(name)
        if root in self.roots or name in self.standins:
            if name in self.standins:
                m = self.standins[name]
                if m is None:
                    e = ModuleNotFoundError(f"No module named {name!r}")
                    e.name = name
                    raise e
                return m
            if root in self.standins and self.standins[root] is None:
                e = ModuleNotFoundError(f"No module named {name!r}")
                e.name = name
                raise e
            if root == "numpy" or root in ("math", "importlib"):
                return None
            raise Unsupported(f"module {name} is not modelled")
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        m = self.lookup(name)
        if m is None:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if fromlist:
            for f in fromlist:
                if name.split(".")[0] == "dxss" and f != "*" and not hasattr(m, f):
                    try:
                        self.get(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
                elif f"{name}.{f}" in self.standins and self.standins[f"{name}.{f}"] is not None \
                        and f not in m.__dict__:
                    setattr(m, f, self.standins[f"{name}.{f}"])
            return m
        top = name.split(".")[0]
        return self.lookup(top) or builtins.__import__(top)


def fem_standins(pypardiso=False, rank=0, extra=None, version="0.6.0"):
    from .fakes import dolfinx, gmsh, misc, petsc, ufl

    s = {"ufl": ufl.make()}
    s.update(dolfinx.make())
    s.update(petsc.make())
    s.update(misc.make_mpi(rank))
    s.update(misc.make_dxh())
    s.update(misc.make_matplotlib())
    s.update(misc.make_sparse())
    s.update(gmsh.make(rank, version))
    gmsh.extend_dolfinx(s)
    if pypardiso:
        s.update(misc.make_pypardiso())
    else:
        s["pypardiso"] = None
    s.update(extra or {})
    return s


def load(*names, standins=None, main=None, constants=None, **k):
    ld = Loader(standins if standins is not None else fem_standins(**k), main, constants)
    out = [ld.get(n if n.startswith("dxss") else "dxss." + n) for n in names]
    return (ld, *out)
