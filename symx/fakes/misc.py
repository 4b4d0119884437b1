"""mpi4py, dxh, matplotlib, pypardiso, scipy.sparse stand-ins."""
from __future__ import annotations

import types
from fractions import Fraction

import numpy as np

from .. import shims
from ..core import ENV, Sym, Unsupported, is_number, refuse
from . import dolfinx as D
from . import ufl as U
from .dolfinx import Comm, Strict, _Mod
from .petsc import _Names


def make_mpi(rank=0):
    pkg = _Mod("mpi4py")
    pkg.__path__ = []
    M = _Mod("mpi4py.MPI")
    M.COMM_WORLD = Comm(rank)
    M.COMM_SELF = Comm(0)
    M.COMM_NULL = None
    M.SUM, M.MAX, M.MIN, M.PROD = "sum", "max", "min", "prod"
    M.IN_PLACE = "in place"
    M.Comm = M.Intracomm = Comm
    M.Wtime = lambda: 0.0
    pkg.MPI = M
    return {"mpi4py": pkg, "mpi4py.MPI": M}


# ------------------------------------------------------------- dxh
def evaluate_function_at_points(function, points, *a, **k):
    """Value of a discrete function at points: linear in its coefficients."""
    env = ENV()
    pts = points
    root = function._root
    cs = function._comps()
    if len(cs) != 1:
        raise Unsupported("evaluation of a blocked function")
    if getattr(pts, "ndim", 0) != 2 or pts.shape[1] != 3:
        raise refuse(ValueError, "points must have shape (n, 3)")
    vals = []
    for r in range(pts.shape[0]):
        p = [pts[r, d] for d in range(3)]
        t = 0
        for i, dof in enumerate(root.dofs[cs[0]]):
            w = env.uf(f"phi[{root.mesh.name}.{root.comps[cs[0]][0]}{root.comps[cs[0]][1]}.{i}]",
                       *p)
            t = t + function._arr[dof] * w
        vals.append(t)
    out = np.empty(len(vals), dtype=object)
    out[:] = vals
    return out.astype(float) if env.mode == "num" else out


def make_dxh():
    m = _Mod("dxh")
    m.evaluate_function_at_points = evaluate_function_at_points
    return {"dxh": m}


# ------------------------------------------------------------- matplotlib
class _Any:
    """Accepts everything (axes, colour bars, ...)."""

    def __init__(self, name="", **k):
        self._n = name
        self.__dict__.update(k)

    def __call__(self, *a, **k):
        return _Any(self._n + "()")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any(self._n + "." + n)

    def __iter__(self):
        return iter([_Any(self._n + "[0]"), _Any(self._n + "[1]")])

    def __getitem__(self, i):
        return _Any(self._n + "[]")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Fig(_Any):
    pass


class _Axes(_Any):
    def pcolormesh(self, *a, **k):
        return pcolormesh(*a, **k)


def pcolormesh(*args, **kw):
    args = [a.copy() if isinstance(a, np.ndarray) else list(a) if isinstance(a, list) else a
            for a in args]
    ENV().events.append(("pcolormesh", args, dict(kw)))
    return _Any("im")


def make_matplotlib():
    mpl = _Mod("matplotlib")
    mpl.__path__ = []
    plt = types.ModuleType("matplotlib.pyplot")
    plt.pcolormesh = pcolormesh
    plt.gca = lambda *a, **k: _Axes("ax")
    plt.subplots = lambda *a, **k: (_Any("fig"), _Axes("ax"))

    def anything(n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            ENV().events.append(("plt." + n, a, k))
            return _Any("plt." + n)
        return f

    plt.__getattr__ = anything
    plt.get_cmap = lambda *a, **k: _Any("cmap", N=256)
    colors = _Mod("matplotlib.colors")
    colors.LogNorm = lambda *a, **k: _Any("norm")
    colors.BoundaryNorm = lambda *a, **k: _Any("norm")
    colors.Normalize = lambda *a, **k: _Any("norm")
    ticker = _Mod("matplotlib.ticker")

    class MaxNLocator:
        def __init__(self, *a, **k):
            pass

        def tick_values(self, a, b):
            return [a, b]

    ticker.MaxNLocator = MaxNLocator
    mpl.pyplot, mpl.colors, mpl.ticker = plt, colors, ticker
    mpl.use = lambda *a, **k: None
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.colors": colors,
            "matplotlib.ticker": ticker}


# ------------------------------------------------------------- scipy.sparse
class CSR(Strict):
    """csr_matrix((data, indices, indptr), shape=None), with scipy's rules."""

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, CSR):
            self.data, self.indices, self.indptr, self.shape = arg.data, arg.indices, arg.indptr, arg.shape
            self.data = self._cast(self.data, dtype)
            return
        if not isinstance(arg, (tuple, list)) or len(arg) not in (2, 3):
            raise Unsupported("csr_matrix argument")
        if len(arg) == 2:
            if all(is_number(v) for v in arg):
                if not all(float(v) == int(v) >= 0 for v in arg):
                    raise refuse(ValueError, "invalid shape")
                arg = ([], [], [0] * (int(arg[0]) + 1))
                shape = shape or tuple(int(v) for v in (arg[0], arg[1]))
            else:
                arg, shape = self._from_triplets(arg, shape)
        data, indices, indptr = arg
        self.data = self._cast(np.asarray(data), dtype)
        for nm, a in (("indices", indices), ("indptr", indptr)):
            a = np.asarray(a)
            if a.dtype == object or a.dtype.kind not in "iu":
                if not all(is_number(v) and float(v) == int(v) for v in a.ravel()):
                    raise refuse(ValueError, f"{nm} array has invalid values")
        self.indices = np.asarray(indices).astype(int)
        self.indptr = np.asarray(indptr).astype(int)
        if shape is None:
            n = int(self.indices.max()) + 1 if len(self.indices) else 0
            shape = (len(self.indptr) - 1, n)
        self.shape = tuple(int(s) for s in shape)
        if len(self.indptr) != self.shape[0] + 1:
            raise refuse(ValueError, "index pointer size does not match the number of rows")
        if self.indptr[0] != 0:
            raise refuse(ValueError, "index pointer should start with 0")
        if len(self.indices) != len(self.data):
            raise refuse(ValueError, "indices and data should have the same size")
        if self.indptr[-1] > len(self.indices):
            raise refuse(ValueError, "Last value of index pointer should be less than the size of index and data arrays")
        if len(self.indices) and (self.indices.max() >= self.shape[1] or self.indices.min() < 0):
            raise refuse(ValueError, "column index values must be < ncols")

    @staticmethod
    def _cast(a, dtype):
        if dtype is None:
            return a
        if ENV().mode == "num":
            return a.astype(dtype)
        if not shims._float_dtype(dtype):
            raise Unsupported("integer matrix entries")
        return a

    @staticmethod
    def _from_triplets(arg, shape):
        data, (row, col) = arg
        row, col = [int(i) for i in row], [int(j) for j in col]
        if not len(row) == len(col) == len(data):
            raise refuse(ValueError, "row, column, and data array must all be the same length")
        if shape is None:
            shape = (max(row) + 1, max(col) + 1)
        if row and (max(row) >= shape[0] or max(col) >= shape[1] or min(row + col) < 0):
            raise refuse(ValueError, "row or column index exceeds matrix dimensions")
        out = {}
        for i, j, v in zip(row, col, data):
            out[(i, j)] = out[(i, j)] + v if (i, j) in out else v
        ks = sorted(out)
        ptr = [sum(1 for i, _ in ks if i < r) for r in range(shape[0] + 1)]
        vals = np.array([out[k] for k in ks], dtype=float if ENV().mode == "num" else object)
        return (vals, [j for _, j in ks], ptr), shape

    def tocsr(self, copy=False):
        return self.copy() if copy else self

    tocoo = tocsr

    def sort_indices(self):
        pass

    sum_duplicates = check_format = sort_indices

    @property
    def dtype(self):
        return self.data.dtype

    def astype(self, dtype, copy=True):
        r = self.copy()
        r.data = self._cast(r.data, dtype)
        return r

    def eliminate_zeros(self):
        keep = [bool(v != 0) for v in self.data]
        ptr = [sum(keep[:int(p)]) for p in self.indptr]
        self.indices = self.indices[keep]
        self.data = self.data[keep]
        self.indptr = np.array(ptr)

    def dot(self, x):
        x = np.asarray(x)
        if x.ndim != 1:
            raise Unsupported("product of sparse matrices")
        if len(x) != self.shape[1]:
            raise refuse(ValueError, "dimension mismatch")
        y = D.new_array(self.shape[0])
        for (i, j), v in self.entries().items():
            y[i] = y[i] + v * x[j]
        return y

    __matmul__ = dot

    def copy(self):
        return CSR((self.data.copy(), self.indices.copy(), self.indptr.copy()), self.shape)

    def entries(self):
        out = {}
        for i in range(self.shape[0]):
            for k in range(self.indptr[i], self.indptr[i + 1]):
                j = int(self.indices[k])
                out[(i, j)] = out.get((i, j), 0) + self.data[k]
        return out

    @property
    def nnz(self):
        return len(self.data)

    def as_mat(self):
        m = D.Mat(*self.shape)
        for (i, j), v in self.entries().items():
            m.add(i, j, v)
        m.assembled = True
        return m


def make_sparse():
    sp = _Mod("scipy")
    sp.__path__ = []
    s = _Mod("scipy.sparse")
    s.csr_matrix = CSR
    s.csr_array = CSR
    s.coo_matrix = s.coo_array = CSR
    s.issparse = lambda x: isinstance(x, CSR)
    sp.sparse = s
    return {"scipy": sp, "scipy.sparse": s}


# ------------------------------------------------------------- pypardiso
class PyPardisoSolver(Strict):
    """Phase protocol of PyPardiso: 12 analyse+factorise, 33 solve, 13 all, -1 free."""

    def __init__(self, *a, **k):
        self.factorized = None
        self.phase = 13
        env = ENV()
        env.events.append(("pardiso", self))

    def factorize(self, A):
        self._check_A(A)
        self.factorized = A.as_mat()
        self.phase = 12

    def set_phase(self, p):
        self.phase = p

    def solve(self, A, b):
        self._check_A(A)
        m = self.factorized if self.is_already_factorized(A) else A.as_mat()
        return m.solve_exact(np.asarray(b), what="pardiso")

    def is_already_factorized(self, A):
        return self.factorized is not None and _same(self.factorized, A.as_mat())

    _is_already_factorized = is_already_factorized

    def _check_A(self, A):
        if not isinstance(A, CSR):
            raise refuse(TypeError, "PyPardiso requires matrix A to be in CSR or CSC format")
        if A.shape[0] != A.shape[1]:
            raise refuse(ValueError, "Matrix A needs to be square")

    def _check_b(self, A, b):
        b = np.asarray(b)
        if b.shape[0] != A.shape[0]:
            raise refuse(ValueError, "Dimension mismatch between A and b")
        return b.copy()

    def _call_pardiso(self, A, b):
        if self.phase == 33:
            if self.factorized is None:
                raise refuse(ValueError, "PyPardiso error -3: not factorized")
            return self.factorized.solve_exact(b, what="pardiso")
        if self.phase == 13:
            return A.as_mat().solve_exact(b, what="pardiso")
        return np.zeros(len(b))

    def free_memory(self, everything=False):
        self.factorized = None


def _same(a, b):
    if a.nr != b.nr:
        return False
    for r1, r2 in zip(a.rows, b.rows):
        if set(r1) != set(r2):
            return False
        for k in r1:
            d = r1[k] - r2[k]
            if isinstance(d, Sym) and d.p or not isinstance(d, Sym) and d != 0:
                return False
    return True


def spsolve(A, b, *a, **k):
    return A.as_mat().solve_exact(np.asarray(b), what="pardiso")


def factorized(A):
    m = A.as_mat()
    return lambda b: m.solve_exact(np.asarray(b), what="pardiso")


def make_pypardiso():
    m = _Mod("pypardiso")
    m.PyPardisoSolver = PyPardisoSolver
    m.spsolve = spsolve
    m.factorized = factorized
    return {"pypardiso": m}
