"""petsc4py as a contract.

Operators and preconditioners are recorded and applied for real (their `mult` /
`apply` is the code under test); a solve is nondeterministic: any converged
reason, any iteration count, any solution vector, constrained only by what
PETSc documents (a positive reason means that the stopping criterion was met;
a direct solve returns the exact solution).
The state rules follow the installed PETSc 3.19 (checked against it): type
specific setters before setType are ignored, setType with another type resets
them, KSPSetFromOptions reads the options database when called, an unset type
becomes gmres.
"""
from __future__ import annotations

import types
from fractions import Fraction

import numpy as np

from ..core import ENV, PathAbort, Sym, SymBool, Unsupported, is_number, lift, refuse
from . import dolfinx as D
from .dolfinx import Comm, Strict, _Mod


class Error(RuntimeError):
    def __init__(self, ierr=0):
        self.ierr = ierr
        super().__init__(ierr)


class Vec(D.Vec):
    def __init__(self, a=None):
        self._a = a

    def create(self, comm=None):
        return self

    def createSeq(self, size, bsize=None, comm=None):
        n = size[0] if isinstance(size, (tuple, list)) else size
        self._a = D.new_array(n)
        return self

    createMPI = createSeq

    def createWithArray(self, a, size=None, bsize=None, comm=None):
        self._a = np.asarray(a)
        return self

    def setSizes(self, n, bsize=None):
        self._a = D.new_array(n if not isinstance(n, (tuple, list)) else n[-1])

    def setFromOptions(self):
        pass

    def setType(self, t):
        pass


D.Vec_class = Vec


class _Names:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return n.lower()


class _Exactly:
    """An enumeration, with the values of petsc4py."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise refuse(AttributeError, n)


def _size(s):
    while isinstance(s, (tuple, list)):
        s = s[-1] if s[-1] is not None else s[0]
    return int(s)


class Mat(D.Mat):
    Type = _Names()

    def __init__(self):
        self.rows = None
        self.nr = self.nc = None
        self.ctx = None
        self.type = None
        self.assembled = False
        self._comm = Comm()
        self._up = False

    def create(self, comm=None):
        self._comm = comm or self._comm
        return self

    def createPython(self, size, context=None, comm=None):
        self.type = "python"
        if isinstance(size, (tuple, list)) and len(size) == 2:
            self.nr, self.nc = _size(size[0]), _size(size[1])
        else:
            self.nr = self.nc = _size(size)
        self.ctx = context
        self._comm = comm or self._comm
        return self

    def setSizes(self, size, bsize=None):
        if isinstance(size, (tuple, list)) and len(size) == 2:
            self.nr, self.nc = _size(size[0]), _size(size[1])
        else:
            self.nr = self.nc = _size(size)

    def setType(self, t):
        self.type = t

    def getType(self):
        return self.type

    def setPythonContext(self, ctx):
        if self.type == "python":
            self.ctx = ctx

    def getPythonContext(self):
        return self.ctx

    def setUp(self):
        if self.type is None or self.nr is None:
            raise refuse(Error, 73)
        self._up = True
        self.assembled = True
        return self

    def setFromOptions(self):
        pass

    def getComm(self):
        return self._comm

    comm = property(getComm)

    def mult(self, x, y):
        if self.type == "python":
            if not self._up:
                raise refuse(Error, 73)
            if len(x._a) != self.nc or len(y._a) != self.nr:
                raise refuse(Error, 60)
            self.ctx.mult(self, x, y)
            return
        raise Unsupported("PETSc.Mat of this type")

    def times(self, a):
        y = Vec(D.new_array(self.nr))
        self.mult(Vec(a), y)
        return y._a

    def __mul__(self, x):
        if isinstance(x, D.Vec):
            return Vec(self.times(x._a))
        return NotImplemented


class Options(Strict):
    def __init__(self, prefix=None):
        self.prefix = prefix or ""

    @property
    def _db(self):
        return ENV().__dict__.setdefault("petsc_options", {})

    def _k(self, n):
        n = n[1:] if n.startswith("-") else n
        return self.prefix + n

    def setValue(self, name, value):
        self._db[self._k(name)] = value

    __setitem__ = setValue

    def hasName(self, name):
        return self._k(name) in self._db

    __contains__ = hasName

    def delValue(self, name):
        self._db.pop(self._k(name), None)

    __delitem__ = delValue

    def _get(self, name, default, conv):
        k = self._k(name)
        if k not in self._db:
            if default is None:
                raise refuse(KeyError, name)
            return default
        v = self._db[k]
        return v if isinstance(v, Sym) else conv(v)

    def getInt(self, name, default=None):
        return self._get(name, default, int)

    def getReal(self, name, default=None):
        return self._get(name, default, float)

    getScalar = getReal

    def getBool(self, name, default=None):
        return self._get(name, default, _flag)

    def getString(self, name, default=None):
        return self._get(name, default, str)

    __getitem__ = getString

    def getAll(self):
        return dict(self._db)

    def clear(self):
        self._db.clear()
        return self

    def view(self, *a):
        pass

    def prefixPush(self, p):
        self.prefix += p or ""

    def prefixPop(self):
        self.prefix = ""


def _flag(v):
    if isinstance(v, str):
        return v.lower() not in ("false", "0", "no", "off")
    return bool(v)


class PC(Strict):
    Type = _Names(PYTHON="python", LU="lu", CHOLESKY="cholesky", NONE="none", ILU="ilu",
                  JACOBI="jacobi")
    Side = _Names(LEFT=0, RIGHT=1, SYMMETRIC=2)

    def __init__(self, ksp=None):
        self.ksp = ksp
        self._type = None
        self.ctx = None
        self.ops = None
        self.factor = None

    def create(self, comm=None):
        return self

    def setType(self, t):
        if t != self._type:
            self.ctx = None
            self.factor = None
        self._type = t

    def getType(self):
        return self._type

    type = property(getType, lambda s, t: s.setType(t))

    def createPython(self, context=None, comm=None):
        self._type = "python"
        self.ctx = context
        return self

    def setPythonContext(self, ctx):
        if self._type == "python":
            self.ctx = ctx

    def getPythonContext(self):
        return self.ctx

    def setOperators(self, A=None, P=None):
        self.ops = (A, P if P is not None else A)

    def getOperators(self):
        return self.ops or (self.ksp.ops if self.ksp else None)

    def setFactorSolverType(self, t):
        self.factor = t

    def setFactorSetUpSolverType(self):
        pass

    def getFactorMatrix(self):
        raise Unsupported("factor matrix")

    def setFromOptions(self):
        pass

    def setUp(self):
        if self.getOperators() is None:
            raise refuse(Error, 73)
        if self._type == "python" and hasattr(self.ctx, "setUp"):
            self.ctx.setUp(self)

    def setReusePreconditioner(self, f):
        pass

    def apply(self, x, y):
        if self._type == "python":
            self.ctx.apply(self, x, y)
        elif self._type in ("lu", "cholesky"):
            y._a[:] = self.getOperators()[1].solve_exact(x._a)
        elif self._type == "none":
            y._a[:] = x._a
        else:
            raise Unsupported("PC.apply")

    def view(self, *a):
        pass

    def destroy(self):
        return self


DEFAULTS = dict(rtol=1e-5, atol=1e-50, divtol=1e4, max_it=10000)


class KSP(Strict):
    Type = _Names(GMRES="gmres", PREONLY="preonly", CG="cg", FGMRES="fgmres", NONE="none",
                  RICHARDSON="richardson", BCGS="bcgs", MINRES="minres")
    NormType = _Exactly(
        DEFAULT=-1, NATURAL=3, NO=0, NONE=0, NORM_DEFAULT=-1, NORM_NATURAL=3, NORM_NONE=0,
        NORM_PRECONDITIONED=1, NORM_UNPRECONDITIONED=2, PRECONDITIONED=1, UNPRECONDITIONED=2)
    ConvergedReason = _Exactly(
        CONVERGED_ATOL=3, CONVERGED_ATOL_NORMAL=9, CONVERGED_HAPPY_BREAKDOWN=7, CONVERGED_ITERATING=0,
        CONVERGED_ITS=4, CONVERGED_NEG_CURVE=5, CONVERGED_RTOL=2, CONVERGED_RTOL_NORMAL=1,
        CONVERGED_STEP_LENGTH=6, DIVERGED_BREAKDOWN=-5, DIVERGED_BREAKDOWN_BICG=-6, DIVERGED_DTOL=-4,
        DIVERGED_INDEFINITE_MAT=-10, DIVERGED_INDEFINITE_PC=-8, DIVERGED_MAX_IT=-3, DIVERGED_NANORINF=-9,
        DIVERGED_NONSYMMETRIC=-7, DIVERGED_NULL=-2, DIVERGED_PCSETUP_FAILED=-11, ITERATING=0)

    def __init__(self):
        self._type = None
        self.created = False
        self.ops = None
        self._comm = Comm()
        self.tol = dict(DEFAULTS)
        self.specific = {}
        self._pc = PC(self)
        self.prefix = ""
        self.monitors = []
        self.options_seen = {}
        self.history = []
        self._reason = 0
        self._its = 0
        self._rhs = self._sol = None
        self._nonzero = False
        self._side = 0
        self._normtype = None
        self._err_if = False
        self._conv_test = None

    def create(self, comm=None):
        self.created = True
        self._comm = comm or self._comm
        return self

    def getComm(self):
        return self._comm

    comm = property(getComm)

    def _need(self):
        if not self.created:
            raise refuse(Error, 62)

    def setOperators(self, A=None, P=None):
        self._need()
        self.ops = (A, P if P is not None else A)

    def getOperators(self):
        return self.ops

    mat_op = property(lambda s: s.ops[0])
    mat_pc = property(lambda s: s.ops[1])

    def setType(self, t):
        self._need()
        t = str(t)
        if t != self._type:
            self._type = t
            self.specific = {"restart": 30, "orthog": "classical"} if t in (
                "gmres", "fgmres", "lgmres") else {}

    def getType(self):
        return self._type

    type = property(getType, lambda s, t: s.setType(t))

    def setGMRESRestart(self, restart):
        self._need()
        if "restart" not in self.specific:
            return  # no such method: silently ignored
        if isinstance(restart, (Sym,)) or is_number(restart):
            if restart < 1:
                raise refuse(Error, 63)
        else:
            raise refuse(TypeError, "an integer is required")
        self.specific["restart"] = restart

    def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
        self._need()
        if rtol is not None:
            if not (rtol >= 0) or not (rtol < 1):
                raise refuse(Error, 63)
            self.tol["rtol"] = rtol
        if atol is not None:
            if not (atol >= 0):
                raise refuse(Error, 63)
            self.tol["atol"] = atol
        if divtol is not None:
            self.tol["divtol"] = divtol
        if max_it is not None:
            if not (max_it >= 0):
                raise refuse(Error, 63)
            self.tol["max_it"] = max_it

    def getTolerances(self):
        t = self.tol
        return t["rtol"], t["atol"], t["divtol"], t["max_it"]

    rtol = property(lambda s: s.tol["rtol"], lambda s, v: s.setTolerances(rtol=v))
    atol = property(lambda s: s.tol["atol"], lambda s, v: s.setTolerances(atol=v))
    divtol = property(lambda s: s.tol["divtol"], lambda s, v: s.setTolerances(divtol=v))
    max_it = property(lambda s: s.tol["max_it"], lambda s, v: s.setTolerances(max_it=v))

    def getPC(self):
        self._need()
        return self._pc

    def setPC(self, pc):
        pc.ksp = self
        self._pc = pc

    pc = property(getPC, setPC)

    def setOptionsPrefix(self, p):
        self.prefix = p or ""

    def getOptionsPrefix(self):
        return self.prefix

    def appendOptionsPrefix(self, p):
        self.prefix += p or ""

    def setFromOptions(self):
        self._need()
        db = ENV().__dict__.get("petsc_options", {})

        def get(n):
            k = self.prefix + n
            return db.get(k)

        t = get("ksp_type")
        if t is not None:
            self.setType(t)
        elif self._type is None:
            self.setType("gmres")
        kw = {}
        for n, k in (("ksp_rtol", "rtol"), ("ksp_atol", "atol"), ("ksp_max_it", "max_it"),
                     ("ksp_divtol", "divtol")):
            v = get(n)
            if v is not None:
                kw[k] = v if isinstance(v, Sym) else float(v) if k != "max_it" else int(v)
        if kw:
            self.setTolerances(**kw)
        v = get("ksp_gmres_restart")
        if v is not None:
            self.setGMRESRestart(v if isinstance(v, Sym) else int(v))
        for n in ("ksp_gmres_modifiedgramschmidt", "ksp_gmres_cgs_refinement_type",
                  "ksp_gmres_preallocate", "ksp_gmres_classicalgramschmidt"):
            v = get(n)
            if v is not None:
                self.options_seen[n] = v
        v = get("pc_type")
        if v is not None:
            self._pc.setType(v)
        for n in db:
            m = n[len(self.prefix):] if n.startswith(self.prefix) else None
            if m and m.startswith(("ksp_monitor",)):
                self.monitors.append("options")
        self._configured = dict(db)

    def setMonitor(self, monitor, args=None, kargs=None):
        args = args or ()
        kargs = kargs or {}
        self.monitors.append(lambda k, i, r: monitor(k, i, r, *args, **kargs))

    def monitorCancel(self):
        self.monitors = []

    cancelMonitor = monitorCancel

    def getMonitor(self):
        return [(m, (), {}) for m in self.monitors]

    def setConvergenceHistory(self, length=None, reset=False):
        pass

    def getConvergenceHistory(self):
        return np.zeros(0)

    def setConvergenceTest(self, f, args=None, kargs=None):
        self._conv_test = f

    def setInitialGuessNonzero(self, f):
        self._nonzero = bool(f)

    guess_nonzero = property(lambda s: s._nonzero, lambda s, f: s.setInitialGuessNonzero(f))

    def setNormType(self, n):
        self._normtype = n

    def setPCSide(self, s):
        self._side = s

    def setErrorIfNotConverged(self, f):
        self._err_if = bool(f)

    def setUp(self):
        if self.ops is None:
            raise refuse(Error, 73)

    def view(self, viewer=None):
        pass

    def destroy(self):
        return self

    def reset(self):
        pass

    def setReusePreconditioner(self, f):
        pass

    # ------------------------------------------------------------
    def solve(self, b, x):
        env = ENV()
        self._need()
        if self.ops is None or self.ops[0] is None:
            raise refuse(Error, 73)
        A = self.ops[0]
        if not isinstance(b, D.Vec) or not isinstance(x, D.Vec):
            raise refuse(TypeError, "Argument has incorrect type (expected petsc4py.PETSc.Vec)")
        if b._a is x._a:
            raise refuse(Error, 61)
        if len(b._a) != A.nr or len(x._a) != A.nc:
            raise refuse(Error, 60)
        n = env.__dict__.setdefault("ksp_solves", [0])
        n[0] += 1
        typ = self._type or "gmres"
        rec = dict(ksp=self, type=typ, A=A, b=b, x=x, tol=dict(self.tol),
                   specific=dict(self.specific), pc_type=self._pc._type, pc_ctx=self._pc.ctx,
                   options=dict(self.options_seen), nonzero=self._nonzero,
                   b_values=b._a.copy(), x0=x._a.copy(), monitors=len(self.monitors), n=n[0],
                   side=self._side, normtype=self._normtype, conv_test=self._conv_test)
        env.events.append(("ksp.solve", rec))
        self._rhs, self._sol = b, x
        direct = typ == "preonly" and self._pc._type in ("lu", "cholesky")
        if direct:
            P = self.ops[1]
            x._a[:] = P.solve_exact(b._a, what="lu")
            self._reason, self._its = 4, 1
            rec["x_values"] = x._a.copy()
            return
        # an iterative solve
        hook = env.__dict__.get("ksp_contract")
        if hook is None:
            raise Unsupported("iterative solve without a contract")
        hook(self, rec)
        rec["events_before_monitors"] = len(env.events)
        for m in list(self.monitors):
            if callable(m):
                for it in range(2):
                    m(self, it, env.real(f"rnorm{n[0]}.{it}", lo=0, hi=10))
        rec["events_after_monitors"] = len(env.events)
        rec["x_values"] = x._a.copy()
        if self._err_if and self._reason < 0:
            raise refuse(Error, 91)

    def getConvergedReason(self):
        return self._reason

    reason = property(getConvergedReason)

    @property
    def converged(self):
        return self._reason > 0

    is_converged = converged

    @property
    def diverged(self):
        return self._reason < 0

    is_diverged = diverged

    @property
    def iterating(self):
        return self._reason == 0

    is_iterating = iterating

    def getIterationNumber(self):
        return self._its

    its = property(getIterationNumber)

    def getResidualNorm(self):
        return ENV().real("final_rnorm", lo=0, hi=10)

    norm = property(getResidualNorm)

    def getRhs(self):
        return self._rhs

    vec_rhs = property(getRhs)

    def getSolution(self):
        return self._sol

    vec_sol = property(getSolution)

    def buildSolution(self, x=None):
        # GMRES: applies the last correction once more (PETSc 3.19): arbitrary here
        return self._arbitrary(x, "buildSolution")

    def buildResidual(self, r=None):
        return self._arbitrary(r, "buildResidual")

    def _arbitrary(self, v, what):
        env = ENV()
        if v is None:
            v = Vec(D.new_array(self.ops[0].nr))
        v._a[:] = env.reals(what, len(v._a))
        return v


class Sys(Strict):
    @staticmethod
    def Print(*args, sep=" ", end="\n", comm=None, flush=False):
        ENV().events.append(("Print", sep.join(str(a) for a in args)))

    @staticmethod
    def syncPrint(*args, **k):
        ENV().events.append(("Print", " ".join(str(a) for a in args)))


class Viewer(Strict):
    pass


def make():
    pkg = _Mod("petsc4py")
    pkg.__path__ = []
    P = _Mod("petsc4py.PETSc")
    for n in ("Vec", "Mat", "KSP", "PC", "Options", "Error", "Sys", "Viewer"):
        setattr(P, n, globals()[n])
    P.ScalarType = np.float64
    P.RealType = np.float64
    P.IntType = np.int32
    P.COMM_WORLD = Comm()
    P.COMM_SELF = Comm()
    P.DECIDE = -1
    P.DEFAULT = -2
    P.InsertMode = _Names(INSERT_VALUES=1, ADD_VALUES=2, ADD=2, INSERT=1)
    P.ScatterMode = _Names(FORWARD=0, REVERSE=1)
    P.NormType = _Names(N2=2, NORM_2=2, NORM_INFINITY=3)
    pkg.PETSc = P
    pkg.init = lambda *a, **k: None
    return {"petsc4py": pkg, "petsc4py.PETSc": P}
