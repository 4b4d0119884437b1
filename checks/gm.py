"""Set-up shared by the GMRES properties."""
from __future__ import annotations

import numpy as np

from symx.loader import load


class LinearOp:
    """A matrix context: an arbitrary linear map (symbolic entries)."""

    def __init__(self, env, name, n):
        self.M = [[env.real(f"{name}[{i},{j}]") for j in range(n)] for i in range(n)]
        self.calls = 0

    def times(self, a):
        return [sum((m * x for m, x in zip(row, a)), 0) for row in self.M]

    def mult(self, mat, x, y):
        self.calls += 1
        y.array[:] = self.times(list(x.array))


class Precond(LinearOp):
    mult = None

    def apply(self, pc, x, y):
        self.calls += 1
        y.array[:] = self.times(list(x.array))


class Problem:
    def __init__(self, env, n, tag=""):
        from symx.fakes import dolfinx as D
        from symx.fakes import petsc

        self.env, self.n = env, n
        self.A = LinearOp(env, "A" + tag, n)
        self.pre = Precond(env, "P" + tag, n)
        self.b = petsc.Vec(D.new_array(n))
        self.b._a[:] = env.reals("b" + tag, n)
        self.b0 = self.b._a.copy()


def contract(env, reason_name="reason"):
    """Any outcome of an iterative solve that PETSc documents."""
    def hook(ksp, rec):
        r = env.integer(f"{reason_name}{rec['n']}", -12, 9)
        env.assume(r != 0)
        ksp._reason = r
        ksp._its = env.integer(f"its{rec['n']}", 0, 10 ** 6)
        rec["x"]._a[:] = env.reals(f"x{rec['n']}", len(rec["x"]._a))
        rec["reason"] = r
    return hook


def solves(env):
    return [r for k, *v in env.events if k == "ksp.solve" for r in v]


def printed(env, lo=0, hi=None):
    return [e[1] for e in env.events[lo:hi] if e[0] == "Print"]


def same_map(env, label, apply, op, n):
    """`apply(array) -> array` is the linear map of `op`, on an arbitrary vector."""
    v = np.empty(n, dtype=object if env.mode == "sym" else float)
    v[:] = env.reals("probe", n)
    env.check_eq_all(label, list(apply(v)), op.times(list(v)))
