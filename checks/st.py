"""Set-up and reference formulation shared by the space-time properties.

The reference is written from the method (stabilised space-time formulation of
the wave equation, discontinuous in time), with exact rational time integrals
over Lagrange polynomials; it shares only the finite element stand-in with the
code under test.
"""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from symx import core
from symx.core import Sym
from symx.fakes import dolfinx as D
from symx.fakes import ufl as U
from symx.loader import fem_standins, load

GAMMAS = ("data", "dual", "primal", "primal-jump")


# ------------------------------------------------------------ time integrals
def _pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def _basis(q):
    if q == 0:
        return [[Fraction(1)]]
    out = []
    for i in range(q + 1):
        p = [Fraction(1)]
        for k in range(q + 1):
            if k != i:
                p = _pmul(p, [Fraction(-k, i - k), Fraction(q, i - k)])
        out.append(p)
    return out


def _d(p):
    return [c * k for k, c in enumerate(p)][1:] or [Fraction(0)]


def _int(p):
    return sum(c / (k + 1) for k, c in enumerate(p))


def time_matrix(nrow, ncol, drow=0, dcol=0):
    """[k][j] = integral over (0,1) of col_j * row_k with derivatives."""
    rows, cols = _basis(nrow), _basis(ncol)
    if drow:
        rows = [_d(p) for p in rows]
    if dcol:
        cols = [_d(p) for p in cols]
    return [[_int(_pmul(c, r)) for c in cols] for r in rows]


def num(env, c):
    return float(c) if env.mode == "num" else c


# ------------------------------------------------------------ the model
class Model:
    """One discretisation: the code under test and the data of the reference."""

    def __init__(self, env, cfg, standins=None, msh=None, loaded=None, share=None, setup=True,
                 solution=None, omega=None, tag="", chi=None, stabs=None, T=None):
        if chi:
            self.chi = chi
        self.env, self.cfg, self.tag = env, cfg, tag
        self.q, self.s = cfg["q"], cfg["s"]
        self.k, self.ks = cfg.get("k", 1), cfg.get("ks", 1)
        self.N = cfg["N"]
        self.jumps, self.wp = cfg.get("jumps", False), cfg.get("wp", False)
        if loaded:
            self.ld, self.m = loaded
        else:
            self.ld, self.m = load("space_time", standins=standins)
        if share:
            self.T, self.g, self.msh, self.t0 = share.T, share.g, share.msh, share.t0
        else:
            self.T = env.real("T" + tag, Fraction(1, 64), 64, pos=True, usual=4)
            self.g = {k: env.real("gamma_" + k + tag, 0, 10 ** 6, pos=True,
                                        usual=8) for k in GAMMAS}
            self.msh = msh or D.Mesh("M" + tag, dim=cfg.get("dim", 1))
            self.t0 = 0
        if T is not None:
            self.T = T
        self.dt = self.T / self.N
        self.lam = 5 * self.k ** 2
        self.fitted = cfg.get("fitted", True)
        m = self.m
        if omega is None:
            omega = self.make_omega()
        self.omega = omega
        self.solution = solution or m.ValueAndDerivative(self.exact, self.dt_exact)
        kw = {}
        if self.jumps or self.wp or cfg.get("explicit_parameters"):
            kw["parameters"] = m.ProblemParameters(jumps_in_fw_problem=self.jumps,
                                                   well_posed=self.wp)
        self.stabs = dict(self.g) if stabs is None else stabs
        self.st = m.SpaceTime(
            m.OrderTime(self.q, self.s), m.OrderSpace(self.k, self.ks), N=self.N, T=self.T,
            t=self.t0, msh=self.msh, stabilisation_terms=self.stabs, omega=omega,
            solution=self.solution, **kw)
        if setup:
            self.st.setup_spacetime_finite_elements()
        self.refs = {}

    # the exact solution is an arbitrary function of time (and, abstractly, space)
    def exact(self, t, x):
        return U.field("exact" + self.tag, t)

    def dt_exact(self, t, x):
        return U.field("dt_exact" + self.tag, t)

    def make_omega(self):
        m, env = self.m, self.env
        if self.fitted:
            return m.DataDomain(indicator_function=self.chi)
        return m.DataDomain(indicator_function=U.field("chi_expr"), fitted=False)

    def chi(self, x):
        """An arbitrary indicator: its values at the interpolation points."""
        env = self.env
        n = x.shape[1]
        v = np.empty(n, dtype=object)
        for i in range(n):
            v[i] = env.real(f"chi{self.tag}[{n}.{i}]", 0, 1)
        return v.astype(float) if env.mode == "num" else v

    def ref_omega(self, mesh=None):
        """The data domain's indicator on `mesh`, for the reference forms."""
        mesh = mesh or self.msh
        if not self.fitted:
            return U.field("chi_expr")
        key = ("omega", id(mesh))
        if key not in self.refs:
            f = D.Function(D.FunctionSpace(self.msh, ("DG", 0)))
            f.interpolate(self.chi)
            if mesh is not self.msh:
                g = D.Function(D.FunctionSpace(mesh, ("DG", 0)))
                g.interpolate(f)
                f = g
            self.refs[key] = f
        return self.refs[key]

    # -- reference spaces
    def space(self, N=None, mesh=None):
        N = N or self.N
        mesh = mesh or self.msh
        key = ("space", N, id(mesh))
        if key not in self.refs:
            e1 = U.VectorElement("CG", mesh.ufl_cell(), self.k, (self.q + 1) * N)
            e2 = U.VectorElement("CG", mesh.ufl_cell(), self.ks, (self.s + 1) * N)
            self.refs[key] = D.FunctionSpace(mesh, U.MixedElement([e1, e1, e2, e2]))
        return self.refs[key]

    def ref_dofs(self, V):
        """[field][time index] -> dof list, of a reference space."""
        return [[V.dofs[c] for c in comps] for comps in V.block_components()]

    # -- reference forms
    def slab_terms(self, tr, te, n, mesh=None):
        """Everything on slab n except couplings between slabs."""
        env, g, dt = self.env, self.g, self.dt
        mesh = mesh or self.msh
        q, s = self.q, self.s
        a, b = n * (q + 1), n * (s + 1)
        u1, u2, z1, z2 = tr
        w1, w2, y1, y2 = te
        u1, u2, w1, w2 = (x[a:a + q + 1] for x in (u1, u2, w1, w2))
        z1, z2, y1, y2 = (x[b:b + s + 1] for x in (z1, z2, y1, y2))
        dx, ds, dS = U.dx, U.ds, U.dS
        nrm, h = U.FacetNormal(mesh), U.CellDiameter(mesh)
        grad, inner, jump, div = U.grad, U.inner, U.jump, U.div
        chi = self.ref_omega(mesh)

        def lap(v):
            return div(grad(v))

        M, DM = time_matrix(s, q), time_matrix(s, q, 0, 1)
        Mqq, Mss = time_matrix(q, q), time_matrix(s, s)
        DMqq, DDM = time_matrix(q, q, 0, 1), time_matrix(q, q, 1, 1)
        F = None

        def add(e):
            nonlocal F
            F = e if F is None else F + e

        def wave(v1, v2, p1, p2):
            # int (d_t v2, p1) + (grad v1, grad p1) - (d_n v1, p1)_bnd + (d_t v1 - v2, p2)
            for j in range(q + 1):
                for k in range(s + 1):
                    c, d = num(env, M[k][j]), num(env, DM[k][j])
                    add((d * inner(v2[j], p1[k]) + dt * c * inner(grad(v1[j]), grad(p1[k]))
                         + d * inner(v1[j], p2[k]) - dt * c * inner(v2[j], p2[k])) * dx)
                    add(-(dt * c) * inner(nrm, grad(v1[j])) * p1[k] * ds)

        wave(u1, u2, y1, y2)
        wave(w1, w2, z1, z2)
        for j in range(s + 1):
            for k in range(s + 1):
                c = g["dual"] * dt * num(env, Mss[k][j])
                add(-c * (inner(y1[j], z1[k]) + inner(grad(y1[j]), grad(z1[k]))
                          + inner(y2[j], z2[k])) * dx)
                add(-c * (self.lam / h) * inner(y1[j], z1[k]) * ds)
        for j in range(q + 1):
            for k in range(q + 1):
                m, d, dT, dd = (num(env, x) for x in (Mqq[k][j], DMqq[k][j], DMqq[j][k], DDM[k][j]))
                add(g["data"] * dt * m * chi * inner(u1[j], w1[k]) * dx)
                p = g["primal"]
                add(p * dt * m * (self.lam / h) * inner(u1[j], w1[k]) * ds)
                add(p * dt * m * U.avg(h) * inner(jump(grad(u1[j])), jump(grad(w1[k]))) * dS)
                # int (d_t u1 - u2, d_t w1 - w2)
                add(p * ((1 / dt) * dd * inner(u1[j], w1[k]) - d * inner(u1[j], w2[k])
                         - dT * inner(u2[j], w1[k]) + dt * m * inner(u2[j], w2[k])) * dx)
                # int h^2 (d_t u2 - lap u1, d_t w2 - lap w1)
                hh = p * h * h
                add(hh * (1 / dt) * dd * inner(u2[j], w2[k]) * dx)
                add(-(hh * d) * inner(u2[j], lap(w1[k])) * dx)
                add(-(hh * dT) * inner(lap(u1[j]), w2[k]) * dx)
                add(hh * dt * m * inner(lap(u1[j]), lap(w1[k])) * dx)
        return F

    def weight(self, u1, u2, w1, w2):
        """gamma_jump [ 1/dt (u1,w1) + dt (grad u1, grad w1) + 1/dt (u2,w2) ]"""
        gj, dt = self.g["primal-jump"], self.dt
        return gj * ((1 / dt) * U.inner(u1, w1) + dt * U.inner(U.grad(u1), U.grad(w1))
                     + (1 / dt) * U.inner(u2, w2)) * U.dx

    def form(self, V, precond=False, mesh=None):
        tr, te = U.TrialFunctions(V), U.TestFunctions(V)
        u1, u2, z1, z2 = tr
        w1, w2, y1, y2 = te
        F = None
        for n in range(self.N):
            f = self.slab_terms(tr, te, n, mesh)
            F = f if F is None else F + f
            a, b = n * (self.q + 1), n * (self.s + 1)
            if n == 0:
                if self.wp:
                    F = F + self.weight(u1[0], u2[0], w1[0], w2[0])
                continue
            ju1, ju2, jw1, jw2 = (x[a] - x[a - 1] for x in (u1, u2, w1, w2))
            if precond:
                F = F + self.weight(ju1, ju2, w1[a], w2[a])
            else:
                F = F + self.weight(ju1, ju2, jw1, jw2)
            if self.jumps:
                F = F - (self.g["dual"] * self.dt) * (U.inner(y1[b], z1[b])
                                                     + U.inner(y2[b], z2[b])) * U.dx
                F = F + (U.inner(ju2, y1[b]) + U.inner(ju1, y2[b]) + U.inner(jw2, z1[b])
                         + U.inner(jw1, z2[b])) * U.dx
        return F

    def slab_form(self, V, with_jumps):
        tr, te = U.TrialFunctions(V), U.TestFunctions(V)
        u1, u2, z1, z2 = tr
        w1, w2, y1, y2 = te
        F = self.slab_terms(tr, te, 0)
        if with_jumps:
            F = F + self.weight(u1[0], u2[0], w1[0], w2[0])
            if self.jumps:
                F = F - (self.g["dual"] * self.dt) * (U.inner(y1[0], z1[0])
                                                     + U.inner(y2[0], z2[0])) * U.dx
                F = F + (U.inner(u2[0], y1[0]) + U.inner(u1[0], y2[0])) * U.dx
        return F

    def ref_matrix(self, precond=False, mesh=None):
        key = ("A", precond, id(mesh))
        if key not in self.refs:
            A = D.assemble_matrix(self.form(self.space(mesh=mesh), precond, mesh))
            A.assemble()
            self.refs[key] = A
        return self.refs[key]

    def ref_slab_matrix(self, with_jumps):
        key = ("S", with_jumps)
        if key not in self.refs:
            A = D.assemble_matrix(self.slab_form(self.space(1), with_jumps))
            A.assemble()
            self.refs[key] = A
        return self.refs[key]

    # -- index maps:  reference dof -> dof of the code under test
    def to_code(self, V, maps):
        p = np.full(V.ndof, -1, dtype=int)
        for f, comps in enumerate(self.ref_dofs(V)):
            for i, d in enumerate(comps):
                for r, c in zip(d, maps[f][i], strict=True):
                    p[r] = c
        return p

    def full_map(self):
        return self.to_code(self.space(), self.st.dofmaps_full)

    def slab_map(self):
        return self.to_code(self.space(1), self.st.dofmaps_pre)

    def vector(self, name, n=None):
        """An arbitrary vector (code numbering), as a PETSc vector of the stand-in."""
        from symx.fakes import petsc

        n = n or self.st.fes.ndof
        a = D.new_array(n)
        a[:] = self.env.reals(name, n)
        return petsc.Vec(a)

    def zeros(self, n=None):
        from symx.fakes import petsc

        return petsc.Vec(D.new_array(n or self.st.fes.ndof))

    def lu(self, mat):
        from symx.fakes import petsc

        k = petsc.KSP().create()
        k.setOperators(mat)
        k.setType("preonly")
        k.getPC().setType("lu")
        return k

    def set_solvers(self):
        self.st.set_solver_slab(self.lu(self.st.get_slab_matrix()))
        self.st.set_solver_first_slab(self.lu(self.st.get_slab_matrix_first_slab()))


def same_matrix(env, label, got, ref, p):
    """got[p[i], p[j]] == ref[i, j] for every entry."""
    env.check(label + ": size", got.getSize() == (len(p), len(p)) and ref.nr == len(p))
    inv = {int(c): r for r, c in enumerate(p)}
    keys = set()
    for i, r in enumerate(ref.rows):
        keys.update((i, j) for j in r)
    for i, r in enumerate(got.rows):
        if r and i not in inv:
            env.check(label + ": every row is known", False)
            return
        keys.update((inv[i], inv[j]) for j in r)
    keys = sorted(keys)
    env.check_eq_all(label, [got.entry(int(p[i]), int(p[j])) for i, j in keys],
                     [ref.entry(i, j) for i, j in keys])


def name_of(c):
    s = f"q{c['q']}-qs{c['s']}-k{c.get('k', 1)}-ks{c.get('ks', 1)}-N{c['N']}"
    if c.get("jumps"):
        s += "-fwjumps"
    if c.get("wp"):
        s += "-wellposed"
    if c.get("fitted") is False:
        s += "-unfitted"
    if c.get("dim", 1) != 1:
        s += f"-{c['dim']}d"
    for x in c.get("tags", ()):
        s += "-" + x
    return s


def cfgs(*dicts):
    out = []
    for d in dicts:
        d = dict(d)
        d["name"] = name_of(d)
        if any(o["name"] == d["name"] for o in out):
            continue
        d.setdefault("cost", (d["q"] + 1 + d["s"] + 1) ** 2 * d["N"] * d.get("k", 1))
        out.append(d)
    return out
