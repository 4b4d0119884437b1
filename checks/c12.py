"""The right-hand side carries the data of the subdomain and the initial data."""
import numpy as np

from .st import Model, _basis, _int, _pmul, cfgs, num

from fractions import Fraction

TOL = Fraction(3, 10 ** 5)
MUST_RUN = ["space_time.py:SpaceTime.setup_rhs"]
ASSUMPTIONS = [
    "finite element back end is a contract: the pairing of a basis function with a weight is an "
    "arbitrary real number, equal for equal pairings",
    "measured data are polynomials in time with arbitrary functions of space as coefficients, of the "
    "degree that the four-point Radau rule integrates exactly against the basis (6 - q); time quadrature "
    "of other data is outside of the claim",
    "right-hand side up to 3e-5 per monomial (the Radau tables hold 6 digits)"]


def bounds(tier):
    return ("time degrees q 0..3, q* 0..3, space degrees 1..3, 1 to %d slabs (and 5 and 8), initial data prescribed or "
            "not; arbitrary final time, parameters, indicator, data coefficients and initial data."
            % (5 if tier == "thorough" else 3))


def configs(tier):
    B = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 0, 1, 1, 3), (2, 1, 2, 1, 2), (3, 3, 3, 1, 3), (2, 2, 1, 2, 2),
         (0, 0, 1, 1, 2), (1, 2, 1, 2, 3), (2, 3, 1, 1, 2)]
    if tier == "thorough":
        B += [(q, s, k, k, N) for q in range(4) for s in range(4) for k in (1, 2, 3) for N in (1, 2, 5)]
    out = []
    for q, s, k, ks, N in B:
        d = dict(q=q, s=s, k=k, ks=ks, N=N)
        out += [d, dict(d, wp=True), dict(d, jumps=True)]
    out += [dict(q=1, s=1, N=2, fitted=False), dict(q=1, s=0, N=5, wp=True), dict(q=2, s=0, N=8)]
    out += [dict(q=1, s=1, N=2, dim=2, wp=True), dict(q=2, s=0, N=2, dim=3)]
    return cfgs(*out)


def data(M, t):
    from symx.fakes import ufl as U

    tot = None
    for p in range(7 - M.q):
        g = U.field(f"g{p}{M.tag}")
        e = (t ** p) * g if p else 1 * g
        tot = e if tot is None else tot + e
    return tot


def reference(M):
    """gamma_data int_0^T int_omega g w1 + initial data terms, exactly in time."""
    from symx.fakes import dolfinx as D
    from symx.fakes import ufl as U

    env = M.env
    V = M.space()
    w1, w2, y1, y2 = U.TestFunctions(V)
    chi = M.ref_omega()
    F = None
    for n in range(M.N):
        for k, ph in enumerate(_basis(M.q)):
            for p in range(7 - M.q):
                # int_0^dt (n dt + t)^p phi_k(t / dt) dt = dt^(p + 1) int_0^1 (n + s)^p phi_k(s) ds
                poly = [1]
                for _ in range(p):
                    poly = _pmul(poly, [n, 1])
                c = num(env, _int(_pmul(poly, ph)))
                e = (M.g["data"] * M.dt ** (p + 1) * c) * chi * U.field(f"g{p}{M.tag}") * w1[n * (M.q + 1) + k] * U.dx
                F = e if F is None else F + e
    if M.wp:
        u = []
        for nm in ("u0", "u0t"):
            f = D.Function(D.FunctionSpace(M.msh, ("CG", M.k)))
            f.x.array[:] = env.reals(nm + M.tag, len(f.x.array))
            u.append(f)
        F = F + M.weight(u[0], u[1], w1[0], w2[0])
    b = D.assemble_vector(F)
    return b


def harness(env, cfg):
    M = Model(env, cfg)
    st = M.st
    M.solution.v = lambda t, x: data(M, t)
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        f.x.array[:] = env.reals(nm, len(f.x.array))
    p = M.full_map()
    ref = reference(M)
    b = st.get_spacetime_rhs()
    env.check("size", b.getSize() == len(p))
    env.check_eq_all("right-hand side", [b.array[int(p[i])] for i in range(len(p))], list(ref.array), tol=TOL)
    from symx.fakes import dolfinx as D

    c = D.assemble_vector(st.get_spacetime_lfi())
    env.check_eq_all("linear form", [c.array[int(p[i])] for i in range(len(p))], list(ref.array), tol=TOL)
    c = st.get_spacetime_rhs()
    env.check_eq_all("asked again", list(c.array), list(b.array))
    st.setup_rhs()
    c = st.get_spacetime_rhs()
    env.check_eq_all("set up again", [c.array[int(p[i])] for i in range(len(p))], list(ref.array), tol=TOL)
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        env.check_eq_all("initial data are left alone", list(f.x.array), env.reals(nm, len(f.x.array)))
    env.reach()
