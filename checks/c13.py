"""Measured data enter through the caller's data domain and nowhere else."""
import numpy as np

from .st import Model, cfgs, same_matrix

MUST_RUN = ["space_time.py:SpaceTime.__init__", "space_time.py:SpaceTime.setup_rhs"]
ASSUMPTIONS = [
    "interpolation from one mesh to another is an arbitrary linear map of the nodal values",
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings"]


def bounds(tier):
    return ("an indicator given as callable, as a function on the same or on another mesh, or as an "
            "expression (not fitted); arbitrary values; one data domain used for up to three problems on "
            "two meshes; q, q* in 0..2, up to 3 slabs.")


def configs(tier):
    B = [(1, 1, 1, 1, 2), (2, 1, 1, 1, 1), (1, 0, 2, 1, 3)]
    if tier == "thorough":
        B += [(1, 0, 2, 1, 3), (2, 2, 1, 2, 2), (3, 1, 1, 1, 1)]
    out = []
    for q, s, k, ks, N in B:
        for t in ("callable", "function", "othermesh", "expression", "dark", "default"):
            out.append(dict(q=q, s=s, k=k, ks=ks, N=N, tags=(t,), fitted=t != "expression"))
    return cfgs(*out)


def harness(env, cfg):
    from symx.fakes import dolfinx as D
    from symx.fakes import ufl as U

    kind = cfg["tags"][0]
    base = Model(env, cfg, setup=False)
    m = base.m
    other = D.Mesh("other", dim=1, coarse=True)
    if kind == "expression":
        ind, vals = U.field("chi_expr"), None
        omega = m.DataDomain(indicator_function=ind, fitted=False)
    else:
        if kind in ("callable", "default"):
            ind = base.chi
        elif kind == "dark":
            def ind(x):
                return np.zeros(x.shape[1])
        else:
            ind = D.Function(D.FunctionSpace(base.msh if kind == "function" else other, ("DG", 0)))
            ind.x.array[:] = env.reals("chif", len(ind.x.array))
        omega = m.DataDomain(indicator_function=ind) if kind != "default" else m.DataDomain(ind)
        vals = ind.x.array.copy() if isinstance(ind, D.Function) else None

    def ref_omega(mesh=None):
        mesh = mesh or base.msh
        if kind == "expression":
            return U.field("chi_expr")
        f = D.Function(D.FunctionSpace(mesh, ("DG", 0)))
        f.interpolate(ind)
        return f

    # one data domain, several problems
    for i, msh in enumerate((base.msh, other, base.msh)):
        if i == 1 and kind == "expression":
            continue
        sh = base
        M = Model(env, cfg, loaded=(base.ld, base.m), share=sh, omega=omega, setup=False)
        if msh is not M.msh:
            M.msh = msh
            M.st = m.SpaceTime(
                m.OrderTime(M.q, M.s), m.OrderSpace(M.k, M.ks), N=M.N, T=M.T, t=0, msh=msh,
                stabilisation_terms=dict(M.g), omega=omega, solution=M.solution,
                parameters=m.ProblemParameters())
        M.st.setup_spacetime_finite_elements()
        om = {}
        M.ref_omega = lambda mesh=None, om=om: om.setdefault(0, ref_omega(M.msh))
        p = M.full_map()
        same_matrix(env, f"problem {i}: space-time matrix", M.st.get_spacetime_matrix(), M.ref_matrix(), p)
        same_matrix(env, f"problem {i}: slab matrix", M.st.get_slab_matrix(), M.ref_slab_matrix(True),
                    M.slab_map())
        from . import c12

        M.solution.v = lambda t, x, M=M: c12.data(M, t)
        b, ref = M.st.get_spacetime_rhs(), c12.reference(M)
        env.check_eq_all(f"problem {i}: right-hand side", [b.array[int(c)] for c in p], list(ref.array),
                         tol=c12.TOL)
        if kind == "dark":
            env.check_eq_all("without data domain there is no data", list(b.array), [0] * len(b.array))
        env.check("the caller's data domain keeps its indicator", omega.indicator_function is ind
                  and omega.fitted == (kind != "expression"))
        if vals is not None:
            env.check_eq_all("the caller's indicator keeps its values", list(ind.x.array), list(vals))
    env.reach()
