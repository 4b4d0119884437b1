"""Two-grid operators: interpolation, coarse correction and the two-level preconditioner."""
from .c11 import Outdated
from .st import Model, cfgs, same_matrix

MUST_RUN = ["space_time.py:SpaceTime.pre_twolvl", "space_time.py:SpaceTime.q_op",
            "space_time.py:SpaceTime.prolongation", "space_time.py:SpaceTime.restriction"]
ASSUMPTIONS = [
    "direct solvers for the slabs and for the coarse problem are exact",
    "interpolation from one mesh to another is an arbitrary linear map of the nodal values",
    "an indicator given as expression (not fitted) is not used with a coarse mesh",
    "the two-level preconditioner is claimed without jumps in the forward problem (it uses the "
    "matrix-free operator, see C10)"]


def bounds(tier):
    return ("time degrees q 1..2, q* 0..2, space degrees 1..2 (equal or not), 1 to 3 slabs and 5; arbitrary "
            "vectors, parameters, pairings and interpolation weights; two applications in a row.")


def configs(tier):
    B = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 0, 1, 1, 2), (2, 1, 1, 1, 1), (1, 1, 2, 1, 1), (1, 2, 1, 2, 2), (1, 0, 2, 1, 3)]
    if tier == "thorough":
        B += [(q, s, k, ks, N) for q in (1, 2) for s in (0, 1, 2) for k, ks in ((1, 1), (2, 2), (1, 2))
              for N in (1, 2, 3)]
    out = []
    for q, s, k, ks, N in B:
        d = dict(q=q, s=s, k=k, ks=ks, N=N)
        out += [d, dict(d, wp=True)]
    out.append(dict(q=1, s=1, k=1, ks=1, N=2, jumps=True))
    out.append(dict(q=1, s=0, k=1, ks=1, N=5))
    return cfgs(*out)


def harness(env, cfg):
    from symx.fakes import dolfinx as D

    M = Model(env, cfg)
    st = M.st
    coarse = D.Mesh("coarse", dim=M.msh.dim, coarse=True)
    st.prepare_precondition_gmres()
    st.prepare_coarse_grid_correction(coarse)
    Ac = st.get_spacetime_matrix_coarse()
    pf = M.full_map()
    Vc = M.space(mesh=coarse)
    pc = M.to_code(Vc, st.dofmaps_full_coarse)
    same_matrix(env, "coarse matrix", Ac, M.ref_matrix(mesh=coarse), pc)
    Vf = M.space()
    nf, nc = len(pf), len(pc)
    deg = [M.k, M.k, M.ks, M.ks]

    def carry(src, V1, m1, V2, m2):
        """Interpolate every (variable, time node) from the mesh of V1 to that of V2."""
        out = D.new_array(len(m2))
        for j, (c1, c2) in enumerate(zip(V1.block_components(), V2.block_components())):
            for a, b in zip(c1, c2, strict=True):
                f = D.Function(D.FunctionSpace(V1.mesh, ("CG", deg[j])))
                f.x.array[:] = src[[int(m1[r]) for r in V1.dofs[a]]]
                g = D.Function(D.FunctionSpace(V2.mesh, ("CG", deg[j])))
                g.interpolate(f)
                out[[int(m2[r]) for r in V2.dofs[b]]] = g.x.array
        return out

    def R(v):
        return carry(v, Vf, pf, Vc, pc)

    def P(v):
        return carry(v, Vc, pc, Vf, pf)

    for k in range(2):
        xc, xf = M.vector(f"xc{k}", nc), M.vector(f"xf{k}")
        c0 = xc.array.copy()
        st.prolongation(xc, xf)
        env.check_eq_all("prolongation interpolates every unknown", list(xf.array), list(P(c0)))
        env.check_eq_all("prolongation leaves its argument alone", list(xc.array), list(c0))
        xc, xf = M.vector(f"yc{k}", nc), M.vector(f"yf{k}")
        f0 = xf.array.copy()
        st.restriction(xc, xf)
        env.check_eq_all("restriction interpolates every unknown", list(xc.array), list(R(f0)))
        env.check_eq_all("restriction leaves its argument alone", list(xf.array), list(f0))
    st.set_solver_coarse(Outdated(env))
    st.set_solver_coarse(M.lu(Ac))
    b, x = M.vector("b"), M.vector("x")
    b0 = b.array.copy()
    qb = P(Ac.solve_exact(R(b0)))
    st.q_op(b, x)
    env.check_eq_all("coarse grid correction", list(x.array), list(qb))
    env.check_eq_all("coarse grid correction leaves its argument alone", list(b.array), list(b0))
    if M.jumps:
        return
    M.set_solvers()
    A, Pre = M.ref_matrix(), M.ref_matrix(True)
    for k in range(2):
        b, x = M.vector(f"tb{k}"), M.vector(f"tx{k}")
        b0 = b.array.copy()
        qb = P(Ac.solve_exact(R(b0)))
        st.pre_twolvl(b, x)
        d = x.array - qb
        res = [b0[int(c)] for c in pf] - A.times([qb[int(c)] for c in pf])
        env.check_eq_all("two-level: time marching on the remaining residual",
                         list(Pre.times([d[int(c)] for c in pf])), list(res))
        env.check_eq_all("two-level: right-hand side left alone", list(b.array), list(b0))
    env.reach()
