"""Results do not depend on what was asked for before."""
from .st import Model, cfgs, same_matrix
from . import c12

MUST_RUN = ["space_time.py:SpaceTime.get_spacetime_matrix", "space_time.py:SpaceTime.prepare_precondition_gmres"]
MAX_PATHS = 4096
TOL = c12.TOL
ASSUMPTIONS = [
    "direct solvers are exact; the finite element back end is a contract (see C08)",
    "the sequence of requests is symbolic; requests that need the slab solvers or the coarse problem "
    "prepare them first, as the drivers do"]
OPS = ["matrix", "matrix for the preconditioner", "form", "form for the preconditioner", "slab matrix",
       "slab form", "prepare", "right-hand side", "linear form", "errors", "export", "apply the operator",
       "apply the preconditioner", "apply the plain preconditioner", "coarse problem"]


def bounds(tier):
    return ("every sequence of %d requests out of %d kinds, followed by all observations; q, q* in 0..1, "
            "1 to 2 slabs, both settings of the initial data; arbitrary values throughout."
            % (3 if tier == "thorough" else 2, len(OPS)))


def configs(tier):
    out = []
    B = [dict(q=1, s=0, k=1, ks=1, N=2, wp=True), dict(q=1, s=1, k=1, ks=1, N=1)]
    if tier == "thorough":
        B.append(dict(q=1, s=0, k=1, ks=1, N=2))
    for b in B:
        for i, o in enumerate(OPS):
            out.append(dict(b, tags=("first-" + o.replace(" ", "-"),), first=i,
                            length=3 if tier == "thorough" else 2))
    return cfgs(*out)


def harness(env, cfg):
    from symx.fakes import dolfinx as D

    env.roots_of_squares = True
    M = Model(env, cfg)
    st = M.st
    M.solution.v = lambda t, x: c12.data(M, t)
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        f.x.array[:] = env.reals(nm, len(f.x.array))
    st.sample_pts_error = [M.T / 3]
    p = M.full_map()
    for k in range(cfg["length"]):
        if k == 0:
            op = cfg["first"]
        else:
            v = env.integer(f"request{k}", 0, len(OPS) - 1)
            for op in range(len(OPS)):
                if v == op:
                    break
        run(M, op, k)
    env.reach()
    # all observations
    same_matrix(env, "matrix", st.get_spacetime_matrix(), M.ref_matrix(), p)
    same_matrix(env, "matrix for the preconditioner", st.get_spacetime_matrix(precond=True),
                M.ref_matrix(True), p)
    ps = M.slab_map()
    same_matrix(env, "slab matrix", st.get_slab_matrix(), M.ref_slab_matrix(True), ps)
    same_matrix(env, "matrix of the first slab", st.get_slab_matrix_first_slab(),
                M.ref_slab_matrix(M.wp), ps)
    ref = c12.reference(M)
    b = st.get_spacetime_rhs()
    env.check_eq_all("right-hand side", [b.array[int(c)] for c in p], list(ref.array), tol=TOL)
    st.prepare_precondition_gmres()
    M.set_solvers()
    v, w = M.vector("v"), M.vector("w")
    st.apply_spacetime_matrix(v, w)
    env.check_eq_all("operator", [w.array[int(c)] for c in p],
                     list(M.ref_matrix().times([v.array[int(c)] for c in p])))
    st.pre_time_marching_improved(v, w)
    env.check_eq_all("preconditioner", list(M.ref_matrix(True).times([w.array[int(c)] for c in p])),
                     [v.array[int(c)] for c in p])
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        env.check_eq_all("initial data", list(f.x.array), env.reals(nm, len(f.x.array)))


def run(M, op, k):
    from symx.fakes import dolfinx as D

    st, o = M.st, OPS[op]
    if o == "matrix":
        st.get_spacetime_matrix()
    elif o == "matrix for the preconditioner":
        st.get_spacetime_matrix(precond=True)
    elif o == "form":
        st.get_spacetime_bfi()
    elif o == "form for the preconditioner":
        st.get_spacetime_bfi(precond=True)
    elif o == "slab matrix":
        st.get_slab_matrix()
    elif o == "slab form":
        st.get_slab_bfi()
    elif o == "prepare":
        st.prepare_precondition_gmres()
    elif o == "right-hand side":
        st.get_spacetime_rhs()
    elif o == "linear form":
        st.get_spacetime_lfi()
    elif o == "errors":
        st.measured_errors(M.vector(f"e{k}"))
    elif o == "export":
        st.plot_para_view(M.vector(f"e{k}"), name="export")
    elif o == "coarse problem":
        st.prepare_precondition_gmres()
        st.prepare_coarse_grid_correction(D.Mesh(f"coarse{k}", dim=M.msh.dim, coarse=True))
        st.set_solver_coarse(M.lu(st.get_spacetime_matrix_coarse()))
        M.set_solvers()
        st.pre_twolvl(M.vector(f"c{k}"), M.zeros())
    else:
        st.prepare_precondition_gmres()
        M.set_solvers()
        how = {"apply the operator": st.apply_spacetime_matrix,
               "apply the preconditioner": st.pre_time_marching_improved,
               "apply the plain preconditioner": st.pre_time_marching}[o]
        how(M.vector(f"a{k}"), M.vector(f"b{k}"))
