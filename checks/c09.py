"""The matrices of one slab are the diagonal blocks of the formulation."""
from .st import Model, cfgs, same_matrix

MUST_RUN = ["space_time.py:SpaceTime.setup_slab_matrix"]
ASSUMPTIONS = [
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings",
    "the matrix of the first slab with prescribed initial data and jumps in the forward problem is not "
    "specified (the formulation has no incoming forward jump there)"]


def bounds(tier):
    return ("time degrees q 1..3, q* 0..3, space degrees 1..3, both problem flags; mesh with at most 4 "
            "unknowns per scalar field; all parameters, indicator values and pairings any real numbers; "
            "up to three ways of asking for the matrices.")


def configs(tier):
    B = [(1, 1, 1, 1), (1, 0, 1, 1), (2, 1, 2, 1), (2, 2, 1, 2), (3, 3, 3, 3), (1, 2, 1, 1), (3, 0, 2, 2)]
    if tier == "thorough":
        B = [(q, s, k, ks) for q in (0, 1, 2, 3) for s in range(4) for k, ks in ((1, 1), (2, 1), (3, 3))]
    out = []
    for q, s, k, ks in B:
        d = dict(q=q, s=s, k=k, ks=ks, N=3)
        out += [d, dict(d, jumps=True), dict(d, wp=True), dict(d, jumps=True, wp=True)]
    out += [dict(q=1, s=1, N=2, fitted=False), dict(q=0, s=0, N=2)]
    out += [dict(q=1, s=1, N=2, dim=2, wp=True), dict(q=2, s=0, N=2, dim=3)]
    return cfgs(*out)


def harness(env, cfg):
    from symx.fakes import dolfinx as D

    M = Model(env, cfg)
    p = M.slab_map()
    st = M.st
    same_matrix(env, "slab matrix", st.get_slab_matrix(), M.ref_slab_matrix(True), p)
    first = not (M.wp and M.jumps)
    if first:
        same_matrix(env, "matrix of the first slab", st.get_slab_matrix_first_slab(),
                    M.ref_slab_matrix(M.wp), p)
        B = D.assemble_matrix(st.get_slab_bfi_first_slab())
        B.assemble()
        same_matrix(env, "form of the first slab", B, M.ref_slab_matrix(M.wp), p)
    B = D.assemble_matrix(st.get_slab_bfi())
    B.assemble()
    same_matrix(env, "slab form", B, M.ref_slab_matrix(True), p)
    # multiplication with the part without couplings
    v, w = M.vector("v", st.fes_p.ndof), M.vector("w", st.fes_p.ndof)
    v0 = v.array.copy()
    st.slab_matrix_no_dg_jumps_multiply(v, w)
    S = M.ref_slab_matrix(False)
    inv = {int(c): r for r, c in enumerate(p)}
    want = S.times([v0[int(c)] for c in p])
    env.check_eq_all("product with the uncoupled slab matrix", list(w.array),
                     [want[inv[i]] for i in range(len(p))])
    env.check_eq_all("the factor is left alone", list(v.array), list(v0))
    env.reach()
    # asked for in another order
    M2 = Model(env, cfg, loaded=(M.ld, M.m), share=M)
    M2.st.prepare_precondition_gmres()
    M2.refs = M.refs
    p2 = M2.slab_map()
    if first:
        same_matrix(env, "matrix of the first slab after preparing the preconditioner",
                    M2.st.get_slab_matrix_first_slab(), M.ref_slab_matrix(M.wp), p2)
    same_matrix(env, "slab matrix after preparing the preconditioner", M2.st.get_slab_matrix(),
                M.ref_slab_matrix(True), p2)
    # set up again, in every order
    for with_jumps in ((False, True), (True, False), (False, False, True)):
        for f in with_jumps:
            M2.st.setup_slab_matrix(with_jumps=f)
    same_matrix(env, "slab matrix after further set-ups", M2.st.get_slab_matrix(), M.ref_slab_matrix(True), p2)
    if first:
        same_matrix(env, "matrix of the first slab after further set-ups",
                    M2.st.get_slab_matrix_first_slab(), M.ref_slab_matrix(M.wp), p2)
