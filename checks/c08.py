"""The assembled matrix is the stabilised space-time formulation."""
from .st import Model, cfgs, same_matrix

MUST_RUN = ["space_time.py:SpaceTime.setup_spacetime_matrix"]
ASSUMPTIONS = [
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings; under-integration (quadrature "
    "degree below the degree of the integrand) counts as a different number"]


def bounds(tier):
    return ("time degrees q 1..3, q* 0..3, space degrees 1..3, 1 to %d slabs (and 5), both problem flags; mesh "
            "with at most 4 unknowns per scalar field; final time in [1/64, 64], all four stabilisation parameters in (0, 10^6], "
            "indicator values and all pairings any real numbers." % (4 if tier == "thorough" else 3))


def configs(tier):
    B = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 0, 1, 1, 3), (2, 1, 2, 1, 2), (2, 2, 1, 2, 2),
         (3, 3, 3, 3, 1), (3, 0, 2, 1, 2), (1, 2, 1, 1, 2)]
    if tier == "thorough":
        B = [(q, s, k, ks, N) for q in (1, 2, 3) for s in range(4) for k, ks in
             ((1, 1), (2, 1), (3, 3)) for N in (1, 2, 3)] + [(1, 1, 1, 1, 4), (2, 0, 1, 1, 4)]
    out = []
    for i, (q, s, k, ks, N) in enumerate(B):
        d = dict(q=q, s=s, k=k, ks=ks, N=N)
        out.append(d)
        if tier == "thorough" or i < 4:
            out += [dict(d, jumps=True), dict(d, wp=True), dict(d, jumps=True, wp=True)]
    if tier != "thorough":
        for q, s, k, ks in ((1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 2, 1), (2, 0, 1, 1)):
            d = dict(q=q, s=s, k=k, ks=ks, N=3)
            out += [dict(d, jumps=True), dict(d, wp=True), dict(d, jumps=True, wp=True, fitted=False)]
        out += [dict(q=3, s=2, k=2, ks=1, N=2, jumps=True, wp=True), dict(q=1, s=3, N=2, jumps=True)]
    out += [dict(q=1, s=0, N=5, wp=True), dict(q=1, s=0, N=5, jumps=True)]
    out += [dict(q=1, s=1, N=2, fitted=False), dict(q=0, s=0, N=2)]
    out += [dict(q=1, s=1, N=2, dim=2, wp=True), dict(q=2, s=0, N=2, dim=3)]
    return cfgs(*out)


def harness(env, cfg):
    M = Model(env, cfg)
    p = M.full_map()
    A = M.st.get_spacetime_matrix()
    same_matrix(env, "assembled form", A, M.ref_matrix(), p)
    n = len(p)
    keys = [(i, j) for i, r in enumerate(A.rows) for j in r if i < j or i not in A.rows[j]]
    env.check_eq_all("the form is symmetric", [A.entry(i, j) for i, j in keys],
                     [A.entry(j, i) for i, j in keys])
    # the compiled form is the one the matrix was assembled from
    from symx.fakes import dolfinx as D

    B = D.assemble_matrix(M.st.get_spacetime_bfi())
    B.assemble()
    same_matrix(env, "compiled form", B, M.ref_matrix(), p)
    env.reach()
    # a fresh problem, asked for the variant used by the preconditioner
    M2 = Model(env, cfg, loaded=(M.ld, M.m), share=M)
    P = M2.st.get_spacetime_matrix(precond=True)
    same_matrix(env, "one-sided jump variant", P, M.ref_matrix(True), M2.full_map())
