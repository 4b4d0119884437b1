"""The matrix-free operator is the assembled matrix."""
from .st import Model, cfgs

MUST_RUN = ["space_time.py:SpaceTime.apply_spacetime_matrix", "space_time.py:SpaceTimePETScMatrixWrapper.mult"]
ASSUMPTIONS = [
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings"]


def bounds(tier):
    return ("time degrees q 1..3, q* 0..3, space degrees 1..3, 1 to %d slabs (and 5), both problem flags; "
            "arbitrary vector, parameters, indicator and pairings; two products in a row, into vectors "
            "with arbitrary previous contents." % (4 if tier == "thorough" else 3))


def configs(tier):
    B = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 1, 1, 1, 3), (1, 0, 1, 1, 3), (2, 1, 2, 1, 2), (2, 2, 1, 2, 3),
         (3, 3, 1, 1, 2), (1, 2, 1, 1, 2), (2, 1, 1, 2, 3), (1, 2, 2, 1, 3)]
    if tier == "thorough":
        B += [(q, s, k, ks, N) for q in (1, 2, 3) for s in range(4) for k, ks in
              ((1, 1), (2, 1), (1, 3)) for N in (1, 2, 3)] + [(1, 1, 1, 1, 4), (2, 0, 1, 1, 4)]
    out = []
    for q, s, k, ks, N in B:
        d = dict(q=q, s=s, k=k, ks=ks, N=N)
        out += [d, dict(d, wp=True)]
        if N < 3 and q < 3:
            out += [dict(d, jumps=True)]
    out += [dict(q=1, s=1, N=2, fitted=False), dict(q=1, s=0, N=5, wp=True), dict(q=1, s=0, N=5)]
    out += [dict(q=1, s=1, N=2, dim=2, wp=True), dict(q=2, s=0, N=2, dim=3)]
    return cfgs(*out)


def forward_coupling(M):
    """The part of the formulation that couples slabs in the forward problem."""
    from symx.fakes import dolfinx as D
    from symx.fakes import ufl as U

    V = M.space()
    (u1, u2, z1, z2), (w1, w2, y1, y2) = U.TrialFunctions(V), U.TestFunctions(V)
    F = None
    for n in range(1, M.N):
        a, b = n * (M.q + 1), n * (M.s + 1)
        ju1, ju2, jw1, jw2 = (x[a] - x[a - 1] for x in (u1, u2, w1, w2))
        f = (U.inner(ju2, y1[b]) + U.inner(ju1, y2[b]) + U.inner(jw2, z1[b]) + U.inner(jw1, z2[b])) * U.dx
        f = f - (M.g["dual"] * M.dt) * (U.inner(y1[b], z1[b]) + U.inner(y2[b], z2[b])) * U.dx
        F = f if F is None else F + f
    C = D.assemble_matrix(F)
    C.assemble()
    return C


def harness(env, cfg):
    M = Model(env, cfg)
    st = M.st
    st.prepare_precondition_gmres()
    p = M.full_map()
    n = len(p)
    A = M.ref_matrix()
    C = forward_coupling(M) if M.jumps and M.N > 1 else None
    W = M.m.SpaceTimePETScMatrixWrapper(st)
    for k, how in enumerate((st.apply_spacetime_matrix, lambda a, b: W.mult(None, a, b))):
        v, w = M.vector(f"v{k}"), M.vector(f"w{k}")
        v0 = v.array.copy()
        how(v, w)
        got = [w.array[int(p[i])] for i in range(n)]
        x = [v0[int(c)] for c in p]
        want = A.times(x)
        if C is not None:
            # a known defect must not hide others
            without = list(want - C.times(x))
            same = same_coupling(env, got, want)
            if not same:
                env.check_eq_all("matrix-free product apart from the forward coupling", got, without)
        env.check_eq_all("the argument is left alone", list(v.array), list(v0))
        env.check_eq_all("matrix-free product", got, list(want))
    env.reach()


def same_coupling(env, got, want):
    return all(str(a - b) == "0" or not _far(a - b) for a, b in zip(got, want))


def _far(d):
    p = getattr(d, "p", None)
    if p is None:
        return abs(d) > 1e-7
    return any(abs(c) > 1e-7 for c in p.values())
