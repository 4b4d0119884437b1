"""The time-marching preconditioners solve with the one-sided jump matrix."""
from .st import Model, cfgs

MUST_RUN = ["space_time.py:SpaceTime.pre_time_marching", "space_time.py:SpaceTime.pre_time_marching_improved",
            "space_time.py:SpaceTimePETScPreconditionerWrapper.apply"]
ASSUMPTIONS = [
    "the direct solver set for a slab returns the exact solution of its system",
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings",
    "with jumps in the forward problem only the plain preconditioner is claimed: the forward "
    "substitution with the trace of the previous slab"]


def bounds(tier):
    return ("time degrees q 1..2 (thorough: 3), q* 0..2, 1 to %d slabs (and 5); arbitrary right-hand sides, "
            "parameters, indicator and pairings; three applications in a row."
            % (4 if tier == "thorough" else 3))


def configs(tier):
    B = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 0, 1, 1, 3), (2, 1, 1, 2, 2), (1, 2, 1, 1, 2), (2, 1, 2, 1, 3), (1, 2, 1, 2, 3)]
    if tier == "thorough":
        B += [(q, s, k, ks, N) for q in (1, 2, 3) for s in (0, 1, 2) for k, ks in ((1, 1), (2, 1))
              for N in (1, 2, 3)] + [(1, 1, 1, 1, 4)]
    out = [dict(q=1, s=0, N=5, wp=True), dict(q=1, s=0, N=5), dict(q=1, s=1, N=4, jumps=True)]
    for q, s, k, ks, N in B:
        d = dict(q=q, s=s, k=k, ks=ks, N=N)
        out += [d, dict(d, wp=True), dict(d, jumps=True)]
    out += [dict(q=1, s=1, N=2, dim=2, wp=True), dict(q=2, s=0, N=2, dim=3)]
    return cfgs(*out)


def harness(env, cfg):
    M = Model(env, cfg)
    st = M.st
    # the solvers that count are those that were set last
    st.set_solver_slab(Outdated(env))
    st.set_solver_first_slab(Outdated(env))
    M.set_solvers()
    st.prepare_precondition_gmres()
    p = M.full_map()
    n = len(p)
    W = M.m.SpaceTimePETScPreconditionerWrapper(st)
    ways = [("plain", st.pre_time_marching)]
    if M.jumps:
        refused = False
        try:
            st.pre_time_marching_improved(M.vector("b"), M.zeros())
        except ValueError:
            refused = True
        env.check("the improved variant refuses jumps in the forward problem", refused)
        P = triangular(M)
    else:
        P = M.ref_matrix(True)
        ways = [("wrapper", lambda b, x: W.apply(None, b, x))] + ways + [
            ("improved", st.pre_time_marching_improved)]
    if M.N == 2 or M.jumps:
        # nothing of an earlier call is left
        ways += [("plain again", st.pre_time_marching)]
    for k, (nm, how) in enumerate(ways):
        b, x = M.vector(f"b{k}"), M.vector(f"x{k}")
        b0 = b.array.copy()
        how(b, x)
        got = P.times([x.array[int(c)] for c in p])
        env.check_eq_all(f"{nm}: the result solves the system", list(got), [b0[int(c)] for c in p])
        env.check_eq_all(f"{nm}: the right-hand side is left alone", list(b.array), list(b0))
    env.reach()


class Outdated:
    """A solver that was replaced before it was needed."""

    def __init__(self, env):
        self.env = env

    def solve(self, b, x):
        x.array[:] = self.env.reals("outdated", len(x.array))


def triangular(M):
    """Slab matrices on the diagonal, incoming traces below it."""
    from symx.fakes import dolfinx as D
    from symx.fakes import ufl as U

    V = M.space()
    tr, te = U.TrialFunctions(V), U.TestFunctions(V)
    (u1, u2, z1, z2), (w1, w2, y1, y2) = tr, te
    F = None
    for n in range(M.N):
        f = M.slab_terms(tr, te, n)
        a, b = n * (M.q + 1), n * (M.s + 1)
        if n or M.wp:
            f = f + M.weight(u1[a], u2[a], w1[a], w2[a])
            f = f - (M.g["dual"] * M.dt) * (U.inner(y1[b], z1[b]) + U.inner(y2[b], z2[b])) * U.dx
            f = f + (U.inner(u2[a], y1[b]) + U.inner(u1[a], y2[b])) * U.dx
        if n:
            f = f - M.weight(u1[a - 1], u2[a - 1], w1[a], w2[a])
            f = f - (U.inner(u2[a - 1], y1[b]) + U.inner(u1[a - 1], y2[b])) * U.dx
        F = f if F is None else F + f
    A = D.assemble_matrix(F)
    A.assemble()
    return A
