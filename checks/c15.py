"""The reported errors are the errors of the continuous reconstruction."""
from fractions import Fraction

from .st import Model, cfgs, num
from .util import d_lagrange, integrate01, lagrange

MUST_RUN = ["space_time.py:SpaceTime.measured_errors"]
TOL = Fraction(1, 10 ** 4)
MAX_PATHS = 64
ASSUMPTIONS = [
    "finite element back end is a contract: integrals of products of basis functions and exact solution "
    "are arbitrary real numbers, equal for equal products; integrals of squares are not negative",
    "sample times are the 105 equidistant times of the documentation, or one arbitrary time; a sample on "
    "a slab interface counts for both slabs; that the rounding of times does not lose the final time is "
    "decided with sums, and products and quotients with numbers, rounded to 53 bits (rounding elsewhere is "
    "outside of the claim)",
    "the time integral of the squared error of the velocity is compared for exact velocities that are "
    "polynomials of degree 2 in time (exact for the five-point Radau rule), up to 1e-4 per monomial and relative to the largest coefficient"]


def bounds(tier):
    return ("time degrees q 1..3, 1 to %d slabs, arbitrary discrete solution, final time and exact "
            "solution; one or two sample times arbitrary in [0, T], in any order, or the default 105 samples; "
            "any final time in [1/64, 64] in double precision with 3, 6, 7, 10 and 14%s slabs; "
            "three processes that contribute alike to every integral."
            % (5, " (24, 28, 29, 38, 49, 54)" if tier == "thorough" else ""))


def configs(tier):
    B = [(1, 1, 1, 1), (1, 1, 1, 2), (2, 0, 1, 2), (3, 1, 1, 2), (1, 1, 2, 3), (2, 2, 1, 3)]
    if tier == "thorough":
        B += [(q, s, k, N) for q in (1, 2, 3) for s in (0, 1) for k in (1, 2) for N in (1, 2, 3, 4)
              if (q, k, N) != (3, 2, 4)]      # (too large for the stated tolerance)
    out = []
    for q, s, k, N in B:
        out += [dict(q=q, s=s, k=k, ks=1, N=N, tags=("anytime",)),
                dict(q=q, s=s, k=k, ks=1, N=N, wp=True, tags=("velocity",))]
    out += [dict(q=1, s=1, k=1, ks=1, N=2, tags=("severaltimes",)),
            dict(q=2, s=0, k=1, ks=1, N=3, tags=("severaltimes",)),
            dict(q=1, s=1, k=1, ks=1, N=5, wp=True, tags=("velocity",)),
            dict(q=1, s=0, k=1, ks=1, N=4, tags=("anytime",)),
            dict(q=1, s=1, k=1, ks=1, N=2, dim=2, tags=("anytime",)),
            dict(q=2, s=0, k=1, ks=1, N=2, dim=3, tags=("velocity",))]
    for N in (3, 6, 7, 10, 14) + ((24, 28, 29, 38, 49, 54) if tier == "thorough" else ()):
        out.append(dict(q=1, s=1, k=1, ks=1, N=N, tags=("rounding",)))
    for q, N in ((1, 1), (1, 2), (2, 2)) + (((1, 4),) if tier == "thorough" else ()):
        out.append(dict(q=q, s=1, k=1, ks=1, N=N, tags=("defaultsamples",), cost=1000))
    return cfgs(*out)


class Reference:
    def __init__(self, M, u):
        from symx.fakes import dolfinx as D

        self.M = M
        V = D.FunctionSpace(M.msh, ("CG", M.k))
        self.u = []
        for i, d in enumerate(M.st.dofmaps_full[0]):
            f = D.Function(V)
            f.x.array[:] = u[d]
            self.u.append(f)

    def at(self, n, tau, rate=False):
        """The continuous reconstruction (or its time derivative) on slab n at t_n + tau dt."""
        M, q = self.M, self.M.q
        a = n * (q + 1)
        phi = d_lagrange if rate else lagrange
        tot = None
        for j in range(q + 1):
            e = phi(q, j, tau) * self.u[a + j]
            tot = e if tot is None else tot + e
        if n:
            s = 2 * tau - 1  # theta(s) = s (s - 1) / 2: one at the start, zero at centre and end
            th = (2 * s - 1) if rate else s * (s - 1) / 2
            tot = tot - th * (self.u[a] - self.u[a - 1])
        return (1 / M.dt) * tot if rate else tot


def size(env, v):
    """The largest coefficient (tolerances are relative to it)."""
    return max([Fraction(1)] + [abs(c) for c in v.p.values()]) if env.mode == "sym" else 1


PROCESSES = 3


def sq(e):
    from symx.fakes import dolfinx as D
    from symx.fakes import ufl as U

    return PROCESSES * D.assemble_scalar(U.inner(e, e) * U.dx)


def squares(env, v):
    """v = max of square roots: the set of the squares."""
    if env.mode == "num":
        return [v * v]
    from symx.core import Sym, lift

    v = lift(v)
    if len(v.p) == 1:
        (m, c), = v.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = env.atoms[m[0][0]]
            if a.fn == "max":
                return [x for s in a.args for x in squares(env, s)]
            if a.fn == "sqrt":
                x = a.args[0]
                if len(x.p) == 1:
                    (m2, c2), = x.p.items()
                    if c2 == 1 and len(m2) == 1 and env.atoms[m2[0][0]].fn == "max":
                        return list(env.atoms[m2[0][0]].args)
                return [x]
    return [v * v]


def same_sets(env, label, got, want):
    """max over `got` equals max over `want`: every value has a partner on the other side."""
    if env.mode == "num":
        env.check_eq(label, got[0], max(want), tol=TOL)
        return
    from symx.core import lift

    def dist(a, b):
        return max([abs(c) for c in (a - b).p.values()], default=0)

    def near(x, ys):
        x = lift(x)
        best = None
        for y in ys:
            y = lift(y)
            if best is None or dist(x, y) < dist(x, best):
                best = y
            if dist(x, best) < TOL:
                break
        return best

    env.check_eq_all(label + ": nothing else counts", got, [near(x, want) for x in got], tol=TOL)
    env.check_eq_all(label + ": every sample counts", want, [near(x, got) for x in want], tol=TOL)


def final_time(env, cfg):
    """The sample at the final time counts with times in double precision."""
    from symx.core import Float

    env.roots_of_squares = env.opaque = True    # only the times matter
    T = env.real("T", Fraction(1, 64), 64, pos=True, usual=4)
    for T in [Float.of(T)] if env.mode == "sym" else [T, 1.0, 3.0, 0.3]:
        M = Model(env, cfg, T=T)
        times = []
        rate = M.solution.dvdt

        def dvdt(time, x):
            times.append(time)
            return rate(time, x)

        def counted(s):
            return any(x is s or (x.key() == s.key() if isinstance(x, Float) and isinstance(s, Float) else
                                  not isinstance(s, Float) and x == s) for x in times)

        M.solution.dvdt = dvdt
        M.st.sample_pts_error = [M.dt / 2, T]
        res = M.st.measured_errors(M.vector("u"))
        env.check("the error at the final time is sampled", counted(T))
        env.check("four errors", len(res) == 4)
    env.reach()


def harness(env, cfg):
    from symx.fakes import ufl as U

    kind = cfg["tags"][0]
    if kind == "rounding":
        return final_time(env, cfg)
    env.roots_of_squares = True
    env.processes = PROCESSES
    M = Model(env, cfg)
    st = M.st
    init = {}
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        f.x.array[:] = env.reals(nm, len(f.x.array))
        init[nm] = f.x.array.copy()
    u = M.vector("u")
    u0 = u.array.copy()
    R = Reference(M, u0)
    samples = [M.T * Fraction(i, 104) if env.mode == "sym" else M.T * i / 104 for i in range(105)]
    where = [[n for n in range(M.N) if n * 104 <= i * M.N <= (n + 1) * 104] for i in range(105)]
    if kind in ("anytime", "severaltimes"):
        samples, where = [], []
        for i in range(1 if kind == "anytime" else 2):
            t = env.real("t" + str(i or ""), 0, 64, usual=3)
            env.within["t" + str(i or "")] = "T"
            n = 0
            for n in range(M.N):
                if n == M.N - 1 or t < (n + 1) * M.dt:
                    break
            env.assume(t > n * M.dt)
            env.assume(t < (n + 1) * M.dt)
            samples.append(t)
            where.append([n])
        st.sample_pts_error = list(samples)
    elif kind == "velocity":
        st.sample_pts_error = [M.T / M.N / 2]
        samples, where = st.sample_pts_error, [[0]]
        M.solution.dvdt = lambda t, x: sum(((t ** p) * U.field(f"g{p}") for p in range(1, 3)),
                                           1 * U.field("g0"))
    kw = dict(verbose=True) if kind == "severaltimes" or cfg["q"] == 2 and kind == "velocity" else {}

    def right(res, R, samples, where):
        env.check("four errors", sorted(res) == sorted(
            ["L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t"]))
        end = sq(R.u[-1] - M.solution.v(M.T, None))
        env.check_eq("error at the final time", res["L2-u1-T"] * res["L2-u1-T"], end)
        eu, ev = [], []
        for t, ns in zip(samples, where):
            for n in ns:
                tau = (t - n * M.dt) / M.dt
                eu.append(sq(R.at(n, tau) - M.solution.v(t, None)))
                ev.append(sq(R.at(n, tau, True) - M.solution.dvdt(t, None)))
        same_sets(env, "largest error over time", squares(env, res["L-infty-L2-error-u"]), eu)
        same_sets(env, "largest error of the velocity over time",
                  squares(env, res["L-infty-L2-error-ut"]), ev)
        if kind == "velocity":
            tot = 0
            for n in range(M.N):
                def f(tau, n=n):
                    return sq(R.at(n, tau, True) - M.solution.dvdt((n + tau) * M.dt, None))
                tot = tot + M.dt * integrate01(env, f)
            got = res["L2-L2-error-u_t"]
            env.check_eq("space-time error of the velocity", got * got, tot, tol=TOL * size(env, tot))

    res = st.measured_errors(u, **kw)
    right(res, R, samples, where)
    env.check_eq_all("the solution is left alone", list(u.array), list(u0))
    for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        env.check_eq_all("initial data are left alone", list(f.x.array), list(init[nm]))
    env.reach()
    again = st.measured_errors(u)
    for k in sorted(res):
        env.check_eq("measured twice: " + k, again[k], res[k])
    if M.N <= 2 and kind in ("anytime", "velocity"):
        # another solution, another list of times: nothing of the first report counts
        u = M.vector("other")
        R = Reference(M, u.array.copy())
        if kind == "anytime":
            samples, where = [M.T, samples[0]], [[M.N - 1], where[0]]
            st.sample_pts_error = list(samples)
        right(st.measured_errors(u), R, samples, where)
