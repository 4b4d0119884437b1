"""Plots and exported fields show the computed solution at the right places."""
from fractions import Fraction

from .st import Model, cfgs
from .util import d_lagrange, lagrange

MUST_RUN = ["space_time.py:SpaceTime.plot", "space_time.py:SpaceTime.plot_error",
            "space_time.py:SpaceTime.plot_para_view"]
ASSUMPTIONS = [
    "the values of basis functions at points are arbitrary real numbers",
    "colours, norms and the rendering itself are outside of the claim; the plotted array, its axes and "
    "the exported fields are what is decided",
    "plots show the solution as computed (no lifting of jumps)"]


def bounds(tier):
    return ("time degrees q 1..3, 1 to 3 slabs and 5, %s, arbitrary solution, exact solution and final time."
            % ("up to 7 points in space and 5 per slab" if tier == "thorough" else
               "3 points in space and 2 per slab, then 4 and 3, or the defaults for one small case"))


def configs(tier):
    out = []
    B = [(1, 1, 1, 2), (2, 1, 1, 2), (3, 0, 1, 1), (1, 0, 2, 3), (2, 2, 1, 3), (1, 0, 1, 5)]
    if tier == "thorough":
        B += [(q, s, k, N) for q in (1, 2, 3) for s in (0, 2) for k in (1, 2) for N in (1, 2, 3)]
    for q, s, k, N in B:
        for t in ("plot", "abs", "error", "export"):
            out.append(dict(q=q, s=s, k=k, ks=1, N=N, tags=(t,), ns=3, nt=2))
    if tier == "thorough":
        for t in ("plot", "error"):
            out.append(dict(q=2, s=1, k=1, ks=1, N=2, tags=(t, "fine"), ns=7, nt=5))
    for t in ("plot", "error"):
        out.append(dict(q=1, s=0, k=1, ks=1, N=1, tags=(t, "default"), ns=None, nt=None))
    return cfgs(*out)


def harness(env, cfg):
    from symx.fakes import dolfinx as D
    from symx.fakes import misc
    from symx.fakes import ufl as U

    import numpy as np

    kind = cfg["tags"][0]
    M = Model(env, cfg)
    st = M.st
    ns, nt = cfg["ns"] or 100, cfg["nt"] or 10
    kw = {} if cfg["ns"] is None else dict(n_space=ns, n_time_subdiv=nt)
    # later solutions are shown as well as the first
    for name in ("u", "second", "later") if M.N == 2 and M.q < 3 else ("u",):
        first = len(env.events)
        if name == "later":
            ns, nt = ns + 1, nt + 1
            kw = dict(n_space=ns, n_time_subdiv=nt)
        u = M.vector(name)
        u0 = u.array.copy()
        V = D.FunctionSpace(M.msh, ("CG", M.k))
        xs = [Fraction(i, ns - 1) for i in range(ns)]

        def nodal(j, i):
            f = D.Function(V)
            f.x.array[:] = u0[st.dofmaps_full[j][i]]
            return f

        if kind == "export":
            init = []
            for f, nm in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
                f.x.array[:] = env.reals(name + nm, len(f.x.array))
                init.append(f.x.array.copy())
            stem = "abserr" if name == "later" else "dir/result"
            st.plot_para_view(u, **({} if name == "later" else dict(name=stem)))
            wr = [e for e in env.events[first:] if e[0] == "write_function"]
            env.check("one file for the solution, one for the velocity",
                      [e[1] for e in wr] == [f"{stem}-u.xdmf", f"{stem}-ut.xdmf"])
            ms = [e for e in env.events[first:] if e[0] == "write_mesh"]
            env.check("with the mesh", [e[1] for e in ms] == [e[1] for e in wr]
                      and all(e[2] is M.msh for e in ms))
            for j, (e, ex) in enumerate(zip(wr, (M.solution.v, M.solution.dvdt))):
                g = D.Function(V)
                g.interpolate(D.Expression(ex(M.T, None), None))
                last = nodal(j, (M.q + 1) * M.N - 1).x.array
                env.check_eq_all(f"exported field {j} is the nodal error at the final time", list(e[4]),
                                 [abs(a - b) for a, b in zip(g.x.array, last)])
            for f, v in zip((st.u1_0, st.u2_0), init):
                env.check_eq_all("initial data are left alone", list(f.x.array), list(v))
        else:
            def v(t, x):
                return env.uf("exact", t, x[0]) if not isinstance(x, U.Expr) else U.field("exact", t)

            def dv(t, x):
                return env.uf("dt_exact", t, x[0]) if not isinstance(x, U.Expr) else U.field("dt_exact", t)

            M.solution.v, M.solution.dvdt = v, dv
            if kind == "error":
                st.plot_error(u, **kw)
            else:
                st.plot(u, **(dict(kw, abs_val=True) if kind == "abs" else kw))
            pts = np.array([(float(x), 0.0, 0.0) for x in xs])
            if env.mode == "sym":
                pts = np.array([(x, 0, 0) for x in np.linspace(0.0, 1.0, num=ns).tolist()], dtype=object)
            at = [misc.evaluate_function_at_points(nodal(0, i), pts) for i in range((M.q + 1) * M.N)]
            val, rate, ev, er, ts = [], [], [], [], []
            for n in range(M.N):
                for m in range(nt):
                    tau = Fraction(m, nt) if env.mode == "sym" else m / nt
                    t = (n + tau) * M.dt
                    ts.append(t)
                    w, dw = [], []
                    for j in range(ns):
                        w.append(sum(lagrange(M.q, i, tau) * at[n * (M.q + 1) + i][j] for i in range(M.q + 1)))
                        dw.append(sum(d_lagrange(M.q, i, tau) * at[n * (M.q + 1) + i][j]
                                      for i in range(M.q + 1)) / M.dt)
                    val.append(w)
                    rate.append(dw)
                    if kind == "error":
                        ev.append([a - env.uf("exact", t, float(x)) for a, x in zip(w, xs)])
                        er.append([a - env.uf("dt_exact", t, float(x)) for a, x in zip(dw, xs)])
            pl = [e[1] for e in env.events[first:] if e[0] == "pcolormesh"]
            if kind == "error":
                want = [("velocity", rate, False), ("error", ev, True), ("error of the velocity", er, True)]
            else:
                want = [("solution", val, kind == "abs"), ("velocity", rate, kind == "abs")]
            env.check("number of pictures", len(pl) == len(want))
            tol = Fraction(1, 10 ** 7)
            for (nm, ref, ab), a in zip(want, pl):
                env.check_eq_all(f"{nm}: points in space", list(a[0]), [float(x) for x in xs])
                env.check_eq_all(f"{nm}: points in time", list(a[1]), ts)
                env.check(f"{nm}: shape", tuple(a[2].shape) == (len(ts), ns))
                got = [a[2][i, j] for i in range(len(ts)) for j in range(ns)]
                ref = [x for r in ref for x in r]
                if ab:
                    # |got| = |ref| and got >= 0
                    got2, ref2 = [], []
                    for g, r in zip(got, ref):
                        if env.mode == "num":
                            got2.append(g)
                            ref2.append(abs(r))
                            continue
                        got2.append(magnitude(env, g, r))
                        ref2.append(r)
                    env.check(f"{nm}: magnitudes", all(x is not None for x in got2))
                    env.check_eq_all(f"{nm}: values", [x for x in got2 if x is not None],
                                     [r for x, r in zip(got2, ref2) if x is not None], tol=tol)
                else:
                    env.check_eq_all(f"{nm}: values", got, ref, tol=tol)
        env.check_eq_all("the solution is left alone", list(u.array), list(u0))
    env.reach()


def magnitude(env, g, r):
    """g = |x|: x with the sign that is closest to r."""
    from symx.core import lift

    g, r = lift(g), lift(r)
    if not g.p:
        return g
    if len(g.p) != 1:
        return None
    (m, c), = g.p.items()
    if c <= 0 or len(m) != 1 or m[0][1] != 1 or env.atoms[m[0][0]].fn != "abs":
        return None
    x = env.atoms[m[0][0]].args[0] * c

    def far(a):
        return max([abs(k) for k in a.p.values()], default=0)

    return x if far(x - r) <= far(x + r) else -x
