"""Problems that live side by side do not influence each other."""
from . import c12
from .st import Model, cfgs, same_matrix

MUST_RUN = ["space_time.py:SpaceTime.__init__", "space_time.py:SpaceTime.apply_spacetime_matrix",
            "space_time.py:SpaceTime.pre_time_marching_improved"]
MAX_PATHS = 1024
TOL = c12.TOL
ASSUMPTIONS = [
    "direct solvers are exact; the finite element back end is a contract (see C08)",
    "problems are made and used by one program, one after the other (no threads)"]
OPS = ["nothing", "matrix", "matrix for the preconditioner", "slab matrix", "right-hand side", "prepare",
       "apply", "errors"]
QUICK = [0, 1, 4, 6, 7]


def bounds(tier):
    return ("two problems on one mesh or two, sharing their data domain or not, with different or equal degrees, flags, final times, stabilisation, data and "
            "indicators; every choice of one request out of %d before and one after the second problem is "
            "made%s; then all observations of both, in both orders." % (
                len(OPS) if tier == "thorough" else len(QUICK), " by either problem" if tier == "thorough" else ""))


A = dict(q=1, s=0, k=1, ks=1, N=2)
PAIRS = [(dict(A, wp=True), dict(A, N=1, k=2)), (dict(A, N=1, s=1), dict(A, N=2, wp=True, explicit_parameters=True)),
         (dict(A, jumps=True, wp=True), dict(A, N=3)), (dict(A), dict(A, q=2, s=1, N=1)), (dict(A), dict(A)),
         (dict(A), dict(A, q=2, s=1, k=2, N=3, wp=True))]
# what both problems of a pair are given
SHARED = {2: "mesh", 4: "mesh", 5: "mesh, data domain, final time and stabilisation"}


def configs(tier):
    out = []
    for i, (a, b) in enumerate(PAIRS):
        for j in (range(len(OPS)) if tier == "thorough" else QUICK):
            o = OPS[j]
            for late in ((0, 1) if tier == "thorough" else (i % 2,)):
                c, = cfgs(dict(a, tags=(f"pair{i}", o.replace(" ", "-"), f"late{late}"), first=j, late=late))
                out.append(dict(c, other=b, shared=SHARED.get(i, ""), ops=list(range(len(OPS))) if tier == "thorough" else QUICK))
    return out


def harness(env, cfg):
    env.roots_of_squares = True
    X = make(env, cfg, "A")
    run(X, cfg["first"], 0)
    Y = make(env, cfg["other"], "B", X, cfg["shared"])
    v = env.integer("request", 0, len(cfg["ops"]) - 1)
    for k, op in enumerate(cfg["ops"]):
        if v == k:
            break
    run(Y if cfg["late"] else X, op, 1)
    env.reach()
    for M in ((X, Y) if cfg["late"] else (Y, X)):
        observe(M)
    for M in (X, Y):
        inputs(M)


def make(env, cfg, tag, X=None, shared=""):
    kw = {}
    if X:
        kw["loaded"] = X.ld, X.m
    if "mesh" in shared:
        kw["msh"] = X.msh
    if "domain" in shared:
        kw.update(share=X, omega=X.omega, chi=X.chi, stabs=X.stabs)
    M = Model(env, cfg, tag=tag, **kw)
    M.solution.v = lambda t, x: c12.data(M, t)
    M.initial = []
    for f, nm in ((M.st.u1_0, "u0"), (M.st.u2_0, "u0t")):
        f.x.array[:] = env.reals(nm + tag, len(f.x.array))
    M.st.sample_pts_error = [M.T / 3]
    return M


def run(M, op, k):
    st, o = M.st, OPS[op]
    if o == "matrix":
        st.get_spacetime_matrix()
    elif o == "matrix for the preconditioner":
        st.get_spacetime_matrix(precond=True)
    elif o == "slab matrix":
        st.get_slab_matrix()
    elif o == "right-hand side":
        st.get_spacetime_rhs()
    elif o == "prepare":
        st.prepare_precondition_gmres()
    elif o == "errors":
        st.measured_errors(M.vector(f"e{k}{M.tag}"))
    elif o == "apply":
        st.prepare_precondition_gmres()
        M.set_solvers()
        st.apply_spacetime_matrix(M.vector(f"a{k}{M.tag}"), M.zeros())
        st.pre_time_marching(M.vector(f"p{k}{M.tag}"), M.zeros())


def observe(M):
    env, st, nm = M.env, M.st, M.tag + ": "
    p, ps = M.full_map(), M.slab_map()
    same_matrix(env, nm + "matrix", st.get_spacetime_matrix(), M.ref_matrix(), p)
    same_matrix(env, nm + "slab matrix", st.get_slab_matrix(), M.ref_slab_matrix(True), ps)
    st.prepare_precondition_gmres()
    first = not (M.wp and M.jumps)
    if first:
        same_matrix(env, nm + "matrix of the first slab", st.get_slab_matrix_first_slab(),
                    M.ref_slab_matrix(M.wp), ps)
    b = st.get_spacetime_rhs()
    ref = c12.reference(M)
    env.check_eq_all(nm + "right-hand side", [b.array[int(c)] for c in p], list(ref.array), tol=TOL)
    if M.jumps:
        return
    M.set_solvers()
    v, w = M.vector("v" + M.tag), M.zeros()
    st.apply_spacetime_matrix(v, w)
    env.check_eq_all(nm + "operator", [w.array[int(c)] for c in p],
                     list(M.ref_matrix().times([v.array[int(c)] for c in p])))
    st.pre_time_marching_improved(v, w)
    env.check_eq_all(nm + "preconditioner",
                     list(M.ref_matrix(True).times([w.array[int(c)] for c in p])),
                     [v.array[int(c)] for c in p])


def inputs(M):
    """What the caller handed in is as it was."""
    env, st, nm = M.env, M.st, M.tag + ": "
    env.check(nm + "stabilisation handed in", sorted(M.stabs) == sorted(M.g))
    env.check_eq_all(nm + "stabilisation handed in", [M.stabs[k] for k in sorted(M.g)],
                     [M.g[k] for k in sorted(M.g)])
    for f, n in ((st.u1_0, "u0"), (st.u2_0, "u0t")):
        env.check_eq_all(nm + "initial data", list(f.x.array), env.reals(n + M.tag, len(f.x.array)))
