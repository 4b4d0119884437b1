"""The drivers solve their space-time problem and report on its solution."""
import numpy as np

from symx.core import lift

from .dr import DRIVERS
from .gm import contract
from symx import loader

MUST_RUN = [f"{m}.py:{f}" for m in DRIVERS.values()
            for f in ("solve_problem", "get_lu_solver", "PySolver.solve", "PySolver.__init__")]
ASSUMPTIONS = [
    "GMRES is a contract: any vector, converged or not (C05, C06); direct solvers (PETSc LU, PyPardiso with its "
    "phase protocol) are exact",
    "finite element back end is a contract: the pairing of two basis functions under given operators "
    "and weights is an arbitrary real number, equal for equal pairings",
    "matrix, right-hand side and preconditioner of the space-time object are those of C08 to C14; reports on a "
    "solution are those of C15 and C24"]
SIZES = {1: [dict(N=2), dict(N=3, ORDER=2)], 2: [dict(REF_LVL=1, ORDER=1), dict(REF_LVL=1, ORDER=2)],
         3: [dict(REF_LVL=1), dict(REF_LVL=1, ORDER=2)]}
MORE = {1: [dict(N=4), dict(N=8)], 2: [dict(REF_LVL=2, ORDER=1)], 3: [dict(REF_LVL=2)]}
OUTPUTS = ("measured_errors", "plot_error", "plot_para_view", "plot")


def bounds(tier):
    return ("all drivers with each solver (PyPardiso, PETSc LU, direct solve of the whole system); settings edited to "
            "2 or 3 slabs%s, order 1 or 2; started as script or as function, with and without measuring errors; arbitrary outcome of GMRES, "
            "arbitrary pairings; the preconditioner is compared at order 1 in two and three dimensions, at both "
            "orders in one." % (" (up to 8)" if tier == "thorough" else ""))


def configs(tier):
    out = []
    for d in (1, 2, 3):
        for c in SIZES[d] + (MORE[d] if tier == "thorough" else []):
            for kind in ("pypardiso", "petsc-LU", "direct"):
                nm = "-".join(f"{k}{v}" for k, v in c.items())
                out.append(dict(name=f"{d}d-{kind}-{nm}", dim=d, constants=c, kind=kind))
        for kind in ("pypardiso", "petsc-LU"):
            out.append(dict(name=f"{d}d-{kind}-script", dim=d, constants=SIZES[d][0], kind=kind,
                            script=True))
        out.append(dict(name=f"{d}d-petsc-LU-unmeasured", dim=d, constants=SIZES[d][0], kind="petsc-LU",
                        measure=False))
    return out


def harness(env, cfg):
    d, kind = cfg["dim"], cfg["kind"]
    name = "dxss." + DRIVERS[d]
    # the values of the indicator are the subject of C18
    env.node_points = points
    arbitrary = contract(env)

    def hook(ksp, rec):
        arbitrary(ksp, rec)
        rec["failed"] = not bool(rec["reason"] > 0)

    env.ksp_contract = hook
    ld, m = loader.load("space_time", pypardiso=kind == "pypardiso", constants={name: cfg["constants"]},
                        main=name if cfg.get("script") else None)
    reports, made = [], []
    init = m.SpaceTime.__init__

    def record_init(self, *a, **k):
        init(self, *a, **k)
        made.append(self)

    m.SpaceTime.__init__ = record_init
    for o in OUTPUTS:
        if hasattr(m.SpaceTime, o):
            setattr(m.SpaceTime, o, reporter(reports, o))
    error = None
    if cfg.get("script"):
        try:
            ld.get(name)
        except RuntimeError as e:
            error = e
    else:
        mod = ld.get(name)
        if kind == "direct":
            mod.SOLVER_TYPE = "direct"
        else:
            env.check("default solver", mod.SOLVER_TYPE == kind)
        try:
            if cfg.get("measure", True):
                mod.solve_problem(measure_errors=True)
            else:
                mod.solve_problem()
        except RuntimeError as e:
            error = e
    ST = made[-1]
    env.check("stabilisation is positive", all(v > 0 for v in ST.stabilisation_terms.values()))
    env.check("slabs cover the time interval", abs(ST.N * ST.delta_t - (ST.T - ST.t)) < 1e-12)
    solves = [r for k, *v in env.events if k == "ksp.solve" for r in v]
    iterative = [r for r in solves if "reason" in r]
    env.check("one problem", len(made) == 1)
    if kind == "direct":
        if error:
            raise error
        x = reported(env, reports)
        A = ST.get_spacetime_matrix()
        env.check_eq_all("the solution solves the space-time system", list(A.times(list(x))),
                         list(ST.get_spacetime_rhs().array))
        env.reach()
        return
    env.check("one iterative solve", len(iterative) == 1)
    r = iterative[0]
    for key in ("rtol", "atol"):
        env.check("the iteration stops at 1e-7", r["tol"][key] <= 1.0000001e-7)
    if error is not None:
        env.check("only a failed iteration is an error", r["failed"])
        env.check("no report without a solution", not reports)
        env.reach("failed")
        return
    env.check("a failed iteration is an error", not r["failed"])
    if cfg.get("measure", True):
        x = reported(env, reports)
        env.check_eq_all("the reports are about the solution found", list(x), list(r["x_values"]))
    else:
        env.check("errors are measured when asked for", "measured_errors" not in [o for o, _ in reports])
    env.check_eq_all("right-hand side", list(r["b_values"]), list(ST.get_spacetime_rhs().array))
    n = ST.fes.ndof
    A, P = ST.get_spacetime_matrix(), ST.get_spacetime_matrix(precond=True)
    v = vec(env, "v", n)
    y = vec(env, "y", n)
    r["A"].mult(v, y)
    env.check_eq_all("operator", list(y.array), list(A.times(list(v.array))))
    if d > 1 and cfg["constants"].get("ORDER", 1) > 1:
        env.reach()
        return
    z, b = vec(env, "z", n), list(v.array)
    r["ksp"].getPC().apply(v, z)
    env.check_eq_all("preconditioner solves the slab systems", list(P.times(list(z.array))), b)
    env.reach()


def reported(env, reports):
    names = [o for o, _ in reports]
    env.check("errors are measured once", names.count("measured_errors") == 1)
    x = reports[names.index("measured_errors")][1]
    for o, v in reports:
        env.check_eq_all("all reports are about one solution", list(v), list(x))
    return x


def reporter(reports, name):
    def report(self, u, *a, **k):
        reports.append((name, np.array(list(u.array), dtype=object)))
    return report


def vec(env, name, n):
    from symx.fakes import dolfinx as D
    from symx.fakes import petsc

    a = D.new_array(n)
    a[:] = env.reals(name, n)
    return petsc.Vec(a)


def points(mesh, comp, n):
    x = np.zeros((3, n))
    for i in range(n):
        x[:mesh.dim, i] = (i + 0.5) / n
    return x
