"""GMRES solves the requested problem with the requested settings."""
from fractions import Fraction

from .gm import Problem, contract, load, printed, same_map, solves

MUST_RUN = ["gmres.py:get_gmres_solution"]
ASSUMPTIONS = ["PETSc is a contract (settings are recorded with the rules of PETSc 3.19, checked "
               "against the installed one); convergence of the iteration itself is PETSc's",
               "settings are compared exactly (no tolerance)"]
OPTS = {"rtol": "ksp_rtol", "atol": "ksp_atol", "max_it": "ksp_max_it",
        "restart": "ksp_gmres_restart"}


def bounds(tier):
    return ("systems of size %s with arbitrary matrix, preconditioner and right-hand side; absolute "
            "tolerance any in [0, 1], relative any in [0, 1), iteration limit and restart length any "
            "integer up to 10^6; all combinations of given/defaulted settings; each run-time option; two "
            "consecutive calls for different systems and a third one for the same system with other "
            "settings and another right-hand side." % ("1, 2, 3, 5" if tier == "thorough" else "3"))


def configs(tier):
    out = []
    sizes = (1, 2, 3, 5) if tier == "thorough" else (3,)
    for n in sizes:
        for mask in range(16):
            for pr in ((True, False) if tier == "thorough" else (bool(mask % 2 ^ (mask // 4) % 2),)):
                out.append(dict(name=f"n{n}-given{mask:04b}-print{int(pr)}", n=n, mask=mask, pr=pr,
                                opt=None))
        for o in OPTS:
            out.append(dict(name=f"n{n}-runtime-{o}", n=n, mask=15, pr=False, opt=o))
            out.append(dict(name=f"n{n}-runtime-{o}-defaults", n=n, mask=0, pr=True, opt=o))
        out.append(dict(name=f"n{n}-default-print", n=n, mask=0, pr=None, opt=None))
    return out


def settings(env, mask, tag):
    kw = {}
    if mask & 1:
        kw["tol"] = env.real("tol" + tag, 0, 1)
    if mask & 2:
        kw["reltol"] = env.real("reltol" + tag, 0, Fraction(127, 128))
    if mask & 4:
        kw["maxsteps"] = env.integer("maxsteps" + tag, 0, 10 ** 6)
    if mask & 8:
        kw["restart"] = env.integer("restart" + tag, 1, 10 ** 6)
    return kw


def harness(env, cfg):
    from symx.fakes import dolfinx as D
    from symx.fakes import petsc

    converge = contract(env)

    def hook(ksp, rec):
        converge(ksp, rec)
        env.assume(rec["reason"] > 0)

    env.ksp_contract = hook
    runtime = None
    if cfg["opt"]:
        o = cfg["opt"]
        runtime = (env.integer("runtime", 1, 10 ** 6) if o in ("max_it", "restart")
                   else env.real("runtime", 0, Fraction(127, 128), pos=True))
        env.petsc_options = {OPTS[o]: runtime}
    ld, m = load("gmres")
    # a second call must not be influenced by the first, nor a third one with the same objects
    for k, mask in enumerate((cfg["mask"], 15 - cfg["mask"], cfg["mask"])):
        tag = f"{k}"
        n = cfg["n"] + min(k, 1)
        if k < 2:
            p = Problem(env, n, tag=tag)
        else:
            p.b._a[:] = env.reals("b" + tag, n)
            p.b0 = p.b._a.copy()
        kw = settings(env, mask, tag)
        if cfg["pr"] is not None:
            kw["printrates"] = cfg["pr"]
        x, r = m.get_gmres_solution(A=p.A, b=p.b, pre=p.pre, **kw)
        env.check("one solve per call", len(solves(env)) == k + 1)
        s = solves(env)[-1]
        ksp = s["ksp"]
        env.check("the method is GMRES", s["type"] == "gmres")
        want = dict(atol=kw.get("tol", 1e-12), rtol=kw.get("reltol", 1e-7),
                    max_it=kw.get("maxsteps", 100), restart=kw.get("restart", 1000))
        if cfg["opt"]:
            want[cfg["opt"]] = runtime
        got = dict(s["tol"], restart=s["specific"].get("restart"))
        for key, v in want.items():
            env.check(f"setting {key} is honoured", got[key] is not None and got[key] == v)
        env.check("robust orthogonalisation", petsc._flag(
            s["options"].get("ksp_gmres_modifiedgramschmidt", False)))
        env.check("no other stopping rule", s["conv_test"] is None)
        env.check("starts from zero", not s["nonzero"])
        env.check_eq_all("right-hand side of the solve", list(s["b_values"]), list(p.b0))
        env.check_eq_all("right-hand side is left untouched", list(p.b._a), list(p.b0))

        def through_A(v, s=s, n=n):
            y = petsc.Vec(D.new_array(n))
            s["A"].mult(petsc.Vec(v), y)
            return y._a

        def through_pc(v, ksp=ksp, n=n):
            y = petsc.Vec(D.new_array(n))
            ksp._pc.apply(petsc.Vec(v), y)
            return y._a

        same_map(env, "operator of the solve", through_A, p.A, n)
        same_map(env, "preconditioner of the solve", through_pc, p.pre, n)
        env.check_eq_all("solution", list(x.array), list(s["x_values"]))
        env.check_eq_all("residual is b - A x", list(r.array),
                         [bi - ax for bi, ax in zip(p.b0, p.A.times(list(s["x_values"])))])
        lines = printed(env, s["events_before_monitors"], s["events_after_monitors"])
        if cfg["pr"] is False:
            env.check("no convergence rates unless asked for", not lines)
        else:
            env.check("convergence rates are printed", len(lines) >= 2
                      and any("0" in x for x in lines) and any("1" in x for x in lines))
    env.reach()
