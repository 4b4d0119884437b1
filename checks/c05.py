"""GMRES returns a solution exactly when the iteration converged."""
from .gm import Problem, contract, load, solves

MUST_RUN = ["gmres.py:get_gmres_solution"]
ASSUMPTIONS = ["PETSc is a contract: any converged reason -12..-1 or 1..9, any iteration count, any "
               "solution vector; a negative reason means that the stopping criterion was not met"]


def bounds(tier):
    return ("systems of size 1 to %d with arbitrary matrix, preconditioner and right-hand side; every "
            "reason code -12..9 except 0; two consecutive solves of different systems and a third of the same." % (6 if tier == "thorough" else 3))


def configs(tier):
    out = []
    for n in range(1, (7 if tier == "thorough" else 4)):
        for pr in (True, False):
            out.append(dict(name=f"n{n}-print{int(pr)}", n=n, pr=pr))
    return out


def harness(env, cfg):
    from symx.fakes import petsc

    env.ksp_contract = contract(env)
    ld, m = load("gmres")
    earlier = []
    for k in range(3):
        if k < 2:
            p = Problem(env, cfg["n"], tag=f"{k}.")
        else:
            # the same system again: whatever came out before, this solve counts
            p.b._a[:] = env.reals("b2.", cfg["n"])
        err = None
        res = None
        try:
            res = m.get_gmres_solution(p.A, p.b, p.pre, printrates=cfg["pr"])
        except Exception as e:
            # as in PETSc, failing to converge is reported as PETSc.Error
            if not isinstance(e, (petsc.Error, RuntimeError)):
                raise
            if getattr(e, "_symx_refusal", False):
                raise
            err = e
        ss = solves(env)
        env.check("one solve per call", len(ss) == k + 1)
        reason = ss[k]["reason"]
        if err is not None:
            env.check("raises only if the iteration did not converge", reason < 0)
        else:
            env.check("returns only if the iteration converged", reason > 0)
            x, r = res
            env.check_eq_all("returns the vector that the iteration produced",
                             list(x.array), list(ss[k]["x_values"]))
            earlier.append((x, list(x.array), r, list(r.array)))
    for x, xv, r, rv in earlier:
        env.check_eq_all("a solution stays what it was after another solve", list(x.array), xv)
        env.check_eq_all("a residual stays what it was after another solve", list(r.array), rv)
    env.reach()
