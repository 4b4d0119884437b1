"""Time element matrices are the exact integrals of the products of basis functions."""
from symx.loader import load

from .util import d_lagrange, integrate01, lagrange

MUST_RUN = ["precomp_time_int.py:get_elmat_time"]
ASSUMPTIONS = ["integration by sympy is executed for real (concrete polynomials); its results enter "
               "the queries"]


def bounds(tier):
    return ("all 16 pairs of degrees (0 to 3 each); coefficients of both functions any real numbers "
            "(each matrix is a bilinear form in them); asked for after the pairs that share one degree.")


def configs(tier):
    return [dict(name=f"q{q}-qs{s}", q=q, s=s, cost=1 + q * s) for q in range(4) for s in range(4)]


def history(q, s):
    return [x for x in ((s, q), (q, (s + 1) % 4), ((q + 1) % 4, s)) if x != (q, s)]


def harness(env, cfg):
    q, s = cfg["q"], cfg["s"]
    ld, m = load("precomp_time_int", standins={})
    # other requests before must not matter
    for a, b in history(q, s):
        m.get_elmat_time(a, b)
    el = m.get_elmat_time(q, s)
    u, w = env.reals("u", q + 1), env.reals("w", q + 1)
    y, z = env.reals("y", s + 1), env.reals("z", s + 1)

    def fn(c, n, d=False):
        f = d_lagrange if d else lagrange
        return lambda t: sum(c[i] * f(n, i, t) for i in range(n + 1))

    def form(M, a, b, na, nb):
        env.check("shape of a time matrix", tuple(M.shape) == (nb + 1, na + 1))
        return sum(b[i] * M[i, j] * a[j] for i in range(nb + 1) for j in range(na + 1))

    table = [
        ("M_time_q_qstar", u, q, False, y, s, False), ("M_time_q_q", u, q, False, w, q, False),
        ("M_time_qstar_qstar", y, s, False, z, s, False),
        ("DM_time_q_qstar", u, q, True, y, s, False), ("DM_time_q_q", u, q, True, w, q, False),
        ("DDM_time_q_q", u, q, True, w, q, True)]
    for name, a, na, da, b, nb, db in table:
        f, g = fn(a, na, da), fn(b, nb, db)
        env.check_eq(name, form(el[name], a, b, na, nb), integrate01(env, lambda t: f(t) * g(t)))
    # consequences a user relies on
    M = el["M_time_q_q"]
    env.check_eq("mass matrix is symmetric", form(M, u, w, q, q), form(M, w, u, q, q))
    one = [1] * (q + 1)
    env.check_eq("derivatives of constants vanish", form(el["DM_time_q_q"], one, w, q, q), 0)
    env.check_eq("fundamental theorem of calculus",
                 form(el["DM_time_q_q"], u, one, q, q), (u[q] - u[0]) if q else 0)
    env.reach()
