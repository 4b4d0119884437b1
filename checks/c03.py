"""Quadrature rules: inside the interval, positive, exact."""
from fractions import Fraction

from symx.loader import load

MUST_RUN = ["precomp_time_int.py:QuadRule.current_pts", "precomp_time_int.py:QuadRule.t_weights"]
TOL = Fraction(1, 10 ** 5)
ASSUMPTIONS = ["exactness up to 1e-5 relative to the monomials (the Radau tables hold 6 digits)"]
RULES = [("Gauss-Radau", 3, 4), ("Gauss-Radau", 4, 6), ("Gauss-Radau", 5, 8),
         ("Gauss", 1, 1), ("Gauss", 2, 3), ("Gauss", 3, 5),
         ("Newton-Cotes", 2, 1), ("Newton-Cotes", 3, 3), ("Midpoint-Rule", 1, 1)]


def bounds(tier):
    return ("all rules that exist; interval [a, a+h] with a any real number in [-1, 1] and h any in "
            "(0, 1]; polynomials of every degree up to the order of the rule; two intervals in a row with the "
            "same rule, other requests in between; three more at multiples of 1/4 that share length or start.")


def configs(tier):
    return [dict(name=f"{r}-{n}", rule=r, n=n, deg=d, cost=n) for r, n, d in RULES]


def harness(env, cfg):
    ld, m = load("precomp_time_int", standins={})
    # other rules, other intervals
    for r, n, _ in RULES:
        m.QuadRule(r, n)
    rule = m.QuadRule(cfg["rule"], cfg["n"])
    for k in range(2):
        a, h = env.real(f"a{k}", -1, 1), env.real(f"h{k}", 0, 1, pos=True)
        pts, ws = rule.current_pts(a, a + h), rule.t_weights(h)
        # what is asked for in between does not matter to the lists in hand
        c, d = env.real(f"c{k}", -1, 1), env.real(f"d{k}", 0, 1, pos=True)
        other = m.QuadRule(*RULES[k][:2])
        for r in (other, rule):
            r.current_pts(c, c + d)
            r.t_weights(d)
        exact(env, cfg, a, h, pts, ws)
    # two intervals of equal length, two with equal starts
    i, j, n, k = (env.integer(x, lo, 4) for x, lo in (("i", -4), ("j", -4), ("n", 1), ("k", 1)))
    asked = [(i, n), (j, n), (j, k)]
    got = []
    for a, h in asked:
        a, h = a / 4, h / 4
        got.append((a, h, rule.current_pts(a, a + h), rule.t_weights(h)))
    for a, h, pts, ws in got:
        exact(env, cfg, a, h, pts, ws)
    env.reach()


def exact(env, cfg, a, h, pts, ws):
    b = a + h
    env.check("as many points as weights", len(pts) == len(ws) == cfg["n"])
    eps = 1e-12
    for i, p in enumerate(pts):
        env.check(f"point {i} lies in the interval", p >= a - eps)
        env.check(f"point {i} lies in the interval", p <= b + eps)
        if i:
            env.check("points are ordered", pts[i - 1] < p)
    for w in ws:
        env.check("weights are positive", (0 + w) > 0)
    tot = 0 * a
    for w in ws:
        tot = tot + w
    env.check_eq("weights sum to the length", tot, h, TOL)
    if cfg["rule"] == "Gauss-Radau":
        env.check_eq("the left end point is a Radau node", pts[0], a)
    for k in range(1, cfg["deg"] + 1):
        # (x - a)^k and x^k, integrated exactly
        s = 0 * a
        r = 0 * a
        for p, w in zip(pts, ws):
            s = s + w * (p - a) ** k
            r = r + w * p ** k
        env.check_eq(f"exact for ((x - a)/h)^{k}", s, h ** (k + 1) / (k + 1), TOL)
        if k <= 3:
            env.check_eq(f"exact for x^{k}", r, (b ** (k + 1) - a ** (k + 1)) / (k + 1), TOL * 8)
