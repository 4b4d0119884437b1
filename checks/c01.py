"""Time basis functions: nodal, partition of unity, derivative tables."""
from fractions import Fraction

from symx.loader import load

from .util import d_lagrange, derivative, lagrange

MUST_RUN = ["precomp_time_int.py:<lambda>"]
ASSUMPTIONS = []


def bounds(tier):
    return "degrees 0 to 3 (all that exist); time t any real number in [0, 1]."


def configs(tier):
    return [dict(name=f"q{q}", q=q) for q in range(4)]


def harness(env, cfg):
    q = cfg["q"]
    ld, m = load("precomp_time_int", standins={})
    phis, dphis = m.basis_in_time[q]
    env.check("number of basis functions", len(phis) == q + 1 and len(dphis) == q + 1)
    t = env.real("t", 0, 1)
    nodes = [Fraction(i, q) for i in range(q + 1)] if q else [Fraction(0)]
    if env.mode == "num":
        nodes = [float(x) for x in nodes]
    env.check_eq_all("nodal values", [phis[j](x) for x in nodes for j in range(q + 1)],
                     [1.0 * (i == j) for i in range(q + 1) for j in range(q + 1)])
    env.check_eq("partition of unity", sum(p(t) for p in phis), 1)
    for k in range(1, q + 1):
        env.check_eq(f"reproduces t^{k}",
                     sum(x ** k * p(t) for x, p in zip(nodes, phis)), t ** k)
    env.check_eq_all("values at every time", [p(t) for p in phis],
                     [lagrange(q, i, t) for i in range(q + 1)])
    env.check_eq_all("derivative table is the derivative of the value table",
                     [d(t) for d in dphis], [derivative(env, p, t) for p in phis])
    env.check_eq_all("derivatives at every time", [d(t) for d in dphis],
                     [d_lagrange(q, i, t) for i in range(q + 1)])
    env.reach()
