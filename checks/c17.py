"""The manufactured solutions of the drivers solve the wave equation."""
from symx.core import diff

from .dr import problem

MUST_RUN = ["solve_1d.py:sample_sol", "solve_1d.py:dt_sample_sol", "solve_2d.py:sample_sol",
            "solve_2d.py:dt_sample_sol", "solve_3d.py:sample_sol", "solve_3d.py:dt_sample_sol"]
ASSUMPTIONS = ["sine and cosine are treated as functions of real numbers: values at multiples of pi/2 are "
               "exact, derivatives follow the chain rule",
               "replays differentiate numerically"]
VALIDATE = True
TOL = 1e-6


def bounds(tier):
    return "all three drivers; every time in [0, 4] and every point of the unit interval, square or cube."


def configs(tier):
    return [dict(name=f"{d}d", dim=d) for d in (1, 2, 3)]


def harness(env, cfg):
    d = cfg["dim"]
    s = problem(d)
    u, du = parts(s.solution)
    t = env.real("t", 0, 4)
    x = [env.real("xyz"[i], 0, 1) for i in range(d)]
    ut, utt = derivatives(env, lambda v: u(v, x), t)
    lap = 0
    for i in range(d):
        lap = lap + derivatives(env, lambda v, i=i: u(t, x[:i] + [v] + x[i + 1:]), x[i])[1]
    env.check_eq("given time derivative", du(t, x), ut, tol=TOL)
    env.check_eq("wave equation", utt, lap, tol=TOL)
    for i in range(d):
        for v in (0.0, 1.0):
            env.check_eq("zero on the boundary", u(t, x[:i] + [v] + x[i + 1:]), 0, tol=TOL)
    env.check("the solution is not trivial", abs(u(0.0, [0.25] * d)) > 0.01)
    env.reach()


def parts(solution):
    import dataclasses

    if dataclasses.is_dataclass(solution):
        return tuple(getattr(solution, f.name) for f in dataclasses.fields(solution))
    return tuple(solution)


def derivatives(env, f, v):
    """First and second derivative."""
    if env.mode == "sym":
        a = diff(f(v), v)
        return a, diff(a, v)
    h = 1e-2
    p = {k: f(v + k * h) for k in range(-4, 5)}
    a = (4 / 5 * (p[1] - p[-1]) - 1 / 5 * (p[2] - p[-2]) + 4 / 105 * (p[3] - p[-3])
         - 1 / 280 * (p[4] - p[-4])) / h
    b = (-205 / 72 * p[0] + 8 / 5 * (p[1] + p[-1]) - 1 / 5 * (p[2] + p[-2]) + 8 / 315 * (p[3] + p[-3])
         - 1 / 560 * (p[4] + p[-4])) / h ** 2
    return a, b
