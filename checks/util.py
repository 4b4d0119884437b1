"""Shared pieces of the harnesses."""
from __future__ import annotations

from fractions import Fraction

from symx import core, loader
from symx.core import Sym


def is_sym(env):
    return env.mode == "sym"


def poly_in(s, var):
    """Coefficients {power: Sym} of a polynomial in the real symbol `var`."""
    (mv, _), = var.p.items()
    vid = mv[0][0]
    out = {}
    for m, c in core.lift(s).p.items():
        e = 0
        rest = []
        for v, k in m:
            if v == vid:
                e = k
            else:
                rest.append((v, k))
        out.setdefault(e, {})
        key = tuple(rest)
        out[e][key] = out[e].get(key, Fraction(0)) + c
    return {e: Sym(p) for e, p in out.items()}


GAUSS5 = None


def integrate01(env, f):
    """Exact integral over [0, 1] of the polynomial t -> f(t) (degree <= 9)."""
    if is_sym(env):
        t = env.real("quadrature-variable")
        tot = Sym({})
        for e, c in poly_in(f(t), t).items():
            tot = tot + c / (e + 1)
        return tot
    import numpy as np

    x, w = np.polynomial.legendre.leggauss(6)
    return sum(0.5 * wi * f(0.5 * (xi + 1)) for xi, wi in zip(x, w))


def derivative(env, f, t, var=None):
    """f'(t) for a polynomial of degree <= 4."""
    if is_sym(env):
        s = env.real("derivative-variable")
        g = core.diff(core.lift(f(s)), s)
        return substitute(env, g, s, t)
    h = 0.25
    return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)


def substitute(env, g, s, t):
    tot = Sym({})
    for e, c in poly_in(g, s).items():
        tot = tot + c * (core.lift(t) ** e)
    return tot


def lagrange(q, i, t):
    """The Lagrange polynomial of degree q on the nodes k/q (reference, exact)."""
    if q == 0:
        return t * 0 + 1
    r = t * 0 + 1
    for k in range(q + 1):
        if k != i:
            r = r * (t * q - k) / (i - k)
    return r


def d_lagrange(q, i, t):
    r = t * 0
    for m in range(q + 1):
        if m == i:
            continue
        p = t * 0 + 1
        for k in range(q + 1):
            if k not in (i, m):
                p = p * (t * q - k) / (i - k)
        r = r + p * q / (i - m)
    return r
