"""The drivers measure data exactly where they say."""
from fractions import Fraction

import numpy as np

from .dr import problem
from .ms import EPS, both, box, implies, inside, neg

MUST_RUN = ["solve_1d.py:omega_ind_convex", "solve_1d.py:omega_ind_nogcc", "solve_2d.py:omega_ind_convex",
            "solve_3d.py:omega_ind"]
MAX_PATHS = 1024
ASSUMPTIONS = ["cells of the structured meshes are the boxes of a uniform grid; cells of the gmsh mesh lie "
               "inside the parts of the geometry (C20)",
               "points closer than 1e-7 to the boundary of the data domain are left open"]
F = Fraction


def bounds(tier):
    return ("all drivers; in 3d with and without the geometric control condition and at every refinement "
            "level 0..5; data size 1/4; every point of the domain, two at a time; every cell; in 2d "
            "every refinement level; in 1d 1, 3, 32 and 100 slabs.")


def configs(tier):
    out = [dict(name="1d-convex", dim=1, fn="omega_ind_convex"),
           dict(name="1d-nogcc", dim=1, fn="omega_ind_nogcc"),
           dict(name="1d", dim=1), dict(name="2d", dim=2)]
    out += [dict(name=f"1d-{n}", dim=1, constants=dict(N=n)) for n in (1, 3, 100)]
    out += [dict(name=f"2d-level{n}", dim=2, constants=dict(REF_LVL=n)) for n in range(6)]
    for gcc in (False, True):
        for lvl in range(6):
            out.append(dict(name=f"3d-{'gcc' if gcc else 'nogcc'}-level{lvl}", dim=3,
                            constants=dict(GCC=gcc, REF_LVL=lvl)))
    return out


def where(cfg):
    """The documented data domain."""
    d, I = cfg["dim"], (F(0), F(1))
    if d == 1:
        low, high = box((F(0), F(1, 5))), box((F(4, 5), F(1)))
        return low + high if cfg.get("fn") == "omega_ind_convex" else low
    if d == 3 and not cfg["constants"]["GCC"]:
        return box((F(0), F(1, 4)), I, I)
    w = F(1, 5) if d == 2 else F(1, 4)
    out = []
    for i in range(d):
        for iv in ((F(0), w), (1 - w, F(1))):
            out.append(tuple(iv if j == i else I for j in range(d)))
    return out


def harness(env, cfg):
    d = cfg["dim"]
    regions = []
    env.mesh_hook = lambda rs, s: regions.append(rs)
    p = [env.real("p" + "xyz"[i], 0, 1) for i in range(d)]
    q = [env.real("q" + "xyz"[i], 0, 1) for i in range(d)]
    # an indicator given as expression is evaluated at p
    env.spatial_point = p if d == 3 else None
    s = problem(d, cfg.get("constants"))
    dom = s.omega
    ind = dom.indicator_function
    if cfg.get("fn"):
        ind = getattr(s.module, cfg["fn"])
    if callable(ind):
        env.check("a function of the coordinates is interpolated", bool(dom.fitted))
        x = np.empty((3, 2), dtype=object)
        for j, pt in enumerate((p, q)):
            for i in range(3):
                x[i, j] = pt[i] if i < d else 0.0
        v = ind(x.astype(float) if env.mode == "num" else x)
        env.check("one value per point", np.shape(v) == (2,))
        vp, vq = v
    else:
        env.check("an expression is not interpolated", not dom.fitted)
        vp, vq = ind, None
    S = where(cfg)
    # the complement of a union of boxes that cover a neighbourhood of the boundary
    for nm, pt, val in (("p", p, vp), ("q", q, vq)):
        if val is None:
            continue
        env.check("data are weighted by one in the data domain",
                  implies(inside(env, pt, S, True, EPS), val == 1))
        env.check("no data outside of the data domain",
                  implies(neg(inside(env, pt, S, False, EPS)), val == 0))
    if dom.fitted and vq is not None and not cfg.get("fn"):
        fitted(env, d, s.msh, regions, p, q, vp, vq)
    env.reach()


def fitted(env, d, msh, regions, p, q, vp, vq):
    """No cell is cut by the boundary of the data domain."""
    g = getattr(msh, "grid", None) if "grid" in msh.__dict__ else None
    if g is not None:
        env.check("dimension of the mesh", len(g) == d)
        for lo, hi, n in g:
            env.check("mesh of the unit domain", lo == 0 and hi == 1)
        same = True
        for i, (_, _, n) in enumerate(g):
            c = env.integer(f"cell{i}", 0, int(n) - 1)
            for v in (p[i], q[i]):
                same = both(same, both(v * n > c + EPS, v * n < c + 1 - EPS))
    else:
        rs = regions[0]
        same = False
        for r in rs:
            a = both(inside(env, p, r.boxes, True, EPS), inside(env, q, r.boxes, True, EPS))
            same = a if same is False else same | a if not isinstance(same, bool) else (same or a)
    env.check("the mesh is fitted to the data domain", implies(same, vp == vq))
