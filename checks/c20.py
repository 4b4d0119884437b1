"""Meshes tile the domain and are fitted to the interfaces."""
from fractions import Fraction

from .ms import (EPS, DEFAULT_H, arguments, box, cases, both, either, implies, inside, neg, setup)

MUST_RUN = ["meshes.py:*"]
MAX_PATHS = 256
ASSUMPTIONS = [
    "gmsh is a contract: boolean operations of unions of boxes are exact set operations, pieces are "
    "connected; meshing fills every saved entity; a disk takes part as the square of equal area",
    "only entities in a physical group are saved in mesh files",
    "interface positions closer than 1e-7 to other lines of the geometry are not distinguished"]

ONE = [("x_l",), ("x_r",), ("y_l",), ("y_r",)]
TARGETS = {"quick": ONE, "thorough": [*ONE, ("x_l", "y_l"), ("x_r", "y_r"), ("y_l", "y_r")]}


def bounds(tier):
    return ("every mesh of the library; interface position any real number in its range (fitted disc "
            "0.3..0.94, bottom data 0.26..0.89, inclusion 0.1..1.5), one edge of the target box of the "
            "inclusion at a time (thorough: some pairs) anywhere in +-[1.25, 1.5]; every mesh size; "
            "every point of space; up to 5 levels of meshes made one by one.")


def configs(tier):
    out = []
    for fn, c in cases().items():
        out.append(dict(name=fn, fn=fn, n=1))
        out.append(dict(name=fn + "-default-size", fn=fn, n=1 if fn == "get_mesh_convex" else 0,
                        size=False))
        if fn == "get_mesh_convex":
            out += [dict(name=f"{fn}-{n}{'' if sz else '-default-size'}", fn=fn, n=n, size=sz)
                    for n in ((2, 3, 4, 5, 8) if tier == "thorough" else (2, 3, 5)) for sz in (True, False)]
        if c.params and c.kind == "nodes":
            out.append(dict(name=fn + "-defaults", fn=fn, n=0, size=False, defaults=True))
    for t in TARGETS[tier]:
        out.append(dict(name="get_mesh_inclusion_square-target-" + "-".join(t),
                        fn="get_mesh_inclusion_square", target=t))
    return out


def harness(env, cfg):
    c = cases()[cfg["fn"]]
    s, m = setup(env, cfg)
    a = arguments(env, c, cfg)
    if cfg.get("target"):
        env.assume(a["eta"] <= a["y_r"])
    snaps = []
    watch(s, snaps)
    meshes = c.call(m, a)
    env.check("a mesh was generated", len(snaps) >= 1)
    for regions, state in snaps:
        geometry(env, c, a, regions)
    sizes = [e[2] for e in s.log if e[0] == "generate"]
    h = a["h"] if a["h"] is not None else DEFAULT_H.get(cfg["fn"], 1)
    if cfg["fn"] == "get_mesh_convex":
        env.check("every mesh has a size", len(sizes) == len(meshes) and all(x is not None for x in sizes))
        env.check_eq_all("mesh sizes are halved", sizes, [h / 2 ** j for j in range(len(sizes))])
    else:
        env.check("mesh size is set", all(x is not None for x in sizes) and len(sizes) == 1)
        env.check_eq_all("mesh size is the requested one", sizes, [h])
    env.check("meshes are returned", len(meshes) == (1 if c.hierarchy is False else
                                                     cfg.get("n", 1) + (c.hierarchy is True)))
    env.reach()


def watch(s, snaps):
    """Records the entities that end up in the mesh."""
    from symx.fakes import gmsh as G

    env = G.ENV()
    env.mesh_hook = lambda regions, state: snaps.append((regions, state))


def geometry(env, c, a, regions):
    d = c.dim
    p = [env.real("p" + "xyz"[i], -4, 4) for i in range(d)]
    q = [env.real("q" + "xyz"[i], -4, 4) for i in range(d)]
    D = c.domain(a)
    boxes = [b for r in regions for b in r.boxes]
    env.check("every point of the domain is in the mesh",
              implies(inside(env, p, D), inside(env, p, boxes, eps=EPS)))
    env.check("nothing outside of the domain is in the mesh",
              implies(inside(env, p, boxes), inside(env, p, D, eps=EPS)))
    for i, r in enumerate(regions):
        others = [b for j, o in enumerate(regions) if j > i for b in o.boxes]
        if others:
            env.check("no two parts overlap",
                      neg(both(inside(env, p, r.boxes, True, EPS), inside(env, p, others, True, EPS))))
    for nm, S in c.sets(a).items():
        for r in regions:
            env.check(f"fitted to: {nm}", neg(both(
                both(inside(env, p, r.boxes, True, EPS), inside(env, p, S, True, EPS)),
                both(inside(env, q, r.boxes, True, EPS), neg(inside(env, q, S, False, EPS))))))
