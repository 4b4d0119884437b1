"""Set-up shared by the mesh properties."""
from __future__ import annotations

from fractions import Fraction

from symx.core import SymBool
from symx.loader import load

F = Fraction


def box(*iv):
    """A documented set: product of intervals, as boxes."""
    return [tuple(iv)]


def inside(env, p, boxes, open_=False, eps=0):
    """The point is in the union of boxes (closed, or the interiors)."""
    r = False
    for b in boxes:
        c = True
        for x, (lo, hi) in zip(p, b):
            if open_:
                a, d = (x > lo + eps), (x < hi - eps)
            else:
                a, d = (x >= lo - eps), (x <= hi + eps)
            c = both(both(c, a), d)
        r = either(r, c)
    return r


def both(a, b):
    if isinstance(a, SymBool):
        return a & b
    if isinstance(b, SymBool):
        return b & a
    return bool(a) and bool(b)


def either(a, b):
    if isinstance(a, SymBool):
        return a | b
    if isinstance(b, SymBool):
        return b | a
    return bool(a) or bool(b)


def neg(a):
    return ~a if isinstance(a, SymBool) else not a


def implies(a, b):
    return either(neg(a), b)


EPS = F(1, 10 ** 7)


class Case:
    """name -> how to call it and what the mesh has to be."""

    def __init__(self, call, domain, sets, dim=2, kind="file", hierarchy=True, tags=None, params=None,
                 lines=True, disk=None):
        self.call, self.domain, self.sets, self.dim = call, domain, sets, dim
        self.kind, self.hierarchy, self.tags, self.params = kind, hierarchy, tags, params
        self.lines, self.disk = lines, disk


def unit(d=2):
    return box(*[(F(0), F(1))] * d)


def d(x):
    return F(x)


def cases():
    h = F(886226925452758, 10 ** 15)    # square of the area of the unit disk (see the kernel)
    return {
        "create_initial_mesh_convex": Case(
            lambda m, a: [m.create_initial_mesh_convex(**size(a, "init_h_scale"))],
            lambda a: unit(),
            lambda a: {"complement of the data domain": box((d("0.1"), d("0.9")), (d("0.25"), F(1))),
                       "target domain": box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))},
            tags=lambda a: [(1, None), (2, box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))),
                            (3, box((d("0.1"), d("0.9")), (d("0.95"), F(1))))],
            hierarchy=False),
        "get_mesh_convex": Case(
            lambda m, a: m.get_mesh_convex(a["n"], **size(a, "init_h_scale")),
            lambda a: unit(),
            lambda a: {"complement of the data domain": box((d("0.1"), d("0.9")), (d("0.25"), F(1))),
                       "target domain": box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))},
            tags=lambda a: [(1, None), (2, box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))),
                            (3, box((d("0.1"), d("0.9")), (d("0.95"), F(1))))],
            hierarchy="list"),
        "get_mesh_hierarchy": Case(
            lambda m, a: m.get_mesh_hierarchy(a["n"], **size(a, "init_h_scale")),
            lambda a: unit(),
            lambda a: {"complement of the data domain": box((d("0.1"), d("0.9")), (d("0.25"), F(1))),
                       "target domain": box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))},
            tags=lambda a: [(1, None), (2, box((d("0.1"), d("0.9")), (d("0.25"), d("0.95")))),
                            (3, box((d("0.1"), d("0.9")), (d("0.95"), F(1))))]),
        "get_mesh_hierarchy_nonconvex": Case(
            lambda m, a: m.get_mesh_hierarchy_nonconvex(a["n"], **size(a, "init_h_scale")),
            lambda a: unit(),
            lambda a: {"data domain": box((d("0.25"), d("0.75")), (d("0.05"), d("0.5"))),
                       "target domain": box((d("0.125"), d("0.875")), (d("0.05"), d("0.95")))},
            tags=lambda a: [(3, None), (1, box((d("0.25"), d("0.75")), (d("0.05"), d("0.5")))),
                            (2, [((d("0.125"), d("0.875")), (d("0.5"), d("0.95"))),
                                 ((d("0.125"), d("0.25")), (d("0.05"), d("0.5"))),
                                 ((d("0.75"), d("0.875")), (d("0.05"), d("0.5")))])]),
        "get_mesh_hierarchy_fitted_disc": Case(
            lambda m, a: m.get_mesh_hierarchy_fitted_disc(a["n"], a["eta"], **size(a, "h_init")),
            lambda a: unit(),
            lambda a: {"part of the target domain below the interface":
                       box((d("0.1"), d("0.9")), (d("0.25"), a["eta"])),
                       "part of the target domain above the interface":
                       box((d("0.1"), d("0.9")), (a["eta"], d("0.95"))),
                       "below the interface": box((F(0), F(1)), (F(0), a["eta"]))},
            params=lambda env: dict(eta=env.real("eta", d("0.3"), d("0.94")))),
        "get_mesh_data_all_around": Case(
            lambda m, a: m.get_mesh_data_all_around(a["n"], **size(a, "init_h_scale")),
            lambda a: unit(),
            lambda a: {"complement of the data domain": box((d("0.2"), d("0.8")), (d("0.2"), d("0.8")))}),
        "get_mesh_inclusion": Case(
            lambda m, a: [m.get_mesh_inclusion(**size(a, "h_init"), **a["more"])],
            lambda a: box((d("-1.5"), d("1.5")), (d("-1.5"), d("1.5"))),
            lambda a: {"complement of the data domain":
                       box((d("-1.25"), d("1.25")), (d("-1.25"), d("1.5"))),
                       "inner square": box((d("-0.5"), d("0.5")), (d("-0.5"), d("0.5"))),
                       "disk": box((-h, h), (-h, h))},
            kind="nodes", hierarchy=False, lines=False, disk=True),
        "get_mesh_inclusion_square": Case(
            lambda m, a: [m.get_mesh_inclusion_square(**size(a, "h_init"), **a["more"])],
            lambda a: box((d("-1.5"), d("1.5")), (d("-1.5"), d("1.5"))),
            lambda a: {"inclusion": box((d("-0.75"), d("0.75")), (d("-0.75"), d("0.75"))),
                       "target domain": box((a["x_l"], a["x_r"]), (a["y_l"], a["y_r"])),
                       "below the interface": box((d("-1.5"), d("1.5")), (d("-1.5"), a["eta"]))},
            kind="nodes", hierarchy=False, lines=False,
            params=lambda env: dict(eta=env.real("eta", d("0.1"), d("1.5")))),
        "get_mesh_bottom_data": Case(
            lambda m, a: [m.get_mesh_bottom_data(**size(a, "h_init"), **a["more"])],
            lambda a: unit(),
            lambda a: {"data domain": box((F(0), F(1)), (F(0), d("0.25"))),
                       "part of the target domain below the interface":
                       box((d("0.25"), d("0.75")), (d("0.25"), a["eta"])),
                       "part of the target domain above the interface":
                       box((d("0.25"), d("0.75")), (a["eta"], d("0.9")))},
            kind="nodes", hierarchy=False, lines=False,
            params=lambda env: dict(eta=env.real("eta", d("0.26"), d("0.89")))),
        "get_3d_mesh_data_all_around": Case(
            lambda m, a: m.get_3d_mesh_data_all_around(a["n"], **size(a, "init_h_scale")),
            lambda a: unit(3),
            lambda a: {"complement of the data domain": box(*[(d("0.2"), d("0.8"))] * 3)},
            dim=3, kind="model", lines=False),
    }


def size(a, name):
    return {} if a["h"] is None else {name: a["h"]}


DEFAULT_H = {"get_mesh_hierarchy_fitted_disc": F(5, 4), "get_mesh_inclusion": F(5, 4),
             "get_mesh_inclusion_square": F(5, 4), "get_mesh_bottom_data": F(5, 4)}


def arguments(env, case, cfg, tag=""):
    a = dict(n=cfg.get("n", 1), h=None, more={})
    if cfg.get("size", True):
        a["h"] = env.real("size" + tag, F(1, 64), 8, pos=True)
    if case.params and not cfg.get("defaults"):
        a.update(case.params(env))
        if cfg["fn"] != "get_mesh_hierarchy_fitted_disc":
            a["more"]["eta"] = a["eta"]
    if cfg["fn"] == "get_mesh_inclusion_square":
        a.setdefault("eta", F(5, 4))
        a.update(x_l=F(-5, 4), x_r=F(5, 4), y_l=F(-5, 4), y_r=F(5, 4))
        if cfg.get("target"):
            for nm, lo, hi in (("x_l", -1.5, -1.25), ("x_r", 1.25, 1.5), ("y_l", -1.5, -1.25),
                               ("y_r", 1.25, 1.5)):
                if nm in cfg["target"]:
                    a[nm] = a["more"][nm] = env.real(nm, F(lo), F(hi))
    if cfg["fn"] == "get_mesh_bottom_data":
        a.setdefault("eta", d("0.6"))
    if "order" in cfg:
        a["more"]["order"] = cfg["order"]
    return a


def setup(env, cfg, **k):
    from symx.fakes import gmsh as G

    ld, m = load("meshes", **k)
    return G.state(), m


def root(mesh):
    while getattr(mesh, "parent", None) is not None:
        mesh = mesh.parent
    return mesh
