"""Meshes consist of the nodes and cells that gmsh made."""
import numpy as np

from .ms import arguments, cases, setup

MUST_RUN = ["meshes.py:*"]
MAX_PATHS = 1600
ASSUMPTIONS = [
    "gmsh is a contract: it hands out nodes in any order with any distinct tags, and cells in its own "
    "order of nodes; dolfinx takes nodes and cells in its own order (perm_gmsh)",
    "getNodes and getElements report 4 nodes and 2 cells of degree 1, or 6 nodes and one cell of "
    "degree 2"]


def bounds(tier):
    return ("every mesh in the plane; 4 nodes and 2 cells (6 nodes and 1 cell for degree 2) with any "
            "coordinates in [-2, 2]; any integer node tags 1..n+1, all different, in any order "
            "(degree 2: one exchange or one gap, thorough: any order); two calls in a row with one "
            "exchange of tags in each.")


NODES = [fn for fn, c in cases().items() if c.kind == "nodes"]
FILES = [fn for fn, c in cases().items() if c.kind == "file"]


def configs(tier):
    out = []
    for fn in NODES:
        for order in ((1, 2) if fn == "get_mesh_inclusion" else (None,)):
            c = dict(fn=fn, size=False, defaults=True)
            if order:
                c["order"] = order
            nm = fn + (f"-degree{order}" if order else "")
            out.append(dict(c, name=nm, tags="any" if order != 2 else
                            "any" if tier == "thorough" else "swap"))
            if order != 2:
                out.append(dict(c, name=nm + "-twice", tags="swap", calls=2))
            out.append(dict(c, name=nm + "-gaps", tags="gaps" if order != 2 else "gap"))
    for fn in FILES:
        out.append(dict(fn=fn, name=fn, n=1))
    return out


def make_tags(env, how, made):
    """Distinct integers; those of "swap" are in order but for one exchange."""
    def tags(n):
        first = len(made)
        if how == "swap":
            i, j = pick(env, f"i{first}", n), pick(env, f"j{first}", n)
            t = [k + 1 for k in range(n)]
            t[i], t[j] = t[j], t[i]
        elif how == "gap":
            j = pick(env, f"j{first}", n)
            t = [k + 1 for k in range(n)]
            t[j] = env.integer(f"tag{first}", 1, n + 1)
            for k in range(n):
                env.assume(k == j or t[j] != t[k])
        else:
            t = [env.integer(f"tag{first}[{k}]", 1, n + 1 if how == "gaps" else n) for k in range(n)]
            for k in range(n):
                for q in range(k):
                    env.assume(t[k] != t[q])
        made.append(t)
        return t

    return tags


def pick(env, name, n):
    v = env.integer(name, 0, n - 1)
    for k in range(n - 1):
        if v == k:
            return k
    return n - 1


def harness(env, cfg):
    c = cases()[cfg["fn"]]
    s, m = setup(env, cfg)
    a = arguments(env, c, cfg)
    if c.kind == "file":
        for k in range(2):
            meshes = c.call(m, a)
            files(env, s, meshes[0])
        env.reach()
        return
    made = []
    env.node_tags = make_tags(env, cfg["tags"], made)
    for k in range(cfg.get("calls", 1)):
        before = len(made)
        raised = None
        try:
            meshes = c.call(m, a)
        except RuntimeError as e:
            raised = e
        t = made[-1]
        env.check("one set of nodes", len(made) == before + 1)
        if raised is not None:
            env.check("only tags with gaps are refused", largest(t) > len(t))
            env.check("no mesh is made of them", not meshes_of(env))
            env.reach("gap")
            return
        env.check("tags with gaps are refused", largest(t) <= len(t))
        nodes(env, s, meshes[0], cfg.get("order", 1))
    env.reach()


def meshes_of(env):
    return [e for e in env.events if e[0] == "write_mesh"]


def largest(t):
    r = t[0]
    for v in t[1:]:
        if v > r:
            r = v
    return r


def nodes(env, s, mesh, order):
    from symx.fakes import gmsh as G

    g = s.last_nodes
    n = len(g["tags"])
    env.check("all nodes", mesh.points.shape == (n, 2))
    for k, t in enumerate(g["tags"]):
        row = mesh.points[pick_row(t, n)]
        env.check_eq_all("coordinates of the nodes", list(row), g["pts"][k])
    perm = G.PERM[("triangle", g["n"])]
    cells = np.asarray(mesh.cells)
    env.check("number of cells", cells.shape == (len(g["cells"]), g["n"]))
    env.check_eq_all("nodes of the cells", [v for row in cells for v in row],
                     [g["tags"][cell[k]] - 1 for cell in g["cells"] for k in perm])
    env.check("degree of the geometry", g["order"] == order and mesh.source.order == order
              and mesh.source.cell == "triangle")
    w = meshes_of(env)
    env.check("the mesh is written", bool(w) and w[-1][1] == "mesh.xdmf" and w[-1][2] is mesh)


def pick_row(t, n):
    for k in range(n - 1):
        if t == k + 1:
            return k
    return n - 1


def files(env, s, mesh):
    f = s.files["mesh.msh"]
    env.check("nodes of the mesh file", mesh.points.shape == (len(f.points), 2))
    env.check_eq_all("coordinates of the nodes", [x for p in mesh.points for x in p],
                     [x for p in f.points for x in p[:2]])
    env.check("cells of the mesh file", np.array_equal(mesh.cells, f.cells["triangle"]))
    for name, t in (("mesh.xdmf", "triangle"), ("mt.xdmf", "line")):
        x = s.files[name]
        env.check(f"{name} has the {t}s", list(x.cells_dict) == [t]
                  and np.array_equal(x.cells_dict[t], f.cells[t]))
        env.check(f"{name} has the nodes", x.points.shape == (len(f.points), 2))
        env.check_eq_all(f"{name} has the coordinates", [v for p in x.points for v in p],
                         [v for p in f.points for v in p[:2]])
        d = list(x.cell_data_dict.values())
        env.check(f"{name} has the markers", len(d) == 1 and list(d[0]) == [t]
                  and np.array_equal(d[0][t], f.tags[t]))
