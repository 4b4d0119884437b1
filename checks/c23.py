"""Mesh hierarchies: nested, of the requested length, one gmsh session per call."""
from .ms import arguments, cases, setup

MUST_RUN = ["meshes.py:*"]
MAX_PATHS = 256
ASSUMPTIONS = [
    "dolfinx is a contract: refine() splits the cells next to the marked edges and needs the edges to "
    "have been created; compute_incident_entities takes a mesh before 0.7 and a topology from then on",
    "gmsh: calls outside of initialize()/finalize() fail; a session left open is continued by the "
    "next initialize()",
    "another process reads the files that process 0 wrote"]


def bounds(tier):
    return (f"every mesh; 0 to {top(tier)} refinements; dolfinx 0.6, 0.7 and 0.10; process 0 and another "
            "process (meshes from files); nodes anywhere in the domain; two calls in a row with "
            "different mesh sizes.")


def top(tier):
    return 6 if tier == "thorough" else 3


def configs(tier):
    out = []
    for fn, c in cases().items():
        for v in ("0.6.0", "0.7.3", "0.10.0"):
            out.append(dict(name=f"{fn}-dolfinx{v}", fn=fn, version=v, top=top(tier)))
        if c.kind == "file":
            out.append(dict(name=f"{fn}-process1", fn=fn, version="0.7.0", rank=1, top=top(tier)))
    return out


def harness(env, cfg):
    c = cases()[cfg["fn"]]
    n = 1
    if c.hierarchy:
        k = env.integer("n", 0, cfg["top"])
        n = cfg["top"]
        for i in range(cfg["top"]):
            if k == i:
                n = i
                break
    cfg = dict(cfg, n=n)
    s, m = setup(env, cfg, version=cfg["version"])
    if cfg.get("rank"):
        other(env, c, cfg, s)
        env.reach()
        return
    for call in range(2):
        a = arguments(env, c, dict(cfg, defaults=call == 1 and c.kind == "nodes"), tag=str(call))
        first = len(s.snaps)
        gens = len([e for e in s.log if e[0] == "generate"])
        meshes = c.call(m, a)
        hierarchy(env, c, n, meshes)
        env.check("gmsh is left closed", not s.open and s.left_open == 0)
        env.check("meshes are not shared between calls", len([
            e for e in s.log if e[0] == "generate"]) - gens == (n if c.hierarchy == "list" else 1))
        if c.kind == "file":
            current(env, c, s.snaps[first:], meshes)
    env.reach()


def hierarchy(env, c, n, meshes):
    env.check("number of meshes", isinstance(meshes, list)
              and len(meshes) == (n + 1 if c.hierarchy is True else n))
    if c.hierarchy is True:
        env.check("the first mesh is the initial one", meshes[0].parent is None)
        for a, b in zip(meshes, meshes[1:]):
            env.check("every mesh refines the one before", b.parent is a)
            env.check("all cells are refined", b.refined_all)
    else:
        env.check("meshes are not refined", all(x.parent is None for x in meshes))
        env.check("meshes are distinct", len({id(x) for x in meshes}) == len(meshes))
    if c.kind == "file":
        env.check("facets are shared between processes",
                  all(x.ghost_mode == "shared_facet" for x in meshes if x.parent is None))


def current(env, c, snaps, meshes):
    """Each mesh comes from the file written for it."""
    tops = [x for x in meshes if x.parent is None]
    env.check("one file per mesh", len(snaps) == len(tops))
    for f, x in zip(snaps, tops):
        env.check("nodes of the file", x.points.shape[0] == f.points.shape[0])
        env.check_eq_all("mesh of this call", [v for p in x.points for v in p],
                         [v for p in f.points for v in p[:2]])


def other(env, c, cfg, s):
    """A process other than 0 reads the files of process 0 and writes none."""
    from symx.fakes import gmsh as G

    a = arguments(env, c, cfg)
    if cfg["fn"] == "get_mesh_convex":
        a["n"] = cfg["n"] = 1
    _, m0 = None, setup(env, cfg, version=cfg["version"])[1]
    c.call(m0, a)
    files = s.files
    before = dict(files)
    t = env.gm = G.State()
    t.files = files
    _, m = setup(env, cfg, version=cfg["version"], rank=1)
    meshes = c.call(m, a)
    hierarchy(env, c, cfg["n"], meshes)
    env.check("no file is written", not [e for e in t.log if e[0] == "write"] and files == before)
    env.check("gmsh is left closed", not t.open)
    env.check("the files of process 0 are read",
              {e[1] for e in t.log if e[0] == "read"} >= {"mesh.xdmf"})
    env.check_eq_all("mesh of process 0", [v for p in meshes[0].points for v in p],
                     [v for p in files["mesh.msh"].points for v in p[:2]])
