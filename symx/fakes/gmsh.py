"""gmsh, meshio and the mesh part of dolfinx.

The geometry kernel works on unions of axis-aligned boxes with symbolic
coordinates: boolean operations refine the involved entities on the common
grid (the order of coordinates is decided by branching) and group its cells by
the entities that contain them.  A disk takes part as the square of equal area,
which is admissible as long as everything else contains it, lies inside its
inscribed square, or is disjoint from it; anything else is inconclusive.

Meshing is a contract: every saved entity is filled by cells whose nodes are
arbitrary points.
"""
from __future__ import annotations

import math
import types
from fractions import Fraction

import numpy as np

from ..core import ENV, Sym, SymBool, Unsupported, lift, refuse
from .dolfinx import Comm, Mesh, Strict, Topology, _Mod

TOL = Fraction(1, 10 ** 8)


def sign(d):
    """-1, 0 or 1: one query for d and -d."""
    if isinstance(d, Sym) and all(abs(c) <= TOL for c in d.p.values()):
        return 0
    if isinstance(d, Sym) and d.is_const:
        d = d.constant()
    if not isinstance(d, Sym):
        return 0 if abs(d) <= TOL else 1 if d > 0 else -1
    f = 1
    if d.p[max(d.p)] < 0:
        d, f = -d, -1
    memo = state().signs
    k = d.key()
    if k not in memo:
        memo[k] = -1 if bool(d < 0) else 0 if bool(d <= 0) else 1
    return f * memo[k]


def equal(a, b):
    return sign(a - b) == 0


def less(a, b):
    """a < b, for values that are not equal."""
    return sign(a - b) < 0


def value(x):
    if ENV().mode == "num":
        return float(x)
    return lift(x)


class Axis:
    """Sorted distinct coordinates."""

    def __init__(self):
        self.c = []

    def add(self, x):
        for i, y in enumerate(self.c):
            if equal(x, y):
                return
            if less(x, y):
                self.c.insert(i, x)
                return
        self.c.append(x)

    def index(self, x):
        for i, y in enumerate(self.c):
            if x is y:
                return i
        for i, y in enumerate(self.c):
            if equal(x, y):
                return i
        raise AssertionError


class Region:
    """A union of boxes with disjoint interiors: [((lo, hi), ...per axis)]."""

    def __init__(self, boxes, curved=None):
        self.boxes = boxes
        self.curved = curved or []   # disks that bound this region

    @property
    def dim(self):
        return len(self.boxes[0])

    def volume(self):
        t = 0
        for b in self.boxes:
            v = 1
            for lo, hi in b:
                v = v * (hi - lo)
            t = t + v
        return t

    def centre(self):
        d = self.dim
        if len(self.boxes) == 1:
            return tuple((lo + hi) / 2 for lo, hi in self.boxes[0])
        m = [0] * d
        for b in self.boxes:
            v = 1
            for lo, hi in b:
                v = v * (hi - lo)
            for k, (lo, hi) in enumerate(b):
                m[k] = m[k] + v * (lo + hi) / 2
        v = self.volume()
        if isinstance(v, Sym) and not v.is_const:
            # a point of the bounding box
            return tuple(between(x, v, [b[k] for b in self.boxes]) for k, x in enumerate(m))
        return tuple(x / v for x in m)


def between(x, v, intervals):
    """The quotient x / v, of which only a lower and an upper bound are told to the solver."""
    env = ENV()
    q = env.uf("centre", x, v)
    los = extremes([lo for lo, _ in intervals], -1)
    his = extremes([hi for _, hi in intervals], 1)
    env.assume_z3((q >= los).e if isinstance(q >= los, SymBool) else True)
    env.assume_z3((q <= his).e if isinstance(q <= his, SymBool) else True)
    return q


def extremes(xs, s):
    r = xs[0]
    for x in xs[1:]:
        if sign(x - r) == s:
            r = x
    return r


class Grid:
    """The common grid of some regions."""

    def __init__(self, regions):
        d = regions[0].dim
        self.axes = [Axis() for _ in range(d)]
        for r in regions:
            for b in r.boxes:
                for k, (lo, hi) in enumerate(b):
                    self.axes[k].add(lo)
                    self.axes[k].add(hi)

    def cells(self, r):
        out = set()
        for b in r.boxes:
            rg = [range(self.axes[k].index(lo), self.axes[k].index(hi)) for k, (lo, hi) in enumerate(b)]
            acc = [()]
            for g in rg:
                acc = [a + (i,) for a in acc for i in g]
            out.update(acc)
        return out

    def box(self, c):
        return tuple((self.axes[k].c[i], self.axes[k].c[i + 1]) for k, i in enumerate(c))

    def region(self, cells):
        return Region([self.box(c) for c in sorted(cells)])


def components(cells):
    cells = set(cells)
    out = []
    while cells:
        todo = [min(cells)]
        cells.discard(todo[0])
        comp = set(todo)
        while todo:
            c = todo.pop()
            for k in range(len(c)):
                for s in (-1, 1):
                    n = c[:k] + (c[k] + s,) + c[k + 1:]
                    if n in cells:
                        cells.discard(n)
                        comp.add(n)
                        todo.append(n)
        out.append(comp)
    return sorted(out, key=min)


class State:
    def __init__(self):
        self.open = False
        self.sessions = 0
        self.left_open = 0
        self.files = {}
        self.log = []
        self.signs = {}
        self.snaps = []
        self.reset()

    def reset(self):
        self.occ = {}          # top-dimensional entities: (dim, tag) -> Region
        self.model = None      # the synchronised copy
        self.faces = {}
        self.groups = {}
        self.options = {}
        self.disks = []
        self.generated = None
        self.order = 1
        self.recombined = False


def state():
    env = ENV()
    if not hasattr(env, "gm"):
        env.gm = State()
    return env.gm


def need():
    s = state()
    if not s.open:
        raise refuse(Exception, "Gmsh has not been initialized")
    return s


def initialize(*a, **k):
    s = state()
    s.sessions += 1
    s.log.append("initialize")
    if s.open:       # gmsh warns and carries on in the same session
        s.left_open += 1
        return
    s.open = True
    s.reset()


def finalize():
    s = need()
    s.open = False
    s.log.append("finalize")
    s.reset()


def is_initialized():
    return 1 if state().open else 0


def clear():
    s = need()
    s.reset()


def write(name):
    s = need()
    s.files[str(name)] = snapshot(s)
    s.log.append(("write", str(name)))


# ------------------------------------------------------------- OCC kernel
def new_tag(s, dim):
    return max([t for d, t in s.occ if d == dim], default=0) + 1


def bind(s, dim, tag, r):
    if tag is None or tag < 0:
        tag = new_tag(s, dim)
    if (dim, tag) in s.occ:
        nm = {2: "surface", 3: "volume"}[dim]
        raise refuse(Exception, f"OpenCASCADE {nm} with tag {tag} already exists")
    s.occ[(dim, tag)] = r
    return tag


def interval(a, w):
    lo, hi = value(a), value(a) + value(w)
    if equal(lo, hi):
        return None
    return (lo, hi) if less(lo, hi) else (hi, lo)


def add_rectangle(x, y, z, dx, dy, tag=-1, roundedRadius=0.0):
    s = need()
    if roundedRadius:
        raise Unsupported("rounded rectangle")
    if value(z) != 0:
        raise Unsupported("rectangle out of the plane")
    b = (interval(x, dx), interval(y, dy))
    if None in b:
        raise refuse(Exception, "Rectangle with zero width or height")
    return bind(s, 2, tag, Region([b]))


def add_disk(xc, yc, zc, rx, ry, tag=-1, zAxis=(), xAxis=()):
    s = need()
    vs = [xc, yc, rx, ry]
    if any(isinstance(v, Sym) and not v.is_const for v in vs) or rx != ry:
        raise Unsupported("disk")
    h = value(Fraction(math.sqrt(math.pi) / 2) * Fraction(float(rx)))
    xc, yc = value(xc), value(yc)
    r = Region([((xc - h, xc + h), (yc - h, yc + h))], [(xc, yc, value(rx))])
    s.disks.append((xc, yc, value(rx), h))
    return bind(s, 2, tag, r)


def add_box(x, y, z, dx, dy, dz, tag=-1):
    s = need()
    b = (interval(x, dx), interval(y, dy), interval(z, dz))
    if None in b:
        raise refuse(Exception, "Box with zero extent")
    return bind(s, 3, tag, Region([b]))


def check_disks(s, regions):
    """Nothing comes between the inscribed and the circumscribed square of a disk."""
    for xc, yc, r, h in s.disks:
        i = float(r) / math.sqrt(2)
        for g in regions:
            for b in g.boxes:
                for (lo, hi), c in zip(b, (xc, yc)):
                    for v in (lo, hi):
                        d = v - c
                        if isinstance(d, Sym) and not d.is_const:
                            raise Unsupported("symbolic coordinates together with a disk")
                        d = abs(float(d.constant() if isinstance(d, Sym) else d))
                        if i < d < float(r) and abs(d - float(h)) > 1e-9:
                            raise Unsupported("geometry that cuts a disk")


def entities_of(s, dimtags):
    out = []
    for d, t in dimtags:
        if (d, t) not in s.occ:
            raise refuse(Exception, f"Unknown OpenCASCADE entity of dimension {d} with tag {t}")
        out.append((d, t))
    return out


class Map:
    """Which argument became what: depends on the kernel except for fragment operations."""

    def __getattr__(self, k):
        raise Unsupported("the map that is returned by a boolean operation")

    __getitem__ = __iter__ = __len__ = __getattr__

    def __repr__(self):
        return "[...]"


def boolean(kind, objs, tools, tag=-1, removeObject=True, removeTool=True):
    s = need()
    objs, tools = [tuple(x) for x in objs], [tuple(x) for x in tools]
    dims = {d for d, _ in objs + tools}
    top = max((d for d, _ in s.occ), default=0)
    if dims and max(dims) < top:
        # faces of entities that are conforming already
        if kind != "fragment":
            raise Unsupported("boolean operation on faces")
        fs = faces(s, top)
        for d, t in objs + tools:
            if d != top - 1 or t not in fs:
                raise refuse(Exception, f"Unknown OpenCASCADE entity of dimension {d} with tag {t}")
        dt = objs + tools
        return list(dict.fromkeys(dt)), [[x] for x in dt]
    o, t = entities_of(s, objs), entities_of(s, tools)
    if len(dims) != 1:
        raise Unsupported("boolean operation on entities of different dimensions")
    dim = dims.pop()
    asked = o + t
    if kind == "fragment" and len(set(asked)) < 2:
        return [], []       # nothing is done to one entity
    o = list(dict.fromkeys(o))
    t = [x for x in dict.fromkeys(t) if x not in o]
    ins = o + t
    if len(ins) != len(set(asked)) or any(x in objs for x in tools) or not t and kind != "fragment":
        raise Unsupported("an entity that is object and tool of a boolean operation")
    g = Grid([s.occ[x] for x in ins])
    check_disks(s, [s.occ[x] for x in ins])
    cs = {x: g.cells(s.occ[x]) for x in ins}
    if kind != "fragment" and any(not cs[x].isdisjoint(cs[y]) for part in (o, t) for x in part for y in part
                                  if x < y):
        raise Unsupported("boolean operation on overlapping entities")
    if kind == "cut":
        left = set().union(*[cs[x] for x in o]) if o else set()
        owners = {c: tuple(x for x in o if c in cs[x]) for c in left}
        gone = set().union(*[cs[x] for x in t]) if t else set()
        owners = {c: w for c, w in owners.items() if c not in gone}
    elif kind == "fuse":
        owners = {c: (o[0],) for x in ins for c in cs[x]}
    elif kind == "intersect":
        a = set().union(*[cs[x] for x in o])
        b = set().union(*[cs[x] for x in t])
        owners = {c: tuple(x for x in o if c in cs[x]) for c in a & b}
    else:
        owners = {}
        for x in ins:
            for c in cs[x]:
                owners[c] = owners.get(c, ()) + (x,)
    by = {}
    for c, w in owners.items():
        by.setdefault(w, set()).add(c)
    pieces = []
    for w in sorted(by):
        for comp in components(by[w]):
            pieces.append((w, comp))
    pieces.sort(key=lambda p: min(p[1]))
    removed = (o if removeObject else []) + (t if removeTool else [])
    for x in removed:
        del s.occ[x]
    result, owned = {}, {x: [] for x in ins}
    for x in o if kind == "cut" else ins:
        if x in s.occ and any(comp == cs[x] for _, comp in pieces):
            # the kernel may use the kept one again or make a second one
            raise Unsupported("an entity that is kept and not changed by a boolean operation")
    if kind == "fuse" and len(pieces) > 1:
        raise Unsupported("several results of a fuse operation")     # numbered by the kernel
    if tag is not None and tag > 0:
        if len(pieces) > 1:
            raise refuse(Exception, f"Cannot bind multiple surfaces to single tag {tag}")
        for p in pieces:
            result[0] = (dim, bind(s, dim, tag, g.region(p[1])))
    else:
        if kind != "cut" or removeObject:
            for x in ins:
                mine = [i for i, (w, _) in enumerate(pieces) if x in w]
                if len(mine) == 1 and mine[0] not in result and x not in s.occ \
                        and not (kind == "cut" and x in t):
                    result[mine[0]] = x
                    s.occ[x] = g.region(pieces[mine[0]][1])
        for i, (w, comp) in enumerate(pieces):
            if i not in result:
                result[i] = (dim, bind(s, dim, -1, g.region(comp)))
    for i, (_, comp) in enumerate(pieces):
        for x in o if kind == "cut" else ins:
            if not comp.isdisjoint(cs[x]):
                owned[x].append(result[i])
    s.faces = {}
    return [result[i] for i in range(len(pieces))], [owned[x] for x in asked] if kind == "fragment" else Map()


def faces(s, dim):
    """Entities of dimension dim-1 that bound the entities of dimension dim."""
    if s.faces:
        return s.faces
    es = [(x, r) for x, r in s.occ.items() if x[0] == dim]
    if not es:
        return {}
    g = Grid([r for _, r in es])
    of = {}
    for x, r in es:
        for c in g.cells(r):
            of[c] = of.get(c, ()) + (x,)
    elem = {}
    for c, w in of.items():
        for k in range(dim):
            for sd in (0, 1):
                n = c[:k] + (c[k] + (1 if sd else -1),) + c[k + 1:]
                if of.get(n) != w:
                    plane = c[k] + sd
                    pos = c[:k] + c[k + 1:]
                    lo = (of.get(c[:k] + (plane - 1,) + c[k + 1:]), of.get(c[:k] + (plane,) + c[k + 1:]))
                    elem[(k, plane, pos)] = lo
    groups = {}
    for (k, plane, pos), pair in elem.items():
        groups.setdefault((k, plane, repr(pair)), set()).add(pos)
    out, tag = {}, 0
    disk_faces = []
    for key in sorted(groups):
        k, plane, _ = key
        for comp in components(groups[key]):
            bs = []
            for pos in sorted(comp):
                ax = [i for i in range(dim) if i != k]
                b = [None] * dim
                b[k] = (g.axes[k].c[plane],) * 2
                for a, i in zip(ax, pos):
                    b[a] = (g.axes[a].c[i], g.axes[a].c[i + 1])
                bs.append(tuple(b))
            on = disk_of(s, bs) if dim == 2 else None
            if on is not None:
                disk_faces.append((on, bs))
                continue
            tag += 1
            out[tag] = (k, bs)
    for on in sorted({d for d, _ in disk_faces}):
        tag += 1
        out[tag] = ("circle", on)
    s.faces = out
    return out


def disk_of(s, bs):
    for n, (xc, yc, r, h) in enumerate(s.disks):
        ok = True
        for b in bs:
            for (lo, hi), c in zip(b, (xc, yc)):
                for v in (lo, hi):
                    d = v - c
                    d = d.constant() if isinstance(d, Sym) and d.is_const else d
                    if isinstance(d, Sym) or abs(float(d)) > float(h) + 1e-9:
                        ok = False
            if ok and not any(abs(abs(float(lift(v - c).constant())) - float(h)) < 1e-9
                              for (lo, hi), c in zip(b, (xc, yc)) if lo is hi for v in (lo,)):
                ok = False
        if ok:
            return n
    return None


def face_centre(s, f):
    if f[0] == "circle":
        xc, yc, r, h = s.disks[f[1]]
        return (xc, yc)
    k, bs = f
    d = len(bs[0])
    tot, m = 0, [0] * d
    for b in bs:
        v = 1
        for i, (lo, hi) in enumerate(b):
            if i != k:
                v = v * (hi - lo)
        tot = tot + v
        for i, (lo, hi) in enumerate(b):
            m[i] = m[i] + v * (lo + hi) / 2
    if len(bs) == 1:
        return tuple((lo + hi) / 2 for lo, hi in bs[0])
    if d == 2:   # the parts of a line follow one another
        return tuple((bs[0][i][0] + bs[-1][i][1]) / 2 for i in range(d))
    out = [x / tot for x in m]
    out[k] = bs[0][k][0]
    return tuple(out)


def centre_of_mass(dim, tag):
    s = need()
    if (dim, tag) in s.occ:
        c = s.occ[(dim, tag)].centre()
    else:
        top = max((d for d, _ in s.occ), default=0)
        fs = faces(s, top) if dim == top - 1 else {}
        if tag not in fs:
            raise refuse(Exception, f"Unknown OpenCASCADE entity of dimension {dim} with tag {tag}")
        c = face_centre(s, fs[tag])
    return tuple(c) + (0.0,) * (3 - len(c))


def entities(s, occ, dim):
    if not occ and s.model is None:
        return []
    src, fs = (s.occ, faces(s, max((d for d, _ in s.occ), default=0))) if occ else s.model
    top = max((d for d, _ in src), default=0)
    out = sorted(x for x in src if dim in (-1, x[0]))
    if dim in (-1, top - 1):
        out = [(top - 1, t) for t in sorted(fs)] + out
    elif 0 <= dim < top - 1:
        raise Unsupported(f"entities of dimension {dim}")
    return out


def synchronize():
    s = need()
    top = max((d for d, _ in s.occ), default=0)
    s.model = (dict(s.occ), dict(faces(s, top)))


def add_physical_group(dim, tags, tag=-1, name=""):
    s = need()
    gs = s.groups.setdefault(dim, {})
    if tag < 0:
        tag = max((t for g in s.groups.values() for t in g), default=0) + 1 if not gs \
            else max(gs) + 1
    if tag in gs:
        nm = {1: "line", 2: "surface", 3: "volume"}.get(dim, "group")
        raise refuse(Exception, f"Physical {nm} {tag} already exists")
    gs[tag] = [int(t) for t in tags]
    return tag


def generate(dim=3):
    s = need()
    s.generated = dim
    s.log.append(("generate", dim, s.options.get("Mesh.MeshSizeFactor")))


def report(s, regions):
    hook = getattr(ENV(), "mesh_hook", None)
    if hook:
        hook(regions, s)


def set_order(k):
    s = need()
    if s.generated is None:
        return
    s.order = k


def recombine():
    need().recombined = True


def set_number(name, v):
    s = need()
    s.options[name] = v


def get_number(name):
    s = need()
    if name not in s.options:
        raise Unsupported(f"option {name}")
    return s.options[name]


# ------------------------------------------------------------- meshes
class Snapshot:
    """What a mesh file contains."""


def snapshot(s):
    env = ENV()
    f = Snapshot()
    src, fs = s.model if s.model else ({}, {})
    top = max((d for d, _ in src), default=0)
    f.dim = top
    f.size = s.options.get("Mesh.MeshSizeFactor")
    f.generated = s.generated
    f.regions, f.lines = [], []
    f.state = (dict(src), dict(fs), list(s.disks))
    any_group = any(s.groups.values())
    for x, r in sorted(src.items()):
        tags = [t for t, es in s.groups.get(top, {}).items() if x[1] in es]
        if tags or not any_group:
            f.regions.append((x[1], r, tags))
    for t, r in sorted(fs.items()):
        tags = [g for g, es in s.groups.get(top - 1, {}).items() if t in es]
        if tags or not any_group:
            f.lines.append((t, r, tags))
    if s.generated != top:
        f.regions = []
    report(s, [r for _, r, _ in f.regions])
    # a few nodes and cells per entity
    n = 0
    pts, tri, tt, lin, lt = [], [], [], [], []
    for i, (t, r, tags) in enumerate(f.regions):
        base = len(pts)
        new = 3 if base else 4
        for _ in range(new):
            pts.append([env.real(f"node{env_count(s)}.{len(pts)}.{d}", 0, 1) for d in range(2)] + [0.0])
        a = base - 1 if base else 0
        tri += [[a, a + 1, a + 2], [a + 1, a + 3, a + 2]]
        tt += [tags[0] if tags else 0] * 2
    for i, (t, r, tags) in enumerate(f.lines):
        if len(pts) >= 2:
            lin.append([i % (len(pts) - 1), i % (len(pts) - 1) + 1])
            lt.append(tags[0] if tags else 0)
    f.points = np.empty((len(pts), 3), dtype=object)
    for i, p in enumerate(pts):
        f.points[i, :] = p
    if env.mode == "num":
        f.points = f.points.astype(float)
    f.cells = {"triangle": np.array(tri, dtype=int).reshape(-1, 3),
               "line": np.array(lin, dtype=int).reshape(-1, 2)}
    f.tags = {"triangle": np.array(tt, dtype=int), "line": np.array(lt, dtype=int)}
    s.snaps.append(f)
    return f


def env_count(s):
    return s.sessions


class MeshioMesh(Strict):
    def __init__(self, points=None, cells=None, cell_data=None, **k):
        if isinstance(points, Snapshot):
            f = points
            self.points = f.points
            self.cells_dict = {t: c for t, c in f.cells.items() if len(c)}
            self.cell_data_dict = {"gmsh:physical": {t: f.tags[t] for t in self.cells_dict}}
            self.snapshot = f
            return
        if isinstance(cells, (list, tuple)):
            cells = dict(cells)
        self.points = points
        self.cells_dict = dict(cells)
        self.cell_data_dict = {}
        for nm, arrs in (cell_data or {}).items():
            if isinstance(arrs, dict):
                raise Unsupported("cell_data given as dictionary")
            if len(arrs) != len(self.cells_dict):
                raise refuse(ValueError, "incompatible cell data")
            for (t, c), a in zip(self.cells_dict.items(), arrs):
                if len(a) != len(c):
                    raise refuse(ValueError, "incompatible cell data")
                self.cell_data_dict.setdefault(nm, {})[t] = a
        self.snapshot = None

    def get_cells_type(self, t):
        return self.cells_dict.get(t, np.zeros((0, {"triangle": 3, "line": 2}[t]), dtype=int))

    def get_cell_data(self, name, t):
        if name not in self.cell_data_dict:
            raise refuse(KeyError, name)
        return self.cell_data_dict[name].get(t, np.zeros(0, dtype=int))

    def prune_z_0(self, tol=1e-13):
        self.points = self.points[:, :2]


def meshio_read(name, *a, **k):
    s = state()
    if str(name) not in s.files:
        raise refuse(FileNotFoundError, f"No such file: {name}")
    f = s.files[str(name)]
    s.log.append(("read", str(name)))
    if isinstance(f, Snapshot):
        return MeshioMesh(f)
    return f


def meshio_write(name, m, *a, **k):
    s = state()
    s.files[str(name)] = m
    s.log.append(("write", str(name)))


class MTopology(Topology):
    pass


class Geometry(Strict):
    def __init__(self, x):
        self.x = x
        self.dim = x.shape[1]


class GMesh(Mesh):
    """A dolfinx mesh made from explicit nodes and cells."""

    def __init__(self, name, dim, points=None, cells=None, source=None, parent=None, comm=None):
        super().__init__(name, comm, dim)
        self.points, self.cells, self.source, self.parent = points, cells, source, parent
        if points is not None:
            self.geometry = Geometry(points)


class Tags(Strict):
    def __init__(self, mesh, values):
        self.mesh, self.values = mesh, values


def xdmf_read_mesh(x, name="mesh", xpath="/Xdmf/Domain", ghost_mode=None):
    s = state()
    f = s.files.get(x.fname)
    if f is None:
        raise refuse(RuntimeError, f"Failed to open {x.fname}")
    if name != "Grid":
        raise refuse(RuntimeError, f"No grid {name} in {x.fname}")
    if len(f.cells_dict) != 1:
        raise Unsupported("mixed cells")
    (t, cells), = f.cells_dict.items()
    if not len(cells):
        raise refuse(RuntimeError, "empty mesh")
    s.log.append(("read", x.fname))
    m = GMesh(f"mesh{len(s.log)}", 2 if t == "triangle" else 1, f.points, cells, source=f,
              comm=Comm(ENV().rank))
    m.ghost_mode = ghost_mode
    return m


def xdmf_read_meshtags(x, mesh, name="mesh tags", xpath="/Xdmf/Domain"):
    s = state()
    f = s.files.get(x.fname)
    if f is None:
        raise refuse(RuntimeError, f"Failed to open {x.fname}")
    if name != "Grid":
        raise refuse(RuntimeError, f"No grid {name} in {x.fname}")
    (t, cells), = f.cells_dict.items()
    d = {"triangle": 2, "line": 1}[t]
    if d < mesh.topology.dim and not any(
            e in (("connectivity", mesh.topology.dim, d), ("entities", d)) for e in mesh.log):
        raise refuse(RuntimeError, "Missing entity connectivity")
    v = next(iter(f.cell_data_dict.values()))[t]
    mesh.log.append(("tags", x.fname))
    return Tags(mesh, v)


class CellType:
    point, interval, triangle, quadrilateral, tetrahedron, hexahedron = (
        "point", "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")


class GhostMode:
    none, shared_facet, shared_vertex = "none", "shared_facet", "shared_vertex"


PERM = {("triangle", 3): [0, 1, 2], ("triangle", 6): [0, 1, 2, 5, 3, 4],
        ("quadrilateral", 4): [0, 1, 3, 2]}


def perm_gmsh(t, n):
    if (t, n) not in PERM:
        raise Unsupported(f"permutation for {t} with {n} nodes")
    return np.array(PERM[(t, n)])


class Domain:
    def __init__(self, cell, order, gdim):
        self.cell, self.order, self.gdim = cell, order, gdim


def ufl_mesh(cell_id, gdim):
    if cell_id not in IDS:
        raise refuse(KeyError, cell_id)
    return Domain(*IDS[cell_id], int(gdim))


IDS = {2: ("triangle", 1), 9: ("triangle", 2), 3: ("quadrilateral", 1)}
NAMES = {("triangle", 1): 2, ("triangle", 2): 9, ("quadrangle", 1): 3}


def get_element_type(family, order, serendip=False):
    need()
    order = int(order)
    if (family, order) not in NAMES:
        raise Unsupported(f"element {family} of order {order}")
    return NAMES[(family, order)]


def get_element_properties(t):
    need()
    nm, k = IDS[int(t)]
    n = {("triangle", 1): 3, ("triangle", 2): 6, ("quadrilateral", 1): 4}[(nm, k)]
    return ({"triangle": "Triangle", "quadrilateral": "Quadrilateral"}[nm] + f" {n}", 2, k, n,
            np.zeros(2 * n), 3)


def node_set(s):
    """Nodes and cells of the current mesh, in the order and with the tags gmsh chooses."""
    env = ENV()
    if getattr(s, "nodes", None) is not None and s.nodes["session"] == s.sessions \
            and s.nodes["order"] == s.order:
        return s.nodes
    if not s.generated:
        raise Unsupported("nodes of a model without mesh")
    src = s.model[0] if s.model else {}
    if not any(d == s.generated for d, _ in src):
        return dict(tags=[], pts=[], cells=[], n=3, session=s.sessions, order=s.order)
    if s.order == 1:
        n, cells = 4, [[0, 1, 2], [1, 3, 2]]
    elif s.order == 2:
        n, cells = 6, [[0, 1, 2, 3, 4, 5]]
    else:
        raise Unsupported(f"order {s.order}")
    tags = getattr(env, "node_tags", None)
    tags = tags(n) if tags else [n - i for i in range(n)]
    pts = [[env.real(f"p{s.sessions}[{i},{d}]", -2, 2) for d in range(2)] for i in range(n)]
    s.nodes = dict(tags=tags, pts=pts, cells=cells, n=len(cells[0]), session=s.sessions,
                   order=s.order)
    s.last_nodes = s.nodes
    report(s, [r for x, r in sorted(src.items()) if x[0] == s.generated])
    return s.nodes


def get_nodes(dim=-1, tag=-1, includeBoundary=False, returnParametricCoord=True):
    s = need()
    m = node_set(s)
    t = np.array(m["tags"], dtype=object)
    p = np.empty(3 * len(m["pts"]), dtype=object)
    for i, (x, y) in enumerate(m["pts"]):
        p[3 * i:3 * i + 3] = [x, y, 0.0]
    if ENV().mode == "num":
        t, p = t.astype(np.uint64), p.astype(float)
    elif not any(isinstance(x, Sym) for x in m["tags"]):
        t = t.astype(np.uint64)
    return t, p, np.zeros(0)


def get_elements(dim=-1, tag=-1):
    s = need()
    m = node_set(s)
    if dim != 2:
        raise Unsupported("elements of other dimensions")
    if not m["cells"]:
        return [], [], []
    v = [m["tags"][i] for c in m["cells"] for i in c]
    sym = any(isinstance(x, Sym) for x in v)
    a = np.array(v, dtype=object if sym else np.uint64)
    return ([NAMES[("triangle", s.order)]], [np.arange(1, len(m["cells"]) + 1)], [a])


def create_mesh(comm, cells, x, domain, *a, **k):
    if not isinstance(domain, Domain):
        raise Unsupported("domain of create_mesh")
    x = np.asarray(x)
    cells = np.asarray(cells)
    n = {("triangle", 1): 3, ("triangle", 2): 6, ("quadrilateral", 1): 4}[(domain.cell, domain.order)]
    if cells.ndim != 2 or cells.shape[1] != n:
        raise refuse(RuntimeError, "number of nodes per cell does not fit the element")
    if x.ndim != 2 or x.shape[1] != domain.gdim:
        raise refuse(RuntimeError, "geometric dimension does not fit the element")
    return GMesh("created", 2, x, cells, source=domain, comm=comm)


def locate_entities(mesh, dim, marker):
    if dim != mesh.topology.dim:
        raise Unsupported("locate_entities for other dimensions")
    out = []
    cells = mesh.cells if mesh.cells is not None else [[0], [1]]
    for c, nodes in enumerate(cells):
        x = np.empty((3, len(nodes)), dtype=object)
        for j, n in enumerate(nodes):
            for d in range(3):
                x[d, j] = mesh.points[n, d] if d < mesh.points.shape[1] else 0.0
        if ENV().mode == "num":
            x = x.astype(float)
        r = np.asarray(marker(x))
        if r.shape != (len(nodes),):
            raise refuse(RuntimeError, "Length of array of markers is wrong.")
        if all(bool(v) for v in r):
            out.append(c)
    return np.array(out, dtype=np.int32)


class Edges(Strict):
    """The edges of some cells of a mesh."""

    def __init__(self, mesh, cells):
        self.mesh, self.cells = mesh, [int(c) for c in cells]

    def __str__(self):
        return "edges"


def compute_incident_entities(m, cells, d0, d1):
    new = ENV().dolfinx_version >= (0, 7)
    if new != isinstance(m, Topology) or not isinstance(m, (Topology, Mesh)):
        raise refuse(TypeError, "compute_incident_entities(): incompatible function arguments")
    mesh = m.mesh if new else m
    D = mesh.topology.dim
    if not (isinstance(d0, int) and isinstance(d1, int) and 0 <= d0 <= D and 0 <= d1 <= D):
        raise refuse(RuntimeError, "no entities of this dimension")
    if 1 in (d0, d1) and ("entities", 1) not in mesh.log:
        raise refuse(RuntimeError, "Edges have not been created")
    # numbers of other entities, taken for edges, are not those of all edges
    return Edges(mesh, cells if (d0, d1) == (D, 1) else [])


def refine(mesh, edges=None, *a, redistribute=True, **k):
    if ("entities", 1) not in mesh.log:
        raise refuse(RuntimeError, "Edges must be initialised")
    if edges is not None and not isinstance(edges, Edges):
        raise Unsupported("edges of refine")
    if edges is not None and edges.mesh is not mesh:
        raise Unsupported("edges of another mesh")
    m = GMesh(mesh.name + "r", mesh.topology.dim, mesh.points, mesh.cells, source=mesh.source,
              parent=mesh, comm=mesh.comm)
    m.refined_all = edges is None or sorted(edges.cells) == list(range(len(mesh.cells)))
    return m


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None, dtype=None):
    s = need()
    f = snapshot3(s) if gdim == 3 else None
    if f is None:
        raise Unsupported("model_to_mesh in 2d")
    if not f.regions:
        raise refuse(RuntimeError, "no physical group of the highest dimension")
    pts = np.zeros((4, 3))
    m = GMesh(f"model{s.sessions}", gdim, pts, [[0, 1, 2, 3]], source=f, comm=comm)
    return m, Tags(m, None), Tags(m, None)


def snapshot3(s):
    f = Snapshot()
    src, fs = s.model if s.model else ({}, {})
    f.dim, f.size, f.generated = 3, s.options.get("Mesh.MeshSizeFactor"), s.generated
    f.state = (dict(src), dict(fs), [])
    f.regions = []
    for x, r in sorted(src.items()):
        tags = [t for t, es in s.groups.get(3, {}).items() if x[1] in es]
        if tags and s.generated == 3:
            f.regions.append((x[1], r, tags))
    f.lines = []
    report(s, [r for _, r, _ in f.regions])
    return f


# ------------------------------------------------------------- modules
def _snake(n):
    out = ""
    for c in n:
        out += "_" + c.lower() if c.isupper() else c
    return out


def module(name, **fns):
    m = _Mod(name)
    for k, v in fns.items():
        setattr(m, k, v)
        if _snake(k) != k:
            setattr(m, _snake(k), v)
    return m


def make(rank=0, version="0.6.0"):
    env = ENV()
    env.rank = rank
    env.dolfinx_version = tuple(int(x) for x in version.split(".")[:2])
    occ = module(
        "gmsh.model.occ", addRectangle=add_rectangle, addDisk=add_disk, addBox=add_box,
        cut=lambda o, t, tag=-1, removeObject=True, removeTool=True: boolean(
            "cut", o, t, tag, removeObject, removeTool),
        fragment=lambda o, t, tag=-1, removeObject=True, removeTool=True: boolean(
            "fragment", o, t, tag, removeObject, removeTool),
        fuse=lambda o, t, tag=-1, removeObject=True, removeTool=True: boolean(
            "fuse", o, t, tag, removeObject, removeTool),
        intersect=lambda o, t, tag=-1, removeObject=True, removeTool=True: boolean(
            "intersect", o, t, tag, removeObject, removeTool),
        synchronize=synchronize, getCenterOfMass=centre_of_mass,
        getEntities=lambda dim=-1: entities(need(), True, dim),
        getMass=lambda dim, tag: need().occ[(dim, tag)].volume())
    mesh = module("gmsh.model.mesh", generate=generate, setOrder=set_order, recombine=recombine,
                  getNodes=get_nodes, getElements=get_elements,
                  getElementProperties=get_element_properties, getElementType=get_element_type)
    model = module("gmsh.model", add=lambda name: need() and None,
                   getEntities=lambda dim=-1: entities(need(), False, dim),
                   addPhysicalGroup=add_physical_group,
                   getPhysicalGroups=lambda dim=-1: [
                       (d, t) for d, g in need().groups.items() for t in g if dim in (-1, d)])
    model.occ, model.mesh = occ, mesh
    model.__path__ = occ.__path__ = []
    option = module("gmsh.option", setNumber=set_number, getNumber=get_number)
    g = module("gmsh", initialize=initialize, finalize=finalize, isInitialized=is_initialized,
               write=write, clear=clear)
    g.model, g.option = model, option
    g.__path__ = []
    mio = module("meshio")
    mio.Mesh, mio.read, mio.write = MeshioMesh, meshio_read, meshio_write
    cpp = _Mod("dolfinx.cpp")
    cpp.__path__ = []
    cio = _Mod("dolfinx.cpp.io")
    cio.perm_gmsh = perm_gmsh
    cpp.io = cio
    gio = _Mod("dolfinx.io.gmshio")
    gio.ufl_mesh, gio.model_to_mesh = ufl_mesh, model_to_mesh
    meta = types.ModuleType("importlib.metadata")

    def ver(n):
        if n != "fenics-dolfinx":
            import importlib.metadata as im
            return im.version(n)
        return version

    meta.version = ver
    return {"gmsh": g, "gmsh.model": model, "gmsh.model.occ": occ, "gmsh.model.mesh": mesh,
            "gmsh.option": option, "meshio": mio, "dolfinx.cpp": cpp, "dolfinx.cpp.io": cio,
            "dolfinx.io.gmshio": gio, "importlib.metadata": meta}


def extend_dolfinx(s):
    """Adds the mesh functions to the dolfinx stand-in."""
    m = s["dolfinx.mesh"]
    for n in ("CellType", "GhostMode", "compute_incident_entities", "create_mesh",
              "locate_entities", "refine"):
        setattr(m, n, globals()[n])
    x = s["dolfinx.io"].XDMFFile
    x.read_mesh = xdmf_read_mesh
    x.read_meshtags = xdmf_read_meshtags
    s["dolfinx.io"].gmshio = s["dolfinx.io.gmshio"]
    s["dolfinx.io"].__path__ = []
    s["dolfinx"].cpp = s["dolfinx.cpp"]
