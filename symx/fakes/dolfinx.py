"""An abstract finite element back end.

A scalar element on a mesh has a few degrees of freedom; every pairing of two
basis functions under given operators, weights and measure is one symbolic
real number (the entry of an arbitrary matrix), shared between pairings that
are equal by symmetry of the pointwise product.  Degrees of freedom of mixed
spaces are numbered by a scrambled permutation.  Linear algebra (matrix times
vector, assembly, exact solves) is carried out on these symbols.
"""
from __future__ import annotations

import types
from fractions import Fraction

import numpy as np

from ..core import refuse, ENV, Sym, Unsupported, is_number, lift
from . import ufl as U


class Strict:
    """Base of the stand-ins: an attribute that is not modelled is 'inconclusive'."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{type(self).__name__}.{n} is not modelled")


def new_array(n):
    if ENV().mode == "num":
        return np.zeros(n, dtype=float)
    a = np.empty(n, dtype=object)
    a[:] = 0
    return a


# ---------------------------------------------------------------- mesh
class Comm(Strict):
    """One of `size` processes; all of them hold alike parts of every mesh."""

    def __init__(self, rank=0, size=None):
        self.rank = rank
        self._size = size

    @property
    def size(self):
        if self._size is not None:
            return self._size
        return getattr(ENV(), "processes", None) or 1

    def _combine(self, x, op):
        if op in (None, "sum"):
            return x * self.size
        if op in ("max", "min"):
            return x
        raise Unsupported(f"reduction with {op}")

    def allreduce(self, x, op=None):
        return self._combine(x, op)

    def Allreduce(self, send, recv, op=None):
        recv[...] = self._combine(np.asarray(recv if isinstance(send, str) else send), op)

    def reduce(self, x, op=None, root=0):
        return self._combine(x, op)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        pass

    Barrier = barrier

    def bcast(self, x, root=0):
        return x

    def gather(self, x, root=0):
        return [x] * self.size

    allgather = gather


class Topology(Strict):
    def __init__(self, mesh, dim):
        self.mesh = mesh
        self.dim = dim

    def create_connectivity(self, a, b):
        self.mesh.log.append(("connectivity", a, b))

    def create_entities(self, d):
        self.mesh.log.append(("entities", d))
        return 0


class Mesh(Strict):
    # dofs of a scalar continuous element of degree p
    def __init__(self, name, comm=None, dim=1, coarse=False, origin=None):
        self.name = name
        self.comm = comm or Comm()
        self.dim = dim
        self.coarse = coarse
        self.log = []
        self.origin = origin
        self.topology = Topology(self, dim)

    def ufl_cell(self):
        return ("cell", self.dim)

    def ufl_domain(self):
        return self

    def ndofs(self, family, degree):
        if family in ("CG", "Lagrange", "P", "Q"):
            if degree < 1:
                raise refuse(ValueError, "CG element of degree < 1")
            return min(degree, 3) + (0 if self.coarse else 1)
        if family in ("DG", "Discontinuous Lagrange", "DQ", "DP"):
            return 2 * (degree + 1)
        raise Unsupported(f"element family {family}")


# ---------------------------------------------------------------- spaces
class Element(Strict):
    def interpolation_points(self):
        return "interpolation points"


def _scramble(n):
    """A fixed permutation without structure."""
    import random

    r = random.Random(12345 + n)
    p = list(range(n))
    r.shuffle(p)
    return p


class FunctionSpace(Strict):
    count = 0

    def __init__(self, mesh, element, _blocks=None, _identity=False):
        self.mesh = mesh
        if _blocks is not None:
            blocks = _blocks
        elif isinstance(element, tuple):
            fam, deg = element[0], element[1]
            if len(element) > 2:
                raise Unsupported("blocked element tuple")
            blocks = [("scalar", [(fam, deg)])]
        elif isinstance(element, U.FiniteElement):
            blocks = [("scalar", [(element.family, element.deg)])]
        elif isinstance(element, U.VectorElement):
            blocks = [("vector", element.block())]
        elif isinstance(element, U.MixedElement):
            blocks = []
            for e in element.els:
                if isinstance(e, U.VectorElement):
                    blocks.append(("vector", e.block()))
                elif isinstance(e, U.FiniteElement):
                    blocks.append(("scalar", [(e.family, e.deg)]))
                else:
                    raise Unsupported("nested mixed element")
        else:
            raise Unsupported(f"element {element!r}")
        self.mixed = isinstance(element, U.MixedElement)
        self._el = element
        self.blocks = blocks
        self.comps = [c for _, b in blocks for c in b]
        env = ENV()
        env.space_count = getattr(env, "space_count", 0) + 1
        self.uid = env.space_count
        n = [mesh.ndofs(*c) for c in self.comps]
        self.ndof = sum(n)
        perm = list(range(self.ndof)) if len(self.comps) == 1 else _scramble(self.ndof)
        self.dofs = []
        o = 0
        for m in n:
            self.dofs.append(np.array(perm[o:o + m], dtype=np.int32))
            o += m
        self.element = Element()

    def is_scalar(self):
        return len(self.blocks) == 1 and self.blocks[0][0] == "scalar"

    def block_components(self):
        out, o = [], 0
        for _, b in self.blocks:
            out.append(list(range(o, o + len(b))))
            o += len(b)
        return out

    @property
    def num_sub_spaces(self):
        if self.mixed:
            return len(self.blocks)
        if self.blocks[0][0] == "vector":
            return len(self.comps)
        return 0

    def sub(self, i):
        if self.mixed:
            comps = self.block_components()
            if not 0 <= i < len(comps):
                raise refuse(IndexError, "subspace index out of range")
            return SubSpace(self, comps[i], self.blocks[i][0])
        if self.blocks[0][0] == "vector":
            if not 0 <= i < len(self.comps):
                raise refuse(IndexError, "subspace index out of range")
            return SubSpace(self, [i], "scalar")
        raise refuse(ValueError, "scalar space has no sub space")

    def collapse(self):
        raise refuse(RuntimeError, "Cannot collapse a function space that is not a sub space")

    def ufl_element(self):
        return self._el


class SubSpace(Strict):
    def __init__(self, root, comps, kind):
        self.root, self.cs, self.kind = root, comps, kind
        self.mesh = root.mesh
        self.element = Element()

    def sub(self, i):
        if self.kind != "vector":
            raise refuse(ValueError, "scalar space has no sub space")
        if not 0 <= i < len(self.cs):
            raise refuse(IndexError, "subspace index out of range")
        return SubSpace(self.root, [self.cs[i]], "scalar")

    @property
    def num_sub_spaces(self):
        return len(self.cs) if self.kind == "vector" else 0

    def collapse(self):
        V = FunctionSpace(self.mesh, None, _blocks=[(self.kind, [self.root.comps[c] for c in self.cs])])
        dm = np.zeros(V.ndof, dtype=np.int32)
        for j, c in enumerate(self.cs):
            dm[V.dofs[j]] = self.root.dofs[c]
        return V, dm


# ---------------------------------------------------------------- vectors
class Vec(Strict):
    """PETSc.Vec over a numpy array."""

    def __init__(self, a):
        self._a = a

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, v):
        self._a[:] = v

    array_r = array_w = array

    def getArray(self, readonly=False):
        return self._a

    def setArray(self, v):
        self._a[:] = v

    def getSize(self):
        return len(self._a)

    def getSizes(self):
        return (len(self._a), len(self._a))

    getLocalSize = getSize
    size = property(getSize)
    local_size = property(getSize)

    def set(self, v):
        self._a[:] = v

    def zeroEntries(self):
        self._a[:] = 0

    def copy(self, result=None):
        if result is None:
            return Vec(self._a.copy())
        result._a[:] = self._a
        return result

    def duplicate(self, array=None):
        v = new_array(len(self._a))
        return Vec(v)

    def axpy(self, alpha, x):
        self._a[:] = self._a + alpha * x._a

    def aypx(self, alpha, x):
        self._a[:] = alpha * self._a + x._a

    def waxpy(self, alpha, x, y):
        self._a[:] = alpha * x._a + y._a

    def axpby(self, alpha, beta, x):
        self._a[:] = alpha * x._a + beta * self._a

    def scale(self, a):
        self._a[:] = a * self._a

    def assemble(self):
        pass

    assemblyBegin = assemblyEnd = assemble

    def ghostUpdate(self, *a, **k):
        pass

    def setUp(self):
        return self

    def destroy(self):
        pass

    def getValues(self, idx):
        return self._a[idx]

    def setValues(self, idx, v, addv=None):
        if addv:
            np.add.at(self._a, idx, v)
        else:
            self._a[idx] = v

    def dot(self, o):
        t = 0
        for x, y in zip(self._a, o._a):
            t = t + x * y
        return t

    tDot = dot

    def norm(self, *a, **k):
        return ENV().sqrt(self.dot(self))

    def __getitem__(self, i):
        return self._a[i]

    def __setitem__(self, i, v):
        self._a[i] = v

    def __len__(self):
        return len(self._a)

    def __array__(self, dtype=None):
        return np.asarray(self._a, dtype=dtype)

    def __iadd__(self, o):
        self._a[:] = self._a + (o._a if isinstance(o, Vec) else o)
        return self

    def __isub__(self, o):
        self._a[:] = self._a - (o._a if isinstance(o, Vec) else o)
        return self

    def __imul__(self, o):
        self.scale(o)
        return self

    def __add__(self, o):
        return Vec(self._a + (o._a if isinstance(o, Vec) else o))

    def __sub__(self, o):
        return Vec(self._a - (o._a if isinstance(o, Vec) else o))

    def __rmul__(self, c):
        return Vec(c * self._a)

    def __mul__(self, c):
        return Vec(self._a * c)

    def __neg__(self):
        return Vec(-self._a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def localForm(self):
        return self


class XVec(Strict):
    """dolfinx.la.Vector of a Function."""

    def __init__(self, a):
        self._a = a

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, v):
        self._a[:] = v

    def scatter_forward(self):
        pass

    def scatter_reverse(self, *a):
        pass


# ---------------------------------------------------------------- functions
class Function(U.Function_mixin, Strict):
    def __init__(self, V, x=None, name=None, dtype=None):
        env = ENV()
        env.fn_count = getattr(env, "fn_count", 0) + 1
        self.uid = env.fn_count
        self.function_space = V
        self.name = name or f"f_{self.uid}"
        root = V.root if isinstance(V, SubSpace) else V
        self._root = root
        if x is None:
            if isinstance(V, SubSpace):
                raise refuse(ValueError, "Cannot create a Function on a sub space")
            self._arr = new_array(root.ndof)
        elif isinstance(x, XVec):
            self._arr = x._a
        elif isinstance(x, np.ndarray):
            self._arr = x
        else:
            raise Unsupported("Function(V, x)")
        self.x = XVec(self._arr)

    @property
    def vector(self):
        return Vec(self._arr)

    def _comps(self):
        V = self.function_space
        return V.cs if isinstance(V, SubSpace) else list(range(len(V.comps)))

    def split(self):
        V = self.function_space
        n = V.num_sub_spaces
        if n == 0:
            raise refuse(RuntimeError, "No subfunctions to extract")
        return tuple(self.sub(i) for i in range(n))

    def sub(self, i):
        return Function(self.function_space.sub(i), x=self._arr)

    def collapse(self):
        V, dm = self.function_space.collapse()
        f = Function(V)
        f.x.array[:] = self._arr[dm]
        return f

    def copy(self):
        return Function(self.function_space, x=self._arr.copy())

    def as_ufl(self):
        V = self.function_space
        kind = V.kind if isinstance(V, SubSpace) else ("mixed" if V.mixed else V.blocks[0][0])
        cs = self._comps()
        if kind == "scalar":
            return U.Expr.factor(U._Factor("coef", (self, cs[0])))
        return U.Vec([U.Expr.factor(U._Factor("coef", (self, c))) for c in cs])

    def ufl_parts(self):
        return [s.as_ufl() for s in self.split()]

    @property
    def ufl_shape(self):
        return self.as_ufl().ufl_shape

    def interpolate(self, g, cells=None, **kw):
        if cells is not None or kw:
            raise Unsupported("interpolate options")
        root = self._root
        env = ENV()
        out = self._arr.copy()
        cs = self._comps()
        if isinstance(g, Function):
            gc = g._comps()
            if len(gc) != len(cs):
                raise refuse(RuntimeError, "Cannot interpolate: shapes differ")
            src = g._arr.copy()
            for c, d in zip(cs, gc):
                el, em, gr = root.comps[c], root.mesh, g._root
                if el == gr.comps[d] and em is gr.mesh:
                    out[root.dofs[c]] = src[gr.dofs[d]]
                    continue
                for i, t in enumerate(root.dofs[c]):
                    v = 0
                    for k, s in enumerate(gr.dofs[d]):
                        w = env.real(f"I[{em.name}.{el[0]}{el[1]}.{i}<-{gr.mesh.name}."
                                     f"{gr.comps[d][0]}{gr.comps[d][1]}.{k}]")
                        v = v + w * src[s]
                    out[t] = v
        elif isinstance(g, Expression):
            if len(cs) != 1:
                raise Unsupported("interpolation of an expression into a blocked space")
            c = cs[0]
            for i, t in enumerate(root.dofs[c]):
                out[t] = eval_at_node(g.e, f"{root.mesh.name}.{root.comps[c][0]}{root.comps[c][1]}.{i}",
                                      root.mesh)
        elif callable(g) and not isinstance(g, (U.Expr, U.Vec)):
            for c in cs:
                n = len(root.dofs[c])
                x = node_coordinates(root.mesh, root.comps[c], n)
                v = np.asarray(g(x))
                if v.ndim == 2 and v.shape[0] == 1:
                    v = v[0]
                if v.shape != (n,):
                    raise refuse(RuntimeError, "Interpolation data has the wrong shape")
                out[root.dofs[c]] = v
        else:
            raise refuse(TypeError, "Cannot interpolate this object")
        self._arr[:] = out


def node_coordinates(mesh, comp, n):
    env = ENV()
    if getattr(env, "node_points", None):
        return env.node_points(mesh, comp, n)
    x = np.empty((3, n), dtype=object)
    for i in range(n):
        for d in range(3):
            if d < mesh.dim:
                x[d, i] = env.real(f"X[{mesh.name}.{comp[0]}{comp[1]}.{i}].{d}", lo=0, hi=1)
            else:
                x[d, i] = 0.0
    return x.astype(float) if env.mode == "num" else x


class Expression(Strict):
    def __init__(self, e, points, *a, **k):
        self.e = U.as_expr(e)
        if self.e is NotImplemented or isinstance(self.e, U.Vec) or self.e.rank:
            raise Unsupported("Expression")


def eval_at_node(e, node, mesh):
    env = ENV()
    tot = 0
    for c, fs in e.terms:
        v = c
        for f in fs:
            if f.kind != "field":
                raise Unsupported("evaluation of a discrete function at nodes")
            nm, params = f.data
            v = v * env_field(f"E[{nm}{''.join(f.ops)}@{node}]", params)
        tot = tot + v
    return tot


def env_field(name, params):
    env = ENV()
    ps = [p for p in params if is_number(p) or isinstance(p, Sym)]
    rest = [p for p in params if not (is_number(p) or isinstance(p, Sym))]
    if rest:
        name = name + "|" + ",".join(map(str, rest))
    if ps:
        return env.uf(name, *ps)
    return env.real(name)


# ---------------------------------------------------------------- forms
class CompiledForm(Strict):
    def __init__(self, form):
        self.form = form
        self.spaces = {}
        rank = None
        for e, m, q in form.integrals:
            for c, fs in e.terms:
                kinds = []
                for f in _flat(fs):
                    if f.kind in ("test", "trial"):
                        kinds.append(f.kind)
                        sp = f.data[0]
                        old = self.spaces.get(f.kind)
                        if old is not None and old is not sp:
                            raise refuse(ValueError, "Arguments from different spaces in one form")
                        self.spaces[f.kind] = sp
                kinds.sort()
                if len(set(kinds)) != len(kinds):
                    raise refuse(ValueError, "Form is not linear in its arguments")
                r = tuple(kinds)
                if rank is None:
                    rank = r
                elif rank != r:
                    raise refuse(ValueError, "All terms in form must have same rank.")
        self.kinds = rank if rank is not None else ()
        self.rank = len(self.kinds)
        self.mesh = None


def _flat(fs):
    for f in fs:
        if f.kind == "dot":
            yield from f.data
        else:
            yield f


def _distinct(fs):
    """Copies, so that the two factors of a square run over their own indices."""
    out = []
    for f in fs:
        if f.kind == "dot":
            out.append(U._Factor("dot", tuple(U._Factor(g.kind, g.data, g.ops, g.rank) for g in f.data),
                                 f.ops, f.rank))
        else:
            out.append(U._Factor(f.kind, f.data, f.ops, f.rank))
    return tuple(out)


def form(f, dtype=None, form_compiler_options=None, jit_options=None, **kw):
    if isinstance(f, CompiledForm):
        return f
    if not isinstance(f, U.Form):
        raise Unsupported("fem.form of something else than one form")
    return CompiledForm(f)


def _slot_name(mesh, comp, dof, ops):
    return f"{mesh.name}.{comp[0]}{comp[1]}.{dof}" + ("".join(":" + o for o in ops))


def _term_degree(fs):
    d = 0
    for f in _flat(fs):
        if f.kind in ("test", "trial"):
            sp, c = f.data
            d += max(0, sp.comps[c][1] - sum(o in ("grad", "div") for o in f.ops))
        elif f.kind == "coef":
            fn, c = f.data
            d += max(0, fn._root.comps[c][1] - sum(o in ("grad", "div") for o in f.ops))
    return d


def expand(cform):
    """Yield (row, col, value): the assembled entries (row/col None if no such argument)."""
    env = ENV()
    for e, meas, qdeg in cform.form.integrals:
        if meas == "dS":
            pass
        for c, fs in e.terms:
            fs = _distinct(fs)
            tag = ""
            if qdeg is not None and qdeg < _term_degree(fs):
                tag = f"!q{qdeg}"
            slots = [f for f in _flat(fs) if f.kind in ("test", "trial", "coef")]
            choices = []
            for f in slots:
                if f.kind == "coef":
                    fn, comp = f.data
                    choices.append((fn._root, comp, fn._root.dofs[comp]))
                else:
                    sp, comp = f.data
                    choices.append((sp, comp, sp.dofs[comp]))
            if meas == "dS":
                for f in _flat(fs):
                    if f.kind in ("test", "trial", "coef") and not (
                            f.ops and f.ops[-1] in ("+", "-")):
                        raise refuse(ValueError, "Discontinuous type Argument must be restricted.")
            params, labels = [], []

            def fkey(f, names, params=params):
                if f.kind in ("test", "trial", "coef"):
                    return names[id(f)]
                nm, ps = f.data
                num = [p for p in ps if is_number(p) or isinstance(p, Sym)]
                rest = [p for p in ps if not (is_number(p) or isinstance(p, Sym))]
                return nm + "".join(map(str, rest)) + "".join(":" + o for o in f.ops), num

            # iterate over dof choices
            idx = [0] * len(slots)
            while True:
                names = {}
                row = col = None
                val = c
                skip = False
                for j, f in enumerate(slots):
                    root, comp, dofs = choices[j]
                    names[id(f)] = _slot_name(root.mesh, root.comps[comp], idx[j], f.ops)
                    g = int(dofs[idx[j]])
                    if f.kind == "test":
                        row = g
                    elif f.kind == "trial":
                        col = g
                    else:
                        cv = f.data[0]._arr[g]
                        if (isinstance(cv, Sym) and not cv.p) or (not isinstance(cv, Sym) and cv == 0):
                            skip = True
                        else:
                            val = val * cv
                if not skip:
                    yield row, col, val * pairing(meas, tag, fs, names)
                j = len(idx) - 1
                while j >= 0:
                    idx[j] += 1
                    if idx[j] < len(choices[j][2]):
                        break
                    idx[j] = 0
                    j -= 1
                if j < 0:
                    break


def pairing(meas, tag, fs, names):
    """The number: integral over `meas` of the pointwise product of the factors."""
    env = ENV()
    if env.mode == "num" and getattr(env, "roots_of_squares", False):
        return concrete_pairing(env, meas, tag, fs, names)
    parts = []
    counts = {}

    def fname(f):
        if f.kind in ("test", "trial", "coef"):
            return names[id(f)], ()
        nm, ps = f.data
        num = tuple(p for p in ps if is_number(p) or isinstance(p, Sym))
        rest = [p for p in ps if not (is_number(p) or isinstance(p, Sym))]
        return nm + ("|" + ",".join(map(str, rest)) if rest else "") + "".join(
            ":" + o for o in f.ops), num

    for f in fs:
        if f.kind == "dot":
            ab = [fname(x) for x in f.data]
            ab.sort(key=lambda t: (t[0], repr([U._pkey(p) for p in t[1]])))
            parts.append(("dot(" + ",".join(t[0] for t in ab) + ")", ab[0][1] + ab[1][1]))
        else:
            n, ps = fname(f)
            if f.kind == "field":
                base, s = (n[2:], -1) if n.startswith("1/") else (n, 1)
                k = (base, ps)
                counts[k] = counts.get(k, 0) + s
            else:
                parts.append((n, ps))
    for (base, ps), n in counts.items():
        if n:
            parts.append((base + (f"^{n}" if n != 1 else ""), ps))
    parts.sort(key=lambda t: (t[0], repr([U._pkey(p) for p in t[1]])))
    name = f"B[{meas}{tag}|" + "*".join(t[0] for t in parts) + "]"
    params = [p for t in parts for p in t[1]]
    if params:
        return env.uf(name, *params)
    return env.real(name)


def concrete_pairing(env, meas, tag, fs, names, points=5):
    """The pairing as a sum over points with positive weights (so squares are >= 0)."""

    def val(f, k, inv=False):
        if f.kind in ("test", "trial", "coef"):
            return env.random_value(f"{names[id(f)]}@{meas}{tag}{k}")
        nm, ps = f.data
        inv = nm.startswith("1/")
        nm = nm[2:] if inv else nm
        num = [p for p in ps if is_number(p)]
        rest = [p for p in ps if not is_number(p)]
        nm = f"{nm}|{','.join(map(str, rest))}" + "".join(":" + o for o in f.ops) + f"@{meas}{tag}{k}"
        v = env.num_uf(nm, num) if num else env.random_value(nm)
        v = v or Fraction(1, 8)  # a field may be divided by
        return 1 / v if inv else v

    t = 0.0
    for k in range(points):
        w = 0.125 * (k + 1)
        for f in fs:
            if f.kind == "dot":
                w = w * float(val(f.data[0], k)) * float(val(f.data[1], k))
            else:
                w = w * float(val(f, k))
        t += w
    return t


# ---------------------------------------------------------------- matrices
class Mat(Strict):
    def __init__(self, nr, nc):
        self.rows = [dict() for _ in range(nr)]
        self.nr, self.nc = nr, nc
        self.assembled = False
        env = ENV()
        env.mat_count = getattr(env, "mat_count", 0) + 1
        self.uid = env.mat_count

    def assemble(self, *a):
        self.assembled = True

    def assemblyBegin(self, *a):
        pass

    def assemblyEnd(self, *a):
        self.assembled = True

    def setUp(self):
        return self

    def getSize(self):
        return (self.nr, self.nc)

    size = property(getSize)

    def getLocalSize(self):
        return (self.nr, self.nc)

    def _need(self):
        if not self.assembled:
            raise refuse(RuntimeError, "PETSc error 73: object is in wrong state (matrix not assembled)")

    def mult(self, x, y):
        self._need()
        if x._a is y._a:
            raise refuse(RuntimeError, "PETSc error 61: x and y must be different vectors")
        if len(x._a) != self.nc or len(y._a) != self.nr:
            raise refuse(RuntimeError, "PETSc error 60: nonconforming object sizes")
        y._a[:] = self.times(x._a)

    def multAdd(self, x, v, y):
        r = self.times(x._a)
        y._a[:] = v._a + r

    def multTranspose(self, x, y):
        self._need()
        out = new_array(self.nc)
        for i, r in enumerate(self.rows):
            for j, v in r.items():
                out[j] = out[j] + v * x._a[i]
        y._a[:] = out

    def times(self, a):
        out = new_array(self.nr)
        for i, r in enumerate(self.rows):
            t = 0
            for j, v in r.items():
                b = a[j]
                if isinstance(b, Sym) and not b.p:
                    continue
                if not isinstance(b, Sym) and b == 0:
                    continue
                t = t + v * b
            out[i] = t
        return out

    def __mul__(self, x):
        if isinstance(x, Vec):
            self._need()
            return Vec(self.times(x._a))
        return NotImplemented

    __matmul__ = __mul__

    def createVecs(self, side=None):
        if side in ("r", "right"):
            return Vec(new_array(self.nc))
        if side in ("l", "left"):
            return Vec(new_array(self.nr))
        return Vec(new_array(self.nc)), Vec(new_array(self.nr))

    getVecs = createVecs

    def createVecRight(self):
        return Vec(new_array(self.nc))

    def createVecLeft(self):
        return Vec(new_array(self.nr))

    def add(self, i, j, v):
        r = self.rows[i]
        o = r.get(j)
        r[j] = v if o is None else o + v

    def copy(self, result=None, structure=None):
        m = Mat(self.nr, self.nc)
        m.rows = [dict(r) for r in self.rows]
        m.assembled = self.assembled
        return m

    def axpy(self, alpha, X, structure=None):
        for i, r in enumerate(X.rows):
            for j, v in r.items():
                self.add(i, j, alpha * v)

    def zeroEntries(self):
        self.rows = [dict() for _ in range(self.nr)]

    def getValuesCSR(self):
        self._need()
        ai, aj, av = [0], [], []
        for r in self.rows:
            for j in sorted(r):
                aj.append(j)
                av.append(r[j])
            ai.append(len(aj))
        vals = np.array(av, dtype=float if ENV().mode == "num" else object)
        return np.array(ai, dtype=np.int32), np.array(aj, dtype=np.int32), vals

    def entry(self, i, j):
        return self.rows[i].get(j, 0)

    def dense(self):
        d = np.zeros((self.nr, self.nc))
        for i, r in enumerate(self.rows):
            for j, v in r.items():
                d[i, j] = float(v)
        return d

    def getComm(self):
        return Comm()

    comm = property(getComm)

    def destroy(self):
        pass

    # exact solve: the contract of a direct solver
    def solve_exact(self, b, what="solve"):
        self._need()
        env = ENV()
        if env.mode == "num":
            return np.linalg.solve(self.dense(), np.array(b, dtype=float))
        key = ("solve", self.uid, tuple(lift(v).key() for v in b))
        cache = env.__dict__.setdefault("_solves", {})
        if key in cache:
            return cache[key].copy()
        k = len(cache)
        x = np.empty(self.nc, dtype=object)
        for i in range(self.nc):
            x[i] = Sym({((env._atom(("solve", k, i), f"{what}{k}[{i}]", "solve", ()).id, 1),): Fraction(1)})
        ax = self.times(x)
        for i in range(self.nr):
            env.fact_zero(ax[i] - b[i])
        cache[key] = x
        return x.copy()


def assemble_matrix(a, form_=None, bcs=None, diagonal=1.0, **kw):
    if isinstance(a, Mat):
        A, f = a, form_
    else:
        A, f = None, a
        if form_ is not None and not bcs:
            bcs = form_
    if bcs:
        raise Unsupported("boundary conditions")
    f = form(f) if isinstance(f, U.Form) else f
    if not isinstance(f, CompiledForm):
        raise refuse(TypeError, "assemble_matrix needs a compiled form")
    if f.kinds != ("test", "trial"):
        raise refuse(RuntimeError, "assemble_matrix: not a bilinear form")
    if A is None:
        A = Mat(f.spaces["test"].ndof, f.spaces["trial"].ndof)
    for i, j, v in expand(f):
        A.add(i, j, v)
    return A


def create_matrix(a, *k):
    return Mat(a.spaces["test"].ndof, a.spaces["trial"].ndof)


def create_vector(L, *k):
    L = form(L) if isinstance(L, U.Form) else L
    if not isinstance(L, CompiledForm):
        raise refuse(TypeError, "create_vector needs a compiled form")
    if L.rank != 1:
        raise refuse(RuntimeError, "create_vector: not a linear form")
    return Vec(new_array(L.spaces["test"].ndof))


def assemble_vector(b, L=None, **kw):
    if not isinstance(b, Vec):
        L = b
        b = create_vector(L)
    L = form(L) if isinstance(L, U.Form) else L
    if not isinstance(L, CompiledForm):
        raise refuse(TypeError, "assemble_vector needs a compiled form")
    if L.kinds != ("test",):
        raise refuse(RuntimeError, "assemble_vector: not a linear form")
    for i, _, v in expand(L):
        b._a[i] = b._a[i] + v
    return b


def assemble_scalar(f):
    f = form(f) if isinstance(f, U.Form) else f
    if not isinstance(f, CompiledForm):
        raise refuse(TypeError, "assemble_scalar needs a compiled form")
    if f.rank != 0:
        raise refuse(RuntimeError, "assemble_scalar: the form has arguments")
    t = 0
    for _, _, v in expand(f):
        t = t + v
    return t


def Constant(mesh, v):
    return U.as_expr(v)


# ---------------------------------------------------------------- io
class XDMFFile(Strict):
    def __init__(self, comm, name, mode):
        self.fname, self.mode = str(name), mode
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def write_mesh(self, m):
        ENV().events.append(("write_mesh", self.fname, m))

    def write_function(self, f, t=0.0):
        ENV().events.append(("write_function", self.fname, f.name, f, f._arr.copy()))


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n} is not modelled")


def make():
    d = _Mod("dolfinx")
    d.__path__ = []
    fem = _Mod("dolfinx.fem")
    fem.__path__ = []
    pet = _Mod("dolfinx.fem.petsc")
    for n in ("FunctionSpace", "Function", "Expression", "form", "assemble_scalar", "Constant"):
        setattr(fem, n, globals()[n])
    fem.functionspace = FunctionSpace
    for n in ("assemble_matrix", "assemble_vector", "create_vector", "create_matrix"):
        setattr(pet, n, globals()[n])
    fem.petsc = pet
    io = _Mod("dolfinx.io")
    io.__path__ = []
    io.XDMFFile = XDMFFile
    mesh = _Mod("dolfinx.mesh")

    class CellType:
        interval, triangle, quadrilateral, tetrahedron, hexahedron = (
            "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")

    class GhostMode:
        none, shared_facet, shared_vertex = "none", "shared_facet", "shared_vertex"

    mesh.CellType, mesh.GhostMode = CellType, GhostMode

    def grid(name, comm, lo, hi, n):
        m = Mesh(name, comm, len(n))
        m.grid = [(a, b, c) for a, b, c in zip(lo, hi, n)]
        for a, b, c in m.grid:
            if isinstance(c, Sym) or int(c) != c or c < 1 or a == b:
                raise refuse(RuntimeError, "number of cells")
        return m

    def create_unit_interval(comm, nx, *a, **k):
        return grid("interval", comm, [0], [1], [nx])

    def create_interval(comm, nx, points, *a, **k):
        return grid("interval", comm, [points[0]], [points[1]], [nx])

    def create_unit_square(comm, nx, ny, *a, **k):
        return grid("square", comm, [0, 0], [1, 1], [nx, ny])

    def create_rectangle(comm, points, n, *a, **k):
        return grid("rectangle", comm, list(points[0]), list(points[1]), list(n))

    def create_box(comm, points, n, *a, **k):
        return grid("box", comm, list(points[0]), list(points[1]), list(n))

    def create_unit_cube(comm, nx, ny, nz, *a, **k):
        return grid("box", comm, [0, 0, 0], [1, 1, 1], [nx, ny, nz])

    mesh.create_unit_interval, mesh.create_box = create_unit_interval, create_box
    mesh.create_unit_square = create_unit_square
    mesh.create_unit_cube, mesh.create_interval = create_unit_cube, create_interval
    mesh.create_rectangle = create_rectangle
    mesh.Mesh = Mesh
    d.fem, d.io, d.mesh = fem, io, mesh
    return {"dolfinx": d, "dolfinx.fem": fem, "dolfinx.fem.petsc": pet, "dolfinx.io": io,
            "dolfinx.mesh": mesh}
