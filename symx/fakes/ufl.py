"""A small algebraic model of UFL.

A scalar expression is a sum of terms  coefficient * product of factors.
Factors (tuples, sortable by repr):
  ("arg", kind, space, comp, ops)  component `comp` of the test/trial function of
                                   `space` under the linear operators `ops`
                                   (innermost first), kind in {"test", "trial"}
  ("coef", function, comp, ops)    the same for a discrete function
  ("field", name, params, ops)     a known field (user data, CellDiameter, ...)
  ("dot", f, g)                    contraction of two tensor-valued factors
`ops` that change the tensor rank: grad (+1), div (-1).
"""
from __future__ import annotations

import math as _math
import types

from ..core import refuse, ENV, Sym, SymBool, Unsupported, is_number

LINEAR_RANK = {"grad": 1, "div": -1, "+": 0, "-": 0}


class _Factor:
    __slots__ = ("kind", "data", "ops", "rank", "_key")

    def __init__(self, kind, data, ops=(), rank=0):
        self.kind, self.data, self.ops, self.rank = kind, data, tuple(ops), rank
        self._key = None

    def key(self):
        if self._key is None:
            if self.kind in ("test", "trial"):
                space, comp = self.data
                self._key = (self.kind, space.uid, comp, self.ops)
            elif self.kind == "coef":
                fn, comp = self.data
                self._key = ("coef", fn.uid, comp, self.ops)
            elif self.kind == "dot":
                self._key = ("dot",) + tuple(sorted((repr(f.key()), i) for i, f in enumerate(
                    self.data)))
                self._key = ("dot",) + tuple(sorted(repr(f.key()) for f in self.data))
            else:
                name, params = self.data
                self._key = ("field", name, tuple(_pkey(p) for p in params), self.ops)
        return self._key

    def with_op(self, op):
        r = self.rank + LINEAR_RANK[op]
        if r < 0:
            raise refuse(ValueError, "div of a scalar")
        restricted = bool(self.ops) and self.ops[-1] in ("+", "-")
        if self.kind == "dot":
            if op in ("+", "-"):
                return _Factor("dot", tuple(f.with_op(op) for f in self.data))
            raise Unsupported(f"{op} of a contraction")
        if restricted and op in ("+", "-"):
            raise refuse(ValueError, "Cannot restrict an expression twice.")
        if restricted:  # derivatives commute with restrictions: keep those last
            return _Factor(self.kind, self.data, self.ops[:-1] + (op, self.ops[-1]), r)
        return _Factor(self.kind, self.data, self.ops + (op,), r)


def _pkey(p):
    if isinstance(p, Sym):
        return ("sym",) + p.key()
    return ("num", float(p)) if is_number(p) else ("obj", repr(p))


def _coef_zero(c):
    if isinstance(c, Sym):
        return not c.p
    return c == 0


class Expr:
    """Sum of (coefficient, factors); rank 0, or a tensor of rank >= 1 given abstractly."""

    __slots__ = ("terms", "rank", "uid")
    __array_ufunc__ = None

    def __init__(self, terms, rank=0):
        self.terms = terms
        self.rank = rank

    @staticmethod
    def const(c):
        return Expr([(c, ())])

    @staticmethod
    def factor(f):
        return Expr([(1, (f,))], f.rank)

    @property
    def ufl_shape(self):
        return ("g",) * self.rank

    def __add__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Vec):
            return NotImplemented
        if not self.terms:
            return o
        if not o.terms:
            return self
        if self.rank != o.rank:
            raise refuse(ValueError, "adding expressions of different shape")
        return Expr(self.terms + o.terms, self.rank)

    def __radd__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return o + self

    def __neg__(self):
        return Expr([(-c, f) for c, f in self.terms], self.rank)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, Measure):
            return o.__rmul__(self)
        if isinstance(o, Vec):
            return Vec([self * c for c in o.comps])
        o = as_expr(o)
        if o is NotImplemented:
            return o
        if self.rank and o.rank:
            raise refuse(ValueError, "product of two tensor-valued expressions; use inner")
        out = []
        for c1, f1 in self.terms:
            for c2, f2 in o.terms:
                c = c1 * c2
                if not _coef_zero(c):
                    out.append((c, f1 + f2))
        return Expr(out, self.rank + o.rank)

    def __rmul__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return o * self

    def __truediv__(self, o):
        if is_number(o) or isinstance(o, Sym):
            return Expr([(c / o, f) for c, f in self.terms], self.rank)
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return self * _inverse(o)

    def __rtruediv__(self, o):
        o = as_expr(o)
        if o is NotImplemented:
            return o
        return o * _inverse(self)

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int):
            raise Unsupported(f"power {n!r} of a UFL expression")
        if n < 0:
            return _inverse(self ** (-n))
        r = Expr.const(1)
        for _ in range(n):
            r = r * self
        return r

    def __call__(self, side):
        if side not in ("+", "-"):
            raise Unsupported("evaluation of a UFL expression")
        return restrict(self, side)

    def __getitem__(self, i):
        if len(self.terms) == 1 and len(self.terms[0][1]) == 1:
            f = self.terms[0][1][0]
            if f.kind == "field" and f.rank == 1 and isinstance(i, int):
                nm, params = f.data
                return Expr([(self.terms[0][0], (_Factor("field", (f"{nm}[{i}]", params), f.ops, 0),))])
        raise Unsupported("indexing of a UFL expression")

    def __abs__(self):
        return _mathfn("abs", self)

    def _const(self):
        if any(f for _, f in self.terms):
            return None
        t = 0
        for c, _ in self.terms:
            t = t + c
        return t

    def __float__(self):
        c = self._const()
        if c is None:
            raise refuse(TypeError, "UFL expression is not a number")
        return float(c)

    def dx(self, *a):
        raise Unsupported("partial derivative")

    def __bool__(self):
        return True

    def __eq__(self, o):
        raise Unsupported("comparison of UFL expressions")

    def __ne__(self, o):
        raise Unsupported("comparison of UFL expressions")

    def __hash__(self):
        return id(self)

    def _rel(self, op, o):
        return Condition((op, ekey(self), ekey(as_expr(o))))

    def __le__(self, o):
        return self._rel("<=", o)

    def __ge__(self, o):
        return self._rel(">=", o)

    def __lt__(self, o):
        return self._rel("<", o)

    def __gt__(self, o):
        return self._rel(">", o)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"UFL expression attribute {n}")


def ekey(e):
    if isinstance(e, Vec):
        return ("vec",) + tuple(ekey(c) for c in e.comps)
    return tuple(sorted((tuple(sorted(repr(f.key()) for f in fs)), repr(_pkey(c)))
                        for c, fs in e.terms))


class Vec:
    __array_ufunc__ = None
    """A vector-valued (blocked) expression with a known number of components."""

    def __init__(self, comps):
        self.comps = list(comps)

    @property
    def ufl_shape(self):
        return (len(self.comps),)

    def __len__(self):
        return len(self.comps)

    def __getitem__(self, i):
        if isinstance(i, Sym):
            i = i.__index__()
        n = len(self.comps)
        if isinstance(i, slice):
            return Vec(self.comps[i])
        i = i.__index__()
        # UFL accepts only 0 <= i < n for fixed indices
        if i < 0 or i >= n:
            raise refuse(ValueError, f"Out of bounds of tensor shape: index {i}, shape {(n,)}")
        return self.comps[i]

    def __iter__(self):
        return iter(self.comps)

    def _zip(self, o, fn):
        if not isinstance(o, Vec) or len(o) != len(self):
            raise refuse(ValueError, "shape mismatch in UFL expression")
        return Vec([fn(a, b) for a, b in zip(self.comps, o.comps)])

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __neg__(self):
        return Vec([-c for c in self.comps])

    def __mul__(self, o):
        if isinstance(o, Vec):
            raise Unsupported("product of vectors")
        if isinstance(o, Measure):
            raise refuse(ValueError, "Can only integrate scalar expressions")
        return Vec([c * o for c in self.comps])

    def __rmul__(self, o):
        return Vec([o * c for c in self.comps])

    def __truediv__(self, o):
        return Vec([c / o for c in self.comps])

    def __call__(self, side):
        return Vec([c(side) for c in self.comps])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"UFL vector attribute {n}")


def as_expr(x):
    if isinstance(x, (Expr, Vec)):
        return x
    if isinstance(x, Function_mixin):
        return x.as_ufl()
    if is_number(x) or isinstance(x, Sym):
        return Expr.const(x) if not _coef_zero(x) else Expr([])
    return NotImplemented


class Function_mixin:
    """dolfinx.fem.Function derives from this: usable as an expression."""

    __array_ufunc__ = None

    def __add__(self, o):
        return self.as_ufl() + o

    def __radd__(self, o):
        return o + self.as_ufl()

    def __sub__(self, o):
        return self.as_ufl() - o

    def __rsub__(self, o):
        return as_expr(o) - self.as_ufl()

    def __mul__(self, o):
        return self.as_ufl() * o

    def __rmul__(self, o):
        return self.as_ufl().__rmul__(o)

    def __truediv__(self, o):
        return self.as_ufl() / o

    def __neg__(self):
        return -self.as_ufl()

    def __pow__(self, n):
        return self.as_ufl() ** n

    def __getitem__(self, i):
        return self.as_ufl()[i]

    def __rtruediv__(self, o):
        return as_expr(o) / self.as_ufl()


def _inverse(e):
    c = e._const()
    if c is not None:
        return Expr.const(1 / c)
    if len(e.terms) == 1 and e.rank == 0:
        c, fs = e.terms[0]
        inv = []
        for f in fs:
            if f.kind != "field":
                raise Unsupported("division by a function")
            nm, params = f.data
            if nm.startswith("1/"):
                inv.append(_Factor("field", (nm[2:], params), f.ops, 0))
            else:
                inv.append(_Factor("field", ("1/" + nm, params), f.ops, 0))
        return Expr([(1 / c, tuple(inv))])
    raise Unsupported("division by a sum")


def _linear(e, op):
    if isinstance(e, Function_mixin):
        e = e.as_ufl()
    if isinstance(e, Vec):
        return Vec([_linear(c, op) for c in e.comps])
    if is_number(e) or isinstance(e, Sym):
        return Expr([], max(0, LINEAR_RANK[op]))
    out = []
    rank = e.rank + LINEAR_RANK[op]
    if rank < 0:
        raise refuse(ValueError, "div of a scalar expression")
    for c, fs in e.terms:
        if len(fs) == 0:
            if op in ("+", "-"):
                out.append((c, ()))
            continue
        if len(fs) == 1:
            out.append((c, (fs[0].with_op(op),)))
        elif op in ("+", "-"):
            out.append((c, tuple(f.with_op(op) for f in fs)))
        else:
            raise Unsupported(f"{op} of a product")
    return Expr(out, rank)


def grad(e):
    return _linear(e, "grad")


nabla_grad = grad


def div(e):
    e = as_expr(e)
    if isinstance(e, Vec):
        raise Unsupported("div of a blocked vector")
    return _linear(e, "div")


nabla_div = div


def jump(e, n=None):
    e = as_expr(e)
    if n is not None:
        raise Unsupported("jump(v, n)")
    return e("+") - e("-")


def avg(e):
    e = as_expr(e)
    return 0.5 * (e("+") + e("-"))


def restrict(e, side):
    return _linear(e, side)


def inner(a, b):
    a, b = as_expr(a), as_expr(b)
    if a is NotImplemented or b is NotImplemented:
        raise refuse(TypeError, "inner: not a UFL expression")
    if isinstance(a, Vec) or isinstance(b, Vec):
        if not (isinstance(a, Vec) and isinstance(b, Vec)) or len(a) != len(b):
            raise refuse(ValueError, "Shapes do not match in inner")
        r = Expr([])
        for x, y in zip(a.comps, b.comps):
            r = r + inner(x, y)
        return r
    if not a.terms or not b.terms:
        return Expr([])
    if a.rank != b.rank:
        raise refuse(ValueError, f"Shapes do not match: rank {a.rank} and {b.rank} in inner")
    if a.rank == 0:
        return a * b
    out = []
    for c1, f1 in a.terms:
        for c2, f2 in b.terms:
            t1 = [f for f in f1 if f.rank]
            t2 = [f for f in f2 if f.rank]
            if len(t1) != 1 or len(t2) != 1:
                raise Unsupported("inner of products of tensors")
            rest = tuple(f for f in f1 + f2 if not f.rank)
            c = c1 * c2
            if not _coef_zero(c):
                out.append((c, rest + (_Factor("dot", (t1[0], t2[0])),)))
    return Expr(out, 0)


def dot(a, b):
    a, b = as_expr(a), as_expr(b)
    if isinstance(a, Expr) and isinstance(b, Expr) and (a.rank > 1 or b.rank > 1):
        raise Unsupported("dot of tensors")
    return inner(a, b)


# -- measures and forms
class Form:
    __array_ufunc__ = None

    def __init__(self, integrals):
        self.integrals = integrals  # list of (Expr, measure name, quadrature degree or None)

    def __add__(self, o):
        if is_number(o) and o == 0:
            return self
        if not isinstance(o, Form):
            return NotImplemented
        return Form(self.integrals + o.integrals)

    def __radd__(self, o):
        if is_number(o) and o == 0:
            return self
        return NotImplemented

    def __neg__(self):
        return Form([(-e, m, q) for e, m, q in self.integrals])

    def __sub__(self, o):
        if not isinstance(o, Form):
            return NotImplemented
        return self + (-o)

    def __mul__(self, o):
        raise refuse(TypeError, "cannot multiply a form from the right")

    def __rmul__(self, c):
        if isinstance(c, (Sym,)) or is_number(c):
            return Form([(c * e, m, q) for e, m, q in self.integrals])
        return NotImplemented

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Form attribute {n}")


class Measure:
    def __init__(self, kind, domain=None, metadata=None, subdomain_id="everywhere",
                 subdomain_data=None):
        kind = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}.get(kind, kind)
        if kind not in ("dx", "ds", "dS"):
            raise Unsupported(f"measure {kind}")
        if subdomain_data is not None or subdomain_id not in ("everywhere",):
            raise Unsupported("subdomain measures")
        self.kind = kind
        self.domain = domain
        self.metadata = dict(metadata or {})

    def __call__(self, domain=None, metadata=None, degree=None, **kw):
        if kw:
            raise Unsupported("measure arguments")
        md = dict(self.metadata if metadata is None else metadata)
        if degree is not None:
            md["quadrature_degree"] = degree
        return Measure(self.kind, domain or self.domain, md)

    def __rmul__(self, e):
        e = as_expr(e)
        if e is NotImplemented:
            return e
        if isinstance(e, Vec) or e.rank:
            raise refuse(ValueError, "Can only integrate scalar expressions")
        return Form([(e, self.kind, self.metadata.get("quadrature_degree"))])


dx = Measure("dx")
ds = Measure("ds")
dS = Measure("dS")


# -- elements
class FiniteElement:
    def __init__(self, family, cell=None, degree=None):
        self.family, self.cell, self.deg = family, cell, degree

    def degree(self):
        return self.deg

    def blocks(self):
        return [[(self.family, self.deg)]]


class VectorElement:
    def __init__(self, family, cell=None, degree=None, dim=None):
        if isinstance(family, FiniteElement):
            family, cell, degree, dim = family.family, family.cell, family.deg, dim or cell
        if dim is None:
            raise Unsupported("VectorElement without dim")
        if not isinstance(dim, int):
            raise refuse(TypeError, "VectorElement dim must be an int")
        self.family, self.cell, self.deg, self.dim = family, cell, degree, dim

    def degree(self):
        return self.deg

    def block(self):
        return [(self.family, self.deg)] * self.dim


class MixedElement:
    def __init__(self, *els):
        if len(els) == 1 and isinstance(els[0], (list, tuple)):
            els = els[0]
        self.els = list(els)

    def sub_elements(self):
        return self.els


def _args(space, kind):
    return tuple(
        Vec([Expr.factor(_Factor(kind, (space, c))) for c in block])
        for block in space.block_components())


def TrialFunctions(space):
    return _args(space, "trial")


def TestFunctions(space):
    return _args(space, "test")


class _Whole:
    def __init__(self, parts):
        self.parts = parts


def TrialFunction(space):
    a = _args(space, "trial")
    if space.is_scalar():
        return a[0][0]
    return _Whole(a) if len(a) > 1 else a[0]


def TestFunction(space):
    a = _args(space, "test")
    if space.is_scalar():
        return a[0][0]
    return _Whole(a) if len(a) > 1 else a[0]


def split(x):
    if isinstance(x, _Whole):
        return x.parts
    if isinstance(x, Function_mixin):
        return tuple(x.ufl_parts())
    raise Unsupported("ufl.split")


# -- geometry and fields
def field(name, *params, rank=0):
    return Expr.factor(_Factor("field", (name, tuple(params)), (), rank))


def _mname(m):
    return getattr(m, "name", "mesh")


def SpatialCoordinate(msh):
    if getattr(ENV(), "spatial_point", None):
        return ENV().spatial_point
    return field(f"x@{_mname(msh)}", rank=1)


def FacetNormal(msh):
    return field(f"n@{_mname(msh)}", rank=1)


def CellDiameter(msh):
    return field(f"h@{_mname(msh)}")


Circumradius = None


class Constant:
    def __new__(cls, *a, **k):
        raise Unsupported("ufl.Constant")


def _mathfn(name, e):
    if isinstance(e, Function_mixin):
        e = e.as_ufl()
    if isinstance(e, Sym):
        if name in ("sin", "cos"):
            return ENV().uf(name, e)
        if name == "abs":
            return abs(e)
        if name == "sqrt":
            return ENV().sqrt(e)
        return ENV().uf(name, e)
    if is_number(e):
        return getattr(_math, {"abs": "fabs"}.get(name, name))(float(e))
    c = e._const()
    if c is not None:
        return _mathfn(name, c)
    return field(f"{name}({ekey(e)!r})")


def cos(e):
    return _mathfn("cos", e)


def sin(e):
    return _mathfn("sin", e)


def exp(e):
    return _mathfn("exp", e)


def sqrt(e):
    return _mathfn("sqrt", e)


def tanh(e):
    return _mathfn("tanh", e)


pi = _math.pi


class Condition:
    def __init__(self, key):
        self.key = key

    def __bool__(self):
        raise refuse(ValueError, "UFL conditions cannot be evaluated as bool in a Python context.")


def _ck(c):
    return c.key if isinstance(c, Condition) else c


def _has_symbool(*cs):
    return any(isinstance(c, (SymBool, bool)) for c in cs)


def And(a, b):
    if _has_symbool(a, b):
        return a & b
    return Condition(("and", _ck(a), _ck(b)))


def Or(a, b):
    if _has_symbool(a, b):
        return a | b
    return Condition(("or", _ck(a), _ck(b)))


def Not(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, SymBool):
        return ~a
    return Condition(("not", _ck(a)))


def _rel(op):
    def f(a, b):
        import operator

        return {"le": operator.le, "ge": operator.ge, "lt": operator.lt, "gt": operator.gt}[op](a, b)
    return f


le, ge, lt, gt = _rel("le"), _rel("ge"), _rel("lt"), _rel("gt")


def conditional(c, a, b):
    if isinstance(c, (SymBool, bool)):
        return a if c else b
    return field(f"cond({_ck(c)!r},{a!r},{b!r})")


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"ufl.{n}")


def make():
    m = _Mod("ufl")
    for n in ("grad div jump avg inner dot dx ds dS Measure FiniteElement VectorElement MixedElement "
              "TrialFunctions TestFunctions TrialFunction TestFunction split SpatialCoordinate "
              "FacetNormal CellDiameter cos sin exp sqrt tanh pi And Or Not conditional "
              "nabla_grad nabla_div le ge lt gt").split():
        setattr(m, n, globals()[n])
    m.__path__ = []
    m.Form = Form
    return m
