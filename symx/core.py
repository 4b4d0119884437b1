"""Symbolic values, path exploration and the bridge to z3.

A `Sym` is a multivariate Laurent polynomial with exact rational coefficients
over named atoms (real symbols, or applications of uninterpreted / interpreted
functions).  The real dxss code is run on `Sym` values; every branch on a
symbolic condition is decided (or forked) by z3 (class `Env`), and every
obligation is decided by z3 (class `Env.check_*`).

Floating point numbers met by the code are read as the exact rationals they
denote and arithmetic on them is exact (real) arithmetic: rounding is outside
of every claim.
"""
from __future__ import annotations

import hashlib
import importlib.machinery
import importlib.util
import math
import numbers
import random
import sys
import time
from fractions import Fraction

import numpy as _np

Z3_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.machinery.PathFinder.find_spec("z3", [Z3_DIR])
    if spec is None:
        raise ImportError("z3 not found in " + Z3_DIR)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load_z3()


class Unsupported(BaseException):
    """Something outside of what the encoding models: the check is inconclusive.

    A BaseException, so that the code under test cannot swallow it."""


class PathAbort(BaseException):
    """The current path is infeasible or over a bound."""


def refuse(exc, *args):
    """An error that the real back end raises too (not a gap of a stand-in)."""
    e = exc(*args)
    e._symx_refusal = True
    return e


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    if isinstance(x, float) or (isinstance(x, (_np.generic, _np.ndarray)) and x.shape == ()):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported(f"non-finite constant {f} in symbolic arithmetic")
        return Fraction(f)
    raise TypeError(type(x))


def is_number(x):
    if isinstance(x, (bool, int, float, Fraction)):
        return True
    if isinstance(x, numbers.Integral):
        return True
    return isinstance(x, (_np.generic, _np.ndarray)) and x.shape == () and x.dtype.kind in "iufb"


# --------------------------------------------------------------------------
# sympy numbers -> Sym (the quadrature tables contain sqrt(6) and the like)
def _is_sympy(x):
    m = type(x).__module__
    return m.startswith("sympy.")


def from_sympy(x):
    import sympy

    x = sympy.sympify(x)
    if x.is_Rational:
        return Sym.const(Fraction(int(x.p), int(x.q)))
    if x.is_Float:
        # exact value of the binary float
        return Sym.const(Fraction(float(x)))
    if x.is_Add:
        r = Sym.const(0)
        for a in x.args:
            r = r + from_sympy(a)
        return r
    if x.is_Mul:
        r = Sym.const(1)
        for a in x.args:
            r = r * from_sympy(a)
        return r
    if x.is_Pow:
        base, ex = x.args
        if ex.is_Integer:
            return from_sympy(base) ** int(ex)
        if ex.is_Rational and ex.q == 2:
            root = ENV().sqrt(from_sympy(base))
            return root ** int(ex.p)
    raise Unsupported(f"sympy expression {x!r}")


def lift(x):
    """number | Sym -> Sym, or NotImplemented"""
    if isinstance(x, Sym):
        return x
    if is_number(x):
        return Sym.const(frac(x))
    if _is_sympy(x):
        return from_sympy(x)
    return NotImplemented


class Atom:
    __slots__ = ("id", "name", "fn", "args", "_z3")

    def __init__(self, id_, name, fn=None, args=None):
        self.id, self.name, self.fn, self.args, self._z3 = id_, name, fn, args, None


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


_ENV = []


def ENV() -> "Env":
    if not _ENV:
        raise Unsupported("symbolic value used outside of an environment")
    return _ENV[-1]


class Sym:
    """Laurent polynomial over atoms; p: dict monomial -> Fraction."""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({(): c} if c else {})

    # -- structure
    @property
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def constant(self):
        return self.p.get((), Fraction(0))

    def key(self):
        return tuple(sorted(self.p.items()))

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if len(o.p) > len(self.p):
            self, o = o, self
        r = dict(self.p)
        for m, c in o.p.items():
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n:
                    r[m] = n
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        r = {}
        for m1, c1 in self.p.items():
            for m2, c2 in o.p.items():
                m = mono_mul(m1, m2)
                n = r.get(m)
                c = c1 * c2
                if n is None:
                    r[m] = c
                else:
                    n = n + c
                    if n:
                        r[m] = n
                    else:
                        del r[m]
        return ENV().reduce(Sym(r))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return ENV().divide(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return ENV().divide(o, self)

    def __pow__(self, n):
        if isinstance(n, Sym) and n.is_const:
            n = n.constant()
        if is_number(n):
            f = frac(n)
            if f.denominator == 1:
                n = int(f)
                if n < 0:
                    return 1 / (self ** (-n))
                r = Sym.const(1)
                b = self
                while n:
                    if n & 1:
                        r = r * b
                    b = b * b
                    n >>= 1
                return r
            if f == Fraction(1, 2):
                return ENV().sqrt(self)
        raise Unsupported(f"power {n!r}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic value")

    __rfloordiv__ = __floordiv__
    __mod__ = __rmod__ = __divmod__ = __floordiv__

    def __abs__(self):
        return ENV().abs(self)

    def sqrt(self):
        return ENV().sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    # numpy calls these methods for ufuncs on object arrays
    def cos(self):
        return ENV().uf("cos", self)

    def sin(self):
        return ENV().uf("sin", self)

    def absolute(self):
        return abs(self)

    def square(self):
        return self * self

    # -- comparisons
    def _cmp(self, o, op):
        o2 = lift(o)
        if o2 is NotImplemented:
            if op in ("==", "!="):
                return op == "!="
            return NotImplemented
        return SymBool.cmp(self - o2, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def _sympy_(self):
        import sympy

        raise sympy.SympifyError("symbolic value")

    def __float__(self):
        if self.is_const:
            return float(self.constant())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const:
            return int(self.constant())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const and self.constant().denominator == 1:
            return int(self.constant())
        raise Unsupported("index with a symbolic value")

    def __round__(self, n=None):
        return ENV().rounded(self, n or 0)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return ENV().show(self) if _ENV else f"Sym({self.p})"


class Float(Sym):
    """A number of double precision: sums, and products and quotients with numbers, are rounded.

    Every rounded operation is an unknown real number next to the exact result (relative distance at
    most 2**-53; the same operation gives the same number); products of two unknowns stay exact.
    """

    __slots__ = ()

    @staticmethod
    def of(s):
        return Float(s.p)

    def _rounded(self, op, e, *args):
        env = ENV()
        if e.is_const:
            return e
        a = env._atom(("uf", "fl:" + op) + tuple(args), f"fl({op})", "fl:" + op, (e,))
        if all(c > 0 and all(v in env.pos_atoms for v, _ in m) for m, c in e.p.items()):
            env.pos_atoms.add(a.id)
        return Float({((a.id, 1),): Fraction(1)})

    def _linear(self, o, op, e):
        o2 = lift(o)
        if o2 is NotImplemented:
            return o2
        if isinstance(o2, Sym) and not isinstance(o2, Float) and not o2.is_const:
            return getattr(Sym, e)(self, o2)
        r = getattr(Sym, e)(self, o2)
        if r.key() == self.key() or r.key() == o2.key() or not r.p:
            return Float.of(r)
        a, b = self.key(), o2.key()
        if op == "+" and b < a:
            a, b = b, a
        return self._rounded(op, Sym(r.p), a, b)

    def __add__(self, o):
        return self._linear(o, "+", "__add__")

    __radd__ = __add__

    def __sub__(self, o):
        return self._linear(o, "-", "__sub__")

    def __rsub__(self, o):
        r = self._linear(o, "-", "__sub__")
        return r if r is NotImplemented else -r

    def __neg__(self):
        return Float(Sym.__neg__(self).p)

    def _scale(self, o, op, e):
        o2 = lift(o)
        if o2 is NotImplemented:
            return o2
        if not o2.is_const:
            return getattr(Sym, e)(self, o2)
        r = getattr(Sym, e)(self, o2)
        c = abs(o2.constant())
        if c == 0 or c.numerator & (c.numerator - 1) == 0 and c.denominator & (c.denominator - 1) == 0:
            return Float.of(r)      # powers of two
        return self._rounded(op, Sym(r.p), self.key(), o2.key())

    def __mul__(self, o):
        return self._scale(o, "*", "__mul__")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._scale(o, "/", "__truediv__")

    def _cmp(self, o, op):
        o2 = lift(o)
        if o2 is NotImplemented:
            return Sym._cmp(self, o, op)
        return SymBool.cmp(Sym.__sub__(self, o2), op)

    def __hash__(self):
        return hash(self.key())


class SymBool:
    """A z3 Boolean; bool() forks the path."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def cmp(d: Sym, op):
        if d.is_const:
            c = d.constant()
            return {
                "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0,
            }[op]
        env = ENV()
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if all(v in env.pos_atoms or k % 2 == 0 and k > 0 and op in (">=", "<") for v, k in m):
                # a product of positive numbers (or of squares)
                if all(v in env.pos_atoms for v, k in m) or c > 0:
                    return {"<": c < 0, "<=": c < 0, ">": c > 0, ">=": c > 0, "==": False,
                            "!=": True}[op]
        z = env.to_z3(d)
        return SymBool({
            "<": lambda: z < 0, "<=": lambda: z <= 0, ">": lambda: z > 0,
            ">=": lambda: z >= 0, "==": lambda: z == 0, "!=": lambda: z != 0,
        }[op]())

    def __bool__(self):
        return ENV().branch(self.e)

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __and__(self, o):
        return SymBool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    # Booleans are summed / multiplied by some code: `sum(mask)` forks.
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return (1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return SymBool(self.e == bexpr(o))

    def __ne__(self, o):
        return SymBool(self.e != bexpr(o))

    def __hash__(self):
        return hash(self.e)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def as_cond(c):
    return c if isinstance(c, SymBool) else bool(c)


# --------------------------------------------------------------------------
def _h(name):
    return int.from_bytes(hashlib.sha256(name.encode()).digest()[:8], "big")


class NumericUF:
    """Fixed smooth interpretation of an uninterpreted function, for replays."""

    def __init__(self, name, n):
        r = random.Random(_h(name))
        self.c0 = Fraction(r.randint(-8, 8), 8)
        self.c = [[Fraction(r.randint(-8, 8), 8) for _ in range(3)] for _ in range(n)]

    def __call__(self, *args):
        v = self.c0
        for cs, a in zip(self.c, args):
            v = v + a * (cs[0] + a * (cs[1] + a * cs[2]))
        return v


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.paths = 0
        self.obligations = 0
        self.reach = 0
        self.max_terms = 0


class Failure:
    def __init__(self, label, detail, assignment, cfg):
        self.label, self.detail, self.assignment, self.cfg = label, detail, assignment, cfg


class Env:
    """One symbolic (or numeric) execution of a harness along one path."""

    TIMEOUT_MS = 20000

    def __init__(self, stats, mode="sym", prefix=(), assignment=None, cfg=None, seed=1,
                 max_decisions=400):
        self.stats = stats
        self.mode = mode
        self.opaque = False     # roots, maxima and reciprocals of sums as arbitrary numbers
        self.prefix = list(prefix)
        self.decisions = []  # (taken, other_feasible)
        self.assignment = dict(assignment or {})
        self.used = {}
        self.cfg = cfg
        self.seed = seed
        self.atoms = []
        self.by_key = {}
        self.bounds = {}
        self.usual = {}
        self.within = {}      # name -> name of an input that bounds it (for random points)
        self.pos_atoms = set()
        self.rules = {}
        self.assumptions = []  # z3
        self.facts = []  # polynomials known to be zero (stub contracts)
        self.pc = []
        self.failures = []
        self.inconclusive = []
        self.labels = []
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set("timeout", self.TIMEOUT_MS)
        self._ufs = {}
        self._nuf = {}
        self._near = {}
        self.user_assumptions = []
        self.events = []
        self._decided = {}
        self._open = 0

    # -- context
    def __enter__(self):
        _ENV.append(self)
        return self

    def __exit__(self, *a):
        _ENV.pop()
        return False

    # -- values
    def real(self, name, lo=None, hi=None, pos=False, usual=None):
        """A real input; lo/hi/pos are assumptions (inclusive bounds).

        `usual`: upper bound for the numbers picked at random in concrete runs.
        """
        if usual is not None:
            self.usual[name] = usual
        if self.mode == "num":
            if name not in self.assignment:
                self.assignment[name] = self.random_value(name, lo, hi, pos)
            v = self.assignment[name]
            self.used[name] = v
            return float(v)
        k = ("real", name)
        if k in self.by_key:
            return Sym({((self.by_key[k].id, 1),): Fraction(1)})
        a = self._atom(k, name)
        self.bounds[name] = (lo, hi, pos)
        z = self.z3_atom(a)
        if pos:
            self.pos_atoms.add(a.id)
            self.assume_z3(z > 0)
        if lo is not None:
            self.assume_z3(z >= self.zval(lo))
        if hi is not None:
            self.assume_z3(z <= self.zval(hi))
        return Sym({((a.id, 1),): Fraction(1)})

    def random_value(self, name, lo=None, hi=None, pos=False, salt=0):
        r = random.Random(_h(f"{self.seed}:{salt}:{name}"))
        a = Fraction(-2) if lo is None else Fraction(lo)
        b = Fraction(2) if hi is None else Fraction(hi)
        if name in self.usual:
            b = min(b, Fraction(self.usual[name]))
        if pos and a <= 0:
            a = Fraction(1, 4)
            b = max(b, Fraction(1))
        return a + (b - a) * Fraction(r.randint(1, 127), 128)

    def reals(self, name, n, **kw):
        import numpy as np

        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real(f"{name}[{i}]", **kw)
        if self.mode == "num":
            return out.astype(float)
        return out

    def integer(self, name, lo, hi):
        """A symbolic integer (used for enum-like stub results)."""
        if self.mode == "num":
            if name not in self.assignment:
                r = random.Random(_h(f"{self.seed}:{name}"))
                self.assignment[name] = Fraction(r.randint(lo, hi))
            self.used[name] = self.assignment[name]
            return int(self.assignment[name])
        k = ("real", name)
        new = k not in self.by_key
        a = self._atom(k, name)
        if new:
            self.bounds[name] = (lo, hi, False)
            z = self.z3_atom(a)
            self.assume_z3(z3.And(z >= lo, z <= hi, z3.IsInt(z)))
        return Sym({((a.id, 1),): Fraction(1)})

    def boolean(self, name):
        return self.integer(name, 0, 1) == 1

    def _atom(self, key, name, fn=None, args=None):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), name, fn, args)
            self.atoms.append(a)
            self.by_key[key] = a
        return a

    def uf(self, fn, *args):
        """Application of a function symbol.  cos/sin/sqrt/abs are interpreted in replays."""
        if self.mode == "num":
            return self.num_uf(fn, [float(a) for a in args])
        args = tuple(lift(a) for a in args)
        if any(a is NotImplemented for a in args):
            raise Unsupported(f"argument of {fn}")
        if fn in ("cos", "sin") and args[0].is_const:
            # multiples of pi/2, as close as a float can be
            c = float(args[0].constant())
            n = round(c / (math.pi / 2))
            if abs(c - n * (math.pi / 2)) <= 1e-14 * max(1.0, abs(c)):
                return Sym.const(((1, 0, -1, 0) if fn == "cos" else (0, 1, 0, -1))[n % 4])
        k = ("uf", fn, tuple(a.key() for a in args))
        a = self.by_key.get(k)
        if a is None:
            # arguments that agree up to rounding (the code computes constants in floating
            # point) denote the same application
            ns = self._near_keys(fn, args)
            for n in ns:
                for b in self._near.get(n, ()):
                    if all(_close(x, y) for x, y in zip(args, b.args)):
                        self.by_key[k] = b
                        return Sym({((b.id, 1),): Fraction(1)})
            a = self._atom(k, f"{fn}(..)", fn, args)
            for n in ns:
                self._near.setdefault(n, []).append(a)
        return Sym({((a.id, 1),): Fraction(1)})

    @staticmethod
    def _near_keys(fn, args):
        """Two hash keys, at least one of which is shared by arguments that nearly agree."""
        w = [sum(c for c in x.p.values()) for x in args]
        t = float(sum((k + 1) * c for k, c in enumerate(w))) * 1e9
        return ((fn, len(args), 0, math.floor(t)), (fn, len(args), 1, math.floor(t + 0.5)))

    def num_uf(self, fn, args):
        if fn == "cos":
            return math.cos(args[0])
        if fn == "sin":
            return math.sin(args[0])
        if fn == "sqrt":
            return math.sqrt(args[0])
        if fn == "abs":
            return abs(args[0])
        if fn == "max":
            return max(args)
        if fn == "round":
            return round(args[0], int(args[1]))
        f = self._nuf.get((fn, len(args)))
        if f is None:
            f = self._nuf[(fn, len(args))] = NumericUF(fn, len(args))
        return float(f(*[Fraction(a) for a in args]))

    def sqrt(self, x):
        if self.mode == "num":
            return math.sqrt(x)
        x = lift(x)
        if x.is_const:
            c = x.constant()
            if c < 0:
                raise refuse(ValueError, "math domain error")
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return Sym.const(Fraction(rn, rd))
        k = ("uf", "sqrt", (x.key(),))
        new = k not in self.by_key
        a = self._atom(k, "sqrt(..)", "sqrt", (x,))
        if new and not self.opaque:
            z = self.z3_atom(a)
            # (leaving out a long defining equation only weakens what is known)
            self.assume_z3(z >= 0 if len(x.p) > 24 else z3.And(z >= 0, z * z == self.to_z3(x)))
            self.rules[a.id] = x
        return Sym({((a.id, 1),): Fraction(1)})

    def abs(self, x):
        if self.mode == "num":
            return abs(x)
        x = lift(x)
        if x.is_const:
            return Sym.const(abs(x.constant()))
        lead = min(x.p)  # canonical sign
        if x.p[lead] < 0:
            x = -x
        k = ("uf", "abs", (x.key(),))
        new = k not in self.by_key
        a = self._atom(k, "abs(..)", "abs", (x,))
        if new:
            z = self.z3_atom(a)
            zx = self.to_z3(x) if len(x.p) <= 24 else None
            self.assume_z3(z >= 0 if len(x.p) > 24 else z == z3.If(zx >= 0, zx, -zx))
        return Sym({((a.id, 1),): Fraction(1)})

    def rounded(self, x, n):
        """The multiple of 10**-n nearest to x."""
        x = lift(x)
        if self.mode == "num" or x.is_const:
            return round(float(x.constant()) if self.mode == "sym" else float(x), n)
        k = ("uf", "round", n, (x.key(),))
        new = k not in self.by_key
        a = self._atom(k, "round(..)", "round", (x, Sym.const(n)))
        if new:
            z, zx, ten = self.z3_atom(a), self.to_z3(x), self.zval(Fraction(10) ** n)
            i = z3.Int(f"round#{a.id}")
            half = self.zval(Fraction(1, 2))
            self.assume_z3(z3.And(z * ten == z3.ToReal(i), zx * ten - z3.ToReal(i) <= half,
                                  z3.ToReal(i) - zx * ten <= half))
        return Sym({((a.id, 1),): Fraction(1)})

    def maximum(self, xs):
        xs = list(xs)
        if not xs:
            raise refuse(ValueError, "max() iterable argument is empty")
        if self.mode == "num" or all(not isinstance(x, Sym) for x in xs):
            return max(xs)
        ls = []
        for x in xs:
            s = lift(x)
            if s is NotImplemented:
                return max(xs)
            if not any(s.key() == t.key() for t in ls):
                ls.append(s)
        if len(ls) == 1:
            return ls[0]
        ls.sort(key=lambda s: s.key())
        k = ("uf", "max", tuple(s.key() for s in ls))
        new = k not in self.by_key
        a = self._atom(k, "max(..)", "max", tuple(ls))
        if new and not self.opaque and sum(len(s.p) for s in ls) <= 60:
            z = self.z3_atom(a)
            zs = [self.to_z3(s) for s in ls]
            self.assume_z3(z3.And(*[z >= q for q in zs], z3.Or(*[z == q for q in zs])))
        return Sym({((a.id, 1),): Fraction(1)})

    def reduce(self, s):
        """sqrt(c)**2 -> c, for every atom with such a rule."""
        if not self.rules or self.mode == "num":
            return s
        todo = False
        for m in s.p:
            for (v, e) in m:
                if v in self.rules and (e >= 2 or e <= -1):
                    todo = True
                    break
        if not todo:
            return s
        out = Sym({})
        for m, c in s.p.items():
            rest = []
            extra = Sym.const(1)
            for (v, e) in m:
                if v in self.rules and (e >= 2 or e <= -1):
                    x = self.rules[v]
                    if e < 0:
                        if not x.is_const or x.constant() == 0:
                            rest.append((v, e))
                            continue
                        k = (-e + 1) // 2
                        extra = extra * Sym.const(1 / x.constant() ** k)
                        e = e + 2 * k
                        if e:
                            rest.append((v, e))
                        continue
                    h, r = divmod(e, 2)
                    extra = extra * (x ** h)
                    if r:
                        rest.append((v, 1))
                else:
                    rest.append((v, e))
            base = Sym({tuple(rest): c})
            for m2, c2 in extra.p.items():
                out = out + Sym({mono_mul(tuple(rest), m2): c * c2})
            del base
        return out

    def divide(self, a, b):
        if not b.p:
            raise refuse(ZeroDivisionError, "division by zero")
        if b.is_const:
            c = b.constant()
            return Sym({m: v / c for m, v in a.p.items()})
        if len(b.p) == 1:
            (m, c), = b.p.items()
            for (v, e) in m:
                if e > 0 and v not in self.pos_atoms:
                    if self.branch(self.z3_atom(self.atoms[v]) == 0):
                        raise refuse(ZeroDivisionError, "division by zero")
            inv = tuple((v, -e) for v, e in m)
            return self.reduce(Sym({mono_mul(k, inv): v / c for k, v in a.p.items()}))
        if self.branch(self.to_z3(b) == 0):
            raise refuse(ZeroDivisionError, "division by zero")
        # normalise: leading coefficient of the denominator 1
        lead = min(b.p)
        lc = b.p[lead]
        bn = Sym({m: c / lc for m, c in b.p.items()})
        k = ("inv", bn.key())
        new = k not in self.by_key
        at = self._atom(k, "inv(..)", "inv", (bn,))
        if new and not self.opaque:
            self.assume_z3(self.z3_atom(at) * self.to_z3(bn) == 1)
        q = Sym({((at.id, 1),): 1 / lc})
        # exact polynomial division when the numerator is a multiple
        ex = _exact_div(a, b)
        if ex is not None:
            return ex
        return a * q

    # -- z3
    def zval(self, c):
        c = frac(c)
        return z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(
            c.numerator)

    def z3_atom(self, a: Atom):
        if a._z3 is None:
            if a.fn is None or a.fn in ("sqrt", "abs", "max", "inv", "solve", "round") or a.fn.startswith("fl:"):
                a._z3 = z3.Real(f"{a.name}#{a.id}")
                if a.fn and a.fn.startswith("fl:"):
                    # (known as soon as something depends on it)
                    x, u = self.to_z3(a.args[0]), Fraction(1, 2 ** 53)
                    lo, hi = x * self.zval(1 - u), x * self.zval(1 + u)
                    self.assume_z3(
                        z3.And(a._z3 >= lo, a._z3 <= hi) if a.id in self.pos_atoms else
                        z3.If(x >= 0, z3.And(a._z3 >= lo, a._z3 <= hi), z3.And(a._z3 <= lo, a._z3 >= hi)))
            else:
                f = self._ufs.get((a.fn, len(a.args)))
                if f is None:
                    f = self._ufs[(a.fn, len(a.args))] = z3.Function(
                        a.fn, *([z3.RealSort()] * (len(a.args) + 1)))
                a._z3 = f(*[self.to_z3(x) for x in a.args])
        return a._z3

    def to_z3(self, s):
        s = lift(s)
        if s is NotImplemented:
            raise Unsupported("value in a solver term")
        terms = []
        for m, c in s.p.items():
            fs = []
            ds = []
            for v, e in m:
                z = self.z3_atom(self.atoms[v])
                if e > 0:
                    fs.extend([z] * e)
                else:
                    ds.extend([z] * -e)
            t = self.zval(c)
            if fs:
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                t = p if c == 1 else t * p
            for d in ds:
                t = t / d
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def assume_z3(self, e):
        self.assumptions.append(e)
        self.solver.add(e)

    def assume(self, cond):
        cond = as_cond(cond)
        if self.mode == "num":
            if not cond:
                raise PathAbort("assumption false in replay")
            return
        if isinstance(cond, SymBool):
            self.user_assumptions.append(cond.e)
            self.assume_z3(cond.e)
        elif not cond:
            raise PathAbort("assumption false")

    def fact_zero(self, s):
        """A stub contract: this polynomial is zero."""
        if self.mode == "num":
            return
        s = lift(s)
        if s.p:
            self.facts.append(s)

    # -- branching
    def _check(self, *extra, timeout=None):
        t0 = time.time()
        self.solver.set("timeout", timeout or self.TIMEOUT_MS)
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def branch(self, e):
        k = e.get_id()
        if k in self._decided:
            return self._decided[k][0]
        d = self._branch(e)
        self._decided[k] = (d, e)
        n = z3.simplify(z3.Not(e))
        self._decided[n.get_id()] = (not d, n)
        return d

    def _branch(self, e):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append((d, False))
            self.solver.add(e if d else z3.Not(e))
            self.pc.append(e if d else z3.Not(e))
            return d
        if self._open >= self.max_decisions or i >= 20 * self.max_decisions:
            raise Unsupported("too many symbolic branches on one path")
        self.stats.branch_queries += 2
        can_t = self._check(e) != z3.unsat
        can_f = self._check(z3.Not(e)) != z3.unsat
        if not can_t and not can_f:
            raise PathAbort("infeasible")
        d = can_t
        self._open += can_t and can_f
        self.decisions.append((d, can_t and can_f))
        self.solver.add(e if d else z3.Not(e))
        self.pc.append(e if d else z3.Not(e))
        return d

    # -- obligations
    def monomials(self, *polys):
        ms = set()
        for p in polys:
            ms.update(p.p)
        return ms

    def check_eq_all(self, label, lhs, rhs, tol=Fraction(1, 10**9), scale=None):
        """For all inputs: |lhs[i] - rhs[i]| <= tol, monomials in [-1, 1] (see DESIGN)."""
        pairs = [(lift(a), lift(b)) for a, b in zip(list(lhs), list(rhs), strict=True)] \
            if self.mode == "sym" else list(zip(list(lhs), list(rhs), strict=True))
        self.stats.obligations += len(pairs)
        self.labels.append(label)
        if self.mode == "num":
            sc = max([1.0] + [abs(float(b)) for _, b in pairs])
            for i, (a, b) in enumerate(pairs):
                d = abs(float(a) - float(b))
                if not d <= float(tol) * sc * 4 + 1e-9 * sc:
                    self.failures.append(Failure(
                        label, f"entry {i}: got {float(a)!r}, expected {float(b)!r}", None, self.cfg))
                    return False
            return True
        if any(a is NotImplemented or b is NotImplemented for a, b in pairs):
            raise Unsupported(f"{label}: value outside of the arithmetic model")
        tol = frac(tol)
        t0 = time.time()
        # monomial abstraction: every monomial is an independent unknown in [-1, 1]
        s = z3.Solver()
        s.set("timeout", self.TIMEOUT_MS * 3)
        mv = {}

        def lin(p):
            ts = []
            for m, c in p.p.items():
                if m == ():
                    ts.append(self.zval(c))
                    continue
                v = mv.get(m)
                if v is None:
                    v = mv[m] = z3.Real(f"m{len(mv)}")
                ts.append(self.zval(c) * v)
            return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

        ors = []
        eps = self.zval(tol)
        for a, b in pairs:
            d = lin(a) - lin(b)
            ors.append(z3.Or(d > eps, d < -eps))
            self.stats.max_terms = max(self.stats.max_terms, len(a.p) + len(b.p))
        for f in self.facts:
            s.add(lin(f) == 0)
        for v in mv.values():
            s.add(v >= -1, v <= 1)
        # one query per entry when small, one disjunctive query otherwise
        s.add(z3.Or(*ors))
        r = s.check()
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
            return True
        if r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        # find a concrete witness over the real atoms
        diffs = [a - b for a, b in pairs]
        return self._witness_eq(label, diffs, tol)

    def _witness_eq(self, label, diffs, tol):
        worst = max(range(len(diffs)), key=lambda i: max(
            [abs(c) for c in diffs[i].p.values()], default=Fraction(0)))
        order = [worst] + [i for i in range(len(diffs)) if i != worst]
        # the full (non-linear) query on the worst entry, under the path condition
        d = self.to_z3(diffs[worst])
        box = []
        for a in self.atoms:
            if a.fn is None:
                z = self.z3_atom(a)
                box.append(z3.And(z >= -4, z <= 4))
        if not self.facts:
            # a clear difference is a better witness than a small one
            for least in (Fraction(1, 4), Fraction(1, 10**6)):
                big = self.zval(max(tol * 64, least))
                r = self._check(z3.And(z3.Or(d > big, d < -big), *box), timeout=8000)
                if r == z3.sat:
                    break
            if r == z3.sat:
                asg = self.model_assignment()
                if asg is not None:
                    self.failures.append(Failure(
                        label, f"solver counterexample at entry {worst}", asg, self.cfg))
                    return False
            if r == z3.unsat and len(diffs) == 1:
                # holds under the path condition: try the exact tolerance
                e = self.zval(tol)
                if self._check(z3.And(z3.Or(d > e, d < -e), *box), timeout=20000) == z3.unsat:
                    return True
        # the abstraction found a real coefficient difference; pick values for the atoms
        for salt in range(24):
            asg = {}
            for a in self.atoms:
                if a.fn is None:
                    lo, hi, pos = self.bounds.get(a.name, (None, None, False))
                    asg[a.name] = self.random_value(a.name, lo, hi, pos, salt=salt + 1)
            if not self.assignment_ok(asg):
                continue
            for i in order[:64]:
                try:
                    v = self.evaluate(diffs[i], asg)
                except Exception:
                    continue
                if abs(v) > max(float(tol) * 16, 1e-7) or self.facts:
                    self.failures.append(Failure(
                        label, f"counterexample at entry {i}", asg, self.cfg))
                    return False
        self.inconclusive.append(f"{label}: not proved, and no concrete witness found")
        return False

    def assignment_ok(self, asg):
        if not self.pc and not self.assumptions:
            return True
        eqs = [self.z3_atom(a) == self.zval(asg[a.name]) for a in self.atoms
               if a.fn is None and a.name in asg]
        # rounded numbers: the case that nothing was rounded
        known = {a.id: frac(asg[a.name]) for a in self.atoms if a.fn is None and a.name in asg}
        for a in self.atoms:
            if a.fn and a.fn.startswith("fl:") and all(i in known for m in a.args[0].p for i, _ in m):
                known[a.id] = sum(c * math.prod(known[i] ** n for i, n in m)
                                  for m, c in a.args[0].p.items())
                eqs.append(self.z3_atom(a) == self.zval(known[a.id]))
        return self._check(*eqs, timeout=4000) == z3.sat

    def model_assignment(self):
        m = self.solver.model()
        asg = {}
        for a in self.atoms:
            if a.fn is None:
                v = m.eval(self.z3_atom(a), model_completion=True)
                asg[a.name] = z3_to_frac(v)
        return asg

    def evaluate(self, s, asg):
        cache = {}

        def atom_val(i):
            if i in cache:
                return cache[i]
            a = self.atoms[i]
            if a.fn is None:
                v = float(asg[a.name])
            elif a.fn == "inv":
                v = 1.0 / poly_val(a.args[0])
            elif a.fn.startswith("fl:"):
                v = poly_val(a.args[0])
            else:
                v = self.num_uf(a.fn, [poly_val(x) for x in a.args])
            cache[i] = v
            return v

        def poly_val(p):
            t = 0.0
            for m, c in p.p.items():
                x = float(c)
                for v, e in m:
                    x *= atom_val(v) ** e
                t += x
            return t

        return poly_val(lift(s))

    def check_eq(self, label, lhs, rhs, tol=Fraction(1, 10**9)):
        return self.check_eq_all(label, [lhs], [rhs], tol)

    def check_same(self, label, lhs, rhs):
        """For all inputs: lhs[i] and rhs[i] are the same numbers, without any tolerance."""
        ok = True
        for i, (a, b) in enumerate(zip(list(lhs), list(rhs), strict=True)):
            if self.mode == "num":
                c = float(a) == float(b)
            else:
                c = lift(a) == lift(b)
            if not self.check(label, c):
                ok = False
                break
        return ok

    def check(self, label, cond, timeout=None):
        """For all inputs on this path: cond."""
        cond = as_cond(cond)
        self.stats.obligations += 1
        self.labels.append(label)
        if self.mode == "num" or not isinstance(cond, SymBool):
            if not cond:
                asg = None
                if self.mode == "sym":
                    if self._check() == z3.sat:
                        asg = self.model_assignment()
                    else:
                        asg = {}
                self.failures.append(Failure(label, "condition is false", asg, self.cfg))
                return False
            if self.mode == "sym":
                # still ask the solver, so that every obligation has a verdict
                self._check(z3.BoolVal(False))
            return True
        r = self._check(z3.Not(cond.e), timeout=timeout)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.failures.append(Failure(label, "solver counterexample",
                                         self.model_assignment(), self.cfg))
        else:
            self.inconclusive.append(f"{label}: solver answered unknown")
        return False

    def check_all(self, label, conds):
        ok = True
        for i, c in enumerate(conds):
            ok = self.check(label, c) and ok
        return ok

    def fail(self, label, detail):
        """The path itself is the violation (crash, missing effect)."""
        self.labels.append(label)
        self.stats.obligations += 1
        asg = {}
        if self.mode == "sym":
            r = self._check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                asg = self.model_assignment()
        self.failures.append(Failure(label, detail, asg, self.cfg))
        return False

    def reach(self, label="end"):
        """Vacuity guard: the path condition and assumptions are satisfiable here."""
        if self.mode == "num":
            self.stats.reach += 1
            return
        if not self.pc and not self.user_assumptions:
            # nothing but ranges of inputs (non-empty by construction) and definitions of
            # total functions has been assumed on this path
            self.stats.reach += 1
            return
        r = self._check(timeout=2000)
        if r == z3.unknown:
            # look for a concrete point first, then give the solver its full time
            for salt in range(96):
                asg = {a.name: self.random_value(a.name, *self.bounds.get(
                    a.name, (None, None, False)), salt=salt + 100)
                    for a in self.atoms if a.fn is None}
                for name, other in self.within.items():
                    if name in asg:
                        asg[name] = asg[other] * self.random_value(name + "/", 0, 1, salt=salt)
                if self.assignment_ok(asg):
                    self.stats.reach += 1
                    return
            r = self._check()
        if r == z3.sat:
            self.stats.reach += 1
        elif r == z3.unsat:
            raise PathAbort("vacuous")
        else:
            self.inconclusive.append(f"{label}: reachability not established")

    def show(self, s):
        ts = []
        for m, c in sorted(s.p.items())[:6]:
            ts.append("*".join([str(c)] + [self.atoms[v].name + (f"^{e}" if e != 1 else "")
                                           for v, e in m]))
        return " + ".join(ts) + (" + ..." if len(s.p) > 6 else "") if ts else "0"


def _close(a: Sym, b: Sym):
    d = (a - b).p
    if not d:
        return True
    big = max([abs(c) for c in a.p.values()] + [1])
    return max(abs(c) for c in d.values()) <= big * Fraction(1, 10**12)


def _exact_div(a: Sym, b: Sym):
    """a / b when a is a constant multiple of b, else None."""
    if len(a.p) != len(b.p) or not a.p:
        return None
    ratio = None
    for m, c in a.p.items():
        d = b.p.get(m)
        if d is None:
            return None
        q = c / d
        if ratio is None:
            ratio = q
        elif ratio != q:
            return None
    return Sym.const(ratio)


def z3_to_frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise Unsupported(f"model value {v}")


# --------------------------------------------------------------------------
def diff(s: Sym, var: Sym):
    """d s / d var for a real symbol var (chain rule through sin/cos and inv)."""
    env = ENV()
    (mv, _), = var.p.items()
    vid = mv[0][0]

    def datom(i):
        a = env.atoms[i]
        if i == vid:
            return Sym.const(1)
        if a.fn is None:
            return Sym.const(0)
        if a.fn == "sin":
            return env.uf("cos", a.args[0]) * diff(a.args[0], var)
        if a.fn == "cos":
            return -env.uf("sin", a.args[0]) * diff(a.args[0], var)
        if a.fn == "inv":
            me = Sym({((i, 1),): Fraction(1)})
            return -(me * me) * diff(a.args[0], var)
        if a.fn == "sqrt" and all(not diff(x, var).p for x in a.args):
            return Sym.const(0)
        raise Unsupported(f"derivative of {a.fn}")

    out = Sym({})
    for m, c in s.p.items():
        for j, (v, e) in enumerate(m):
            d = datom(v)
            if not d.p:
                continue
            rest = list(m)
            if e == 1:
                del rest[j]
            else:
                rest[j] = (v, e - 1)
            out = out + Sym({tuple(rest): c * e}) * d
    return out


SIGNATURE = ("unexpected keyword argument", "positional argument", "required positional",
             "multiple values for argument", "keyword-only argument")


def classify(exc, repo_src, own):
    """'crash' (behaviour of the code under test), 'gap' (of a stand-in) or 'harness'."""
    import re
    import traceback

    frames = traceback.extract_tb(exc.__traceback__)
    repo = [i for i, f in enumerate(frames) if f.filename.startswith(repo_src)]
    if not repo:
        return "harness"
    last = frames[-1]
    msg = str(exc)
    if getattr(exc, "_symx_refusal", False):
        return "crash"
    if last.filename.startswith(own) and "/symx/" in last.filename:
        # a stand-in calling back into harness-provided callables is the harness' problem
        return "gap"
    if last.filename.startswith(own):
        return "harness"
    if isinstance(exc, TypeError) and any(t in msg for t in SIGNATURE):
        name = re.split(r"[.( ]", msg.split("(")[0].strip())[-1] or ""
        full = msg.split("(")[0].strip()
        for fn in repo_functions(repo_src):
            if fn == full or fn.split(".")[-1] == name and full.split(".")[0] == fn.split(".")[0]:
                return "crash"
        return "gap"
    if "no callable" in msg and "method" in msg and isinstance(exc, TypeError):
        return "gap"
    if isinstance(exc, TypeError) and ("not supported for the input types" in msg
                                       or "Cannot cast" in msg or "object arrays" in msg
                                       or "dtype('O')" in msg):
        return "gap"
    if isinstance(exc, (ImportError,)) and not isinstance(exc, ModuleNotFoundError):
        return "gap"
    return "crash"


_repo_fns = {}


def repo_functions(repo_src):
    if repo_src not in _repo_fns:
        import ast
        import glob
        import os

        names = set()

        def walk(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(pre + c.name)
                    walk(c, pre + c.name + ".<locals>.")
                elif isinstance(c, ast.ClassDef):
                    names.add(pre + c.name)
                    names.add(pre + c.name + ".__init__")
                    walk(c, pre + c.name + ".")
                else:
                    walk(c, pre)

        for f in glob.glob(os.path.join(repo_src, "**", "*.py"), recursive=True):
            try:
                walk(ast.parse(open(f).read()), "")
            except SyntaxError:
                pass
        _repo_fns[repo_src] = names
    return _repo_fns[repo_src]


def describe(exc, repo_src):
    import traceback

    fr = [f for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(repo_src)]
    at = f" at {fr[-1].filename.rsplit('/', 1)[-1]}:{fr[-1].lineno} in {fr[-1].name}" if fr else ""
    return f"{type(exc).__name__}: {exc}{at}"


class HarnessError(Exception):
    pass


def run_once(env, harness, repo_src, own):
    """Run the harness on one path; returns False if the path was dropped."""
    import traceback

    with env:
        try:
            harness(env)
            return True
        except PathAbort:
            return False
        except Unsupported as e:
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if f.filename.startswith(repo_src)]
            at = f" ({where[-1].filename.rsplit('/', 1)[-1]}:{where[-1].lineno})" if where else ""
            env.inconclusive.append(f"not modelled: {e}{at}")
            return False
        except Exception as e:
            kind = classify(e, repo_src, own)
            if kind == "crash":
                env.fail("no exception", describe(e, repo_src))
                return False
            if kind == "gap":
                env.inconclusive.append("gap of a stand-in: " + "".join(
                    traceback.format_exception(e))[-1500:])
                return False
            if isinstance(e, (AttributeError, TypeError)) and "'NoneType' object" in str(e):
                # the code under test returned nothing where a result is due
                env.fail("a result is missing", describe(e, own))
                return False
            if isinstance(e, IndexError) or isinstance(e, ValueError) and any(
                    t in str(e) for t in ("shape", "broadcast", "zip()", "unpack", "dimension")):
                env.fail("a result has the wrong shape", describe(e, own))
                return False
            raise HarnessError("".join(traceback.format_exception(e))) from e


def explore(harness, stats, repo_src, own, cfg=None, seed=1, max_paths=512, deadline=None,
            known=lambda label: False):
    """Run `harness(env)` over every feasible path.  Returns (failures, inconclusive, samples)."""
    stack = [[]]
    failures, inconclusive, samples = [], [], []
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            inconclusive.append(f"more than {max_paths} paths")
            break
        if deadline and time.time() > deadline:
            inconclusive.append("time limit of the exploration")
            break
        env = Env(stats, "sym", prefix, cfg=cfg, seed=seed)
        if run_once(env, harness, repo_src, own):
            stats.paths += 1
            if len(samples) < 2:
                samples.append(dict(path=[bool(d) for d, _ in env.decisions][:40],
                                    obligations=env.labels[:12],
                                    symbols=[a.name for a in env.atoms if a.fn is None][:12],
                                    n_symbols=len(env.atoms)))
        for i in range(len(prefix), len(env.decisions)):
            d, other = env.decisions[i]
            if other:
                stack.append([x for x, _ in env.decisions[:i]] + [not d])
        failures += env.failures
        inconclusive += env.inconclusive
        if len([f for f in failures if not known(f.label)]) >= 3:
            break
    return failures, inconclusive, samples
