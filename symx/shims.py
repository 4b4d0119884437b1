"""numpy, math and builtins as seen by the code under test in symbolic mode."""
from __future__ import annotations

import builtins as _b
import math as _math
import types
from fractions import Fraction

import numpy as _np

from .core import ENV, Sym, SymBool, Unsupported, _is_sympy, frac, is_number, lift, refuse


class ModShim(types.ModuleType):
    """A module that overrides some names of another one."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        if hasattr(real, "__path__"):
            self.__path__ = real.__path__

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def clean(v):
    """What storing into a float array does, except that symbolic values are kept."""
    if isinstance(v, Sym) or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, SymBool):
        return 1.0 if bool(v) else 0.0
    if _is_sympy(v):
        return float(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, _np.generic):
        return v.item()
    if v is None or isinstance(v, str):
        raise refuse(TypeError, f"cannot store {type(v).__name__} into a float array")
    if isinstance(v, _np.ndarray):
        if v.dtype == object:
            out = _np.empty(v.shape, dtype=object)
            for i, x in _np.ndenumerate(v):
                out[i] = clean(x)
            return out
        return v
    if isinstance(v, (list, tuple)):
        out = _np.empty(len(v), dtype=object)
        arr = _np.array([clean(x) for x in v], dtype=object)
        return arr
    return v


class SymArray(_np.ndarray):
    """An array of exact numbers and symbolic values, behaving like a float array."""

    def __setitem__(self, k, v):
        if not isinstance(v, SymArray):
            v = clean(v)
        super().__setitem__(k, v)

    def max(self, axis=None, **kw):
        return amax(self, axis=axis)

    def min(self, axis=None, **kw):
        return amin(self, axis=axis)

    def copy(self, *a, **k):
        return super().copy(*a, **k)

    def astype(self, dtype, *a, **k):
        if _float_dtype(dtype):
            return self.copy()
        return super().astype(dtype, *a, **k)


def symarray(shape, fill=0):
    a = _np.empty(shape, dtype=object).view(SymArray)
    _np.ndarray.fill(a, fill)
    return a


def _float_dtype(dtype):
    if dtype is None or dtype is float or dtype is object:
        return True
    try:
        d = _np.dtype(dtype)
    except TypeError:
        return False
    if d.kind == "f" and d.itemsize < 8:
        raise Unsupported("arithmetic in reduced precision")
    return d.kind in "fO"


def zeros(shape, dtype=float, order="C", **k):
    return symarray(shape, 0) if _float_dtype(dtype) else _np.zeros(shape, dtype)


def ones(shape, dtype=None, order="C", **k):
    return symarray(shape, 1) if _float_dtype(dtype) else _np.ones(shape, dtype)


def empty(shape, dtype=float, order="C", **k):
    if not _float_dtype(dtype):
        return _np.zeros(shape, dtype)
    a = symarray(shape, 0)
    env = ENV()
    for i in _np.ndindex(a.shape):  # uninitialised memory: arbitrary values
        env.garbage = getattr(env, "garbage", 0) + 1
        _np.ndarray.__setitem__(a, i, env.real(f"uninitialised[{env.garbage}]"))
    return a


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None and isinstance(fill_value, (bool, int)) or not _float_dtype(dtype):
        return _np.full(shape, fill_value, dtype)
    return symarray(shape, clean(fill_value))


def zeros_like(a, dtype=None, **k):
    a = _np.asarray(a)
    return zeros(a.shape, a.dtype if dtype is None else dtype)


def ones_like(a, dtype=None, **k):
    a = _np.asarray(a)
    return ones(a.shape, a.dtype if dtype is None else dtype)


def empty_like(a, dtype=None, **k):
    a = _np.asarray(a)
    return empty(a.shape, a.dtype if dtype is None else dtype)


def full_like(a, v, dtype=None, **k):
    a = _np.asarray(a)
    return full(a.shape, v, a.dtype if dtype is None else dtype)


def array(x, dtype=None, **k):
    if hasattr(x, "_symx_asarray"):
        x = x._symx_asarray()
    if has_sym(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
        if dtype is not None and not _float_dtype(dtype):
            return _np.array(x, dtype=dtype, **k)
        if isinstance(x, _np.ndarray):
            return _np.array(x, dtype=object).view(SymArray) if k.get("copy", True) else x
        return _np.array(x, dtype=object).view(SymArray)
    return _np.array(x, **({"dtype": dtype} if dtype is not None else {}), **k)


def _deep_sym(x):
    return any(has_sym(y) or (isinstance(y, (list, tuple)) and _deep_sym(y)) for y in x)


def asarray(x, dtype=None, **k):
    if isinstance(x, _np.ndarray) and (dtype is None or x.dtype == object and _float_dtype(dtype)):
        return x
    return array(x, dtype=dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return _np.linspace(start, stop, num=num, endpoint=endpoint, retstep=retstep, dtype=dtype,
                            axis=axis)
    if retstep or dtype is not None or axis:
        raise Unsupported("linspace options")
    div = (num - 1) if endpoint else num
    a = symarray(num)
    for i in range(num):
        a[i] = start + (stop - start) * Fraction(i, div) if div else start
    return a


def _red(a, axis, fn):
    if isinstance(a, _np.ndarray) and a.dtype != object:
        return None
    a = _np.asarray(a, dtype=object)
    if axis is None:
        return fn(list(a.ravel()))
    out = symarray(tuple(s for i, s in enumerate(a.shape) if i != axis % a.ndim))
    mv = _np.moveaxis(a, axis, 0)
    for i in _np.ndindex(out.shape):
        out[i] = fn([mv[(j,) + i] for j in range(mv.shape[0])])
    return out


def amax(a, axis=None, **k):
    if not has_sym(a):
        return _np.max(a, axis=axis, **k)
    return _red(a, axis, ENV().maximum)


def _minimum(xs):
    return -ENV().maximum([-x for x in xs])


def amin(a, axis=None, **k):
    if not has_sym(a):
        return _np.min(a, axis=axis, **k)
    return _red(a, axis, _minimum)


def _el2(fn):
    def f(a, b, *r, **k):
        if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
            a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
            out = symarray(a.shape)
            for i in _np.ndindex(a.shape):
                out[i] = fn(a[i], b[i])
            return out
        return fn(a, b)
    return f


def maximum(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return _np.maximum(a, b, **k)
    return _el2(lambda x, y: ENV().maximum([x, y]))(a, b)


def minimum(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return _np.minimum(a, b, **k)
    return _el2(lambda x, y: _minimum([x, y]))(a, b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return _np.isclose(a, b, rtol=rtol, atol=atol)

    def one(x, y):
        return abs(x - y) <= atol + rtol * abs(y)

    if isinstance(a, (list, tuple)):
        a = _np.array(a, dtype=object)
    if isinstance(b, (list, tuple)):
        b = _np.array(b, dtype=object)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        out = _np.empty(a.shape, dtype=bool)
        for i in _np.ndindex(a.shape):
            out[i] = bool(one(a[i], b[i]))
        return out
    return one(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b) or _seq_sym(a) or _seq_sym(b)):
        return _np.allclose(a, b, rtol=rtol, atol=atol)
    a, b = _np.broadcast_arrays(_np.array(a, dtype=object), _np.array(b, dtype=object))
    r = True
    for i in _np.ndindex(a.shape):
        c = abs(a[i] - b[i]) <= atol + rtol * abs(b[i])
        r = c if r is True else (r & c)
    return bool(r)


def _seq_sym(x):
    return isinstance(x, (list, tuple)) and _deep_sym(x)


def where(c, *xy):
    return _np.where(c, *xy)


def round_(a, *k, **kw):
    if not has_sym(a):
        return _np.round(a, *k, **kw)
    n = k[0] if k else kw.get("decimals", 0)
    if isinstance(a, Sym):
        return ENV().rounded(a, n)
    out = symarray(_np.shape(a))
    for i in _np.ndindex(out.shape):
        out[i] = ENV().rounded(a[i], n)
    return out


def np_sqrt(x, *a, **k):
    if isinstance(x, Sym):
        return x.sqrt()
    if is_number(x) and not isinstance(x, _np.ndarray) and not a and not k:
        if x < 0:
            return float("nan")
        return _np.sqrt(float(x))
    return _np.sqrt(x, *a, **k)


def np_abs(x, *a, **k):
    if isinstance(x, Sym):
        return abs(x)
    return _np.abs(x, *a, **k)


def np_trig(fn):
    real = getattr(_np, fn)

    def f(x, *a, **k):
        if isinstance(x, Sym):
            return ENV().uf(fn, x)
        if hasattr(x, "_symx_math"):
            return x._symx_math(fn)
        return real(x, *a, **k)
    return f


def isnan(x, *a, **k):
    if isinstance(x, Sym):
        return False
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _np.zeros(x.shape, dtype=bool)
    return _np.isnan(x)


def isfinite(x, *a, **k):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _np.ones(x.shape, dtype=bool)
    return _np.isfinite(x)


def np_float(x=0.0):
    return FloatMeta_call(x)


def FloatMeta_call(x):
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return float(x)


def make_numpy():
    over = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
                ones_like=ones_like, empty_like=empty_like, full_like=full_like, array=array,
                asarray=asarray, linspace=linspace, max=amax, amax=amax, min=amin, amin=amin,
                maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum,
                isclose=isclose, allclose=allclose, round=round_, around=round_, sqrt=np_sqrt,
                abs=np_abs, absolute=np_abs, fabs=np_abs, cos=np_trig("cos"), sin=np_trig("sin"),
                isnan=isnan, isfinite=isfinite)
    return ModShim("numpy", _np, over)


# ---------------------------------------------------------------- math
def m_sqrt(x):
    if isinstance(x, Sym):
        env = ENV()
        if not getattr(env, "roots_of_squares", False) and bool(x < 0):
            raise refuse(ValueError, "math domain error")
        return env.sqrt(x)
    if isinstance(x, Fraction):
        return ENV().sqrt(lift(x)) if ENV().mode == "sym" else _math.sqrt(x)
    return _math.sqrt(x)


def _m(fn):
    real = getattr(_math, fn)

    def f(x):
        if isinstance(x, Sym):
            return ENV().uf(fn, x) if fn in ("cos", "sin") else _uns(fn)
        return real(x)
    return f


def _uns(fn):
    raise Unsupported(f"math.{fn} of a symbolic value")


def m_fabs(x):
    return abs(x) if isinstance(x, Sym) else _math.fabs(x)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return abs(a - b) <= ENV().maximum([rel_tol * ENV().maximum([abs(a), abs(b)]), abs_tol])


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if any(isinstance(x, Sym) for x in xs) else _math.fsum(xs)


def m_prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def m_pow(a, b):
    return a ** b if isinstance(a, Sym) else _math.pow(a, b)


def make_math():
    over = {n: _m(n) for n in ("cos", "sin", "tan", "exp", "log", "floor", "ceil", "isnan",
                               "isfinite", "isinf", "trunc")}
    over["isnan"] = lambda x: False if isinstance(x, Sym) else _math.isnan(x)
    over["isinf"] = lambda x: False if isinstance(x, Sym) else _math.isinf(x)
    over["isfinite"] = lambda x: True if isinstance(x, Sym) else _math.isfinite(x)
    over.update(sqrt=m_sqrt, fabs=m_fabs, isclose=m_isclose, fsum=m_fsum, prod=m_prod, pow=m_pow)
    return ModShim("math", _math, over)


# ---------------------------------------------------------------- builtins
def b_max(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, Sym) for x in xs):
        return ENV().maximum(xs)
    if len(a) == 1:
        a = (xs,)
    return _b.max(*a, key=key, **k)


def b_min(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, Sym) for x in xs):
        return _minimum(xs)
    if len(a) == 1:
        a = (xs,)
    return _b.min(*a, key=key, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.float, Sym))

    def __call__(cls, x=0.0):
        return FloatMeta_call(x)

    def __eq__(cls, o):
        return o is cls or o is _b.float

    def __hash__(cls):
        return hash(_b.float)


class b_float(_b.float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym) and getattr(ENV(), "int_atoms", None):
            return x
        return _b.int(x, *a)


def make_builtins(importer, mode, out):
    d = dict(_b.__dict__)
    d["__import__"] = importer

    def b_print(*a, **k):
        # formatting is executed, the text is dropped
        s = (k.get("sep") or " ").join(str(x) for x in a)
        out.append(s)
        ENV().events.append(("Print", s))

    d["print"] = b_print
    if mode == "sym":
        d.update(max=b_max, min=b_min)
        d["float"] = b_float
    return d
