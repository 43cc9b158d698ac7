"""Toggleable patches that let the real code under test run on symbolic data.

Only names in the namespaces of the code under test and a handful of xarray entry
points are replaced, and only while `with patched(...)` is active.
"""
import builtins
import contextlib
import importlib
import math
import sys
import types

import bottleneck
import numpy as np
import pandas as pd
import scipy.interpolate
import scipy.spatial

from . import arr, core, funcs, interp, kdtree, npf
from .arr import SymArray, has_duck, has_sym, obj, wrap
from .core import ENG, SymBool, SymNum, Unsupported, b_not, b_or, is_sym, lift, lower, mkbool

_real_float, _real_int, _real_bool = builtins.float, builtins.int, builtins.bool


# ------------------------------------------------------------------ builtins
class _TypeProxyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._sym(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls._real or o is cls or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if type(x).__module__.split(".")[0] == "xarray" and hasattr(x, "data"):
                x = x.data
            if isinstance(x, SymArray):
                x = x._symx_item()
            if is_sym(x):
                return cls._conv(x)
            if type(x).__module__.split(".")[0] == "xarray":
                return cls._real(*a, **k)
            return cls._real(x, *a[1:], **k)
        return cls._real(*a, **k)


class FloatProxy(metaclass=_TypeProxyMeta):
    _real = _real_float
    dtype = np.dtype(_real_float)
    fromhex = _real_float.fromhex

    @staticmethod
    def _sym(x):
        return isinstance(x, SymNum) and not x.isint

    @staticmethod
    def _conv(x):
        return arr.cast(x, np.dtype(np.float64))


class IntProxy(metaclass=_TypeProxyMeta):
    _real = _real_int
    dtype = np.dtype(np.int64)

    @staticmethod
    def _sym(x):
        return isinstance(x, SymNum) and x.isint

    @staticmethod
    def _conv(x):
        n = lift(x)
        if not n.isint:
            if ENG.branch(b_not(n.finite)):
                raise ValueError("cannot convert float NaN to integer")
            n = core.as_int(core.trunc(SymNum(n.v)))
        return lower(n)


arr._DT_ALIAS[FloatProxy] = np.float64
arr._DT_ALIAS[IntProxy] = np.int64


def _round(x, n=None):
    if is_sym(x):
        x = lift(x)
        if n is None:
            return lower(core.as_int(core.rint(x)))
        return lower(core.round_to(x, n))
    return builtins.round(x) if n is None else builtins.round(x, n)


def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


# ------------------------------------------------------------------ math module
class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real
        alias = {
            "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2",
            "fabs": "absolute", "pow": "power", "isnan": "isnan", "isinf": "isinf",
            "isfinite": "isfinite",
        }
        u = alias.get(n, n)

        def f(*a, **k):
            a = [x._symx_item() if isinstance(x, SymArray) else x for x in a]
            if not any(is_sym(x) for x in a):
                return real(*a, **k)
            if n in ("floor", "ceil", "trunc"):
                return lower(core.as_int(getattr(core, n)(lift(a[0]))))
            if n == "log" and len(a) == 2:
                return lower(core.div(funcs.log(lift(a[0])), lift(math.log(a[1]))))
            if n == "fsum":
                raise Unsupported("math.fsum")
            if n == "isclose":
                return npf._isclose(a[0], a[1], rtol=k.get("rel_tol", 1e-9), atol=k.get("abs_tol", 0.0))
            ent = arr.UFUNCS.get(u)
            if ent is None:
                raise Unsupported("math.%s" % n)
            return ent[0](*a)

        return f


# ------------------------------------------------------------------ bottleneck / xarray
def _move(name):
    def f(a, window, min_count=None, axis=-1, **k):
        a = wrap(a)
        window = int(window)
        min_count = window if min_count is None else int(min_count)
        o = np.moveaxis(a.a, axis, -1)
        out = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(o.shape[:-1]):
            row = o[ix]
            lifted = [lift(x) for x in row]
            issym = np.array([is_sym(x) for x in row])
            real = None
            if not issym.all() and row.shape[0] > 16:
                plain = np.array([np.nan if s else float(x) for s, x in zip(issym, row)])
                if name in ("median", "mean", "max", "min") and np.isfinite(plain[~np.isnan(plain)]).all():
                    real = getattr(bottleneck, "move_" + name)(plain, window=min(window, len(plain)), min_count=min(min_count, len(plain))) if min_count <= len(plain) else plain * np.nan
            for t in range(row.shape[0]):
                lo = max(0, t - window + 1)
                if real is not None and not issym[lo : t + 1].any():
                    out[ix + (t,)] = np.float64(real[t])
                    continue
                out[ix + (t,)] = _move_one(name, lifted[lo : t + 1], min_count, k)
        return SymArray(np.moveaxis(out, -1, axis), arr._fltdt(a.dtype))

    return f


def _move_one(name, xs, min_count, k):
    flags = [x.nan for x in xs]
    cnt = core.SymNum(core.Fraction(0), isint=True)
    for x in xs:
        cnt = core.add(cnt, lift(mkbool(b_not(x.nan))))
    enough = core.bterm(core.ge(cnt, lift(min_count)))
    if name in ("sum", "max", "min"):
        if name == "sum":
            z = lift(0.0)
            r = arr._fold(core.add, [core.ite_num(x.nan, z, x) for x in xs])
        elif name == "max":
            r = arr._fold(lambda a, b: core.maximum(a, b, False), xs)
        else:
            r = arr._fold(lambda a, b: core.minimum(a, b, False), xs)
        r = SymNum(r.v, b_or(r.nan, b_not(enough)), r.pinf, r.ninf)
        return lower(r)
    if not isinstance(enough, bool):
        enough = ENG.branch(enough)
    if not enough:
        return np.float64(np.nan)
    ys = arr.drop_nan(xs)
    if len(ys) < min_count or not ys:
        return np.float64(np.nan)
    if name == "mean":
        return arr.s_mean(ys)
    if name == "median":
        return arr.s_median(ys)
    if name == "std":
        return arr.s_std(ys, k.get("ddof", 0))
    if name == "var":
        return arr.s_var(ys, k.get("ddof", 0))
    raise Unsupported("bottleneck.move_%s" % name)


class _Patch:
    """Generic attribute patch list."""

    def __init__(self):
        self.undo = []

    def set(self, o, n, v):
        missing = object()
        if isinstance(o, dict):
            old = o.get(n, missing)
            o[n] = v
        else:
            old = o.__dict__.get(n, missing) if hasattr(o, "__dict__") else getattr(o, n, missing)
            setattr(o, n, v)
        self.undo.append((o, n, old, missing))

    def revert(self):
        for o, n, old, missing in reversed(self.undo):
            if isinstance(o, dict):
                if old is missing:
                    o.pop(n, None)
                else:
                    o[n] = old
            else:
                if old is missing:
                    try:
                        delattr(o, n)
                    except AttributeError:
                        pass
                else:
                    setattr(o, n, old)
        self.undo = []


_PROXY = None
_MATH = MathProxy()


def np_proxy():
    global _PROXY
    if _PROXY is None:
        _PROXY = npf.build_proxy()
    return _PROXY


def _xarray_patches(p):
    import xarray as xr
    from xarray.core import variable as xv
    from xarray.computation import rolling as xroll

    real_asitem = xv._as_array_or_item

    def as_array_or_item(data):
        if isinstance(data, SymArray):
            return data
        d = getattr(data, "array", None)
        if isinstance(data, (xv.indexing.ExplicitlyIndexed,)) if hasattr(xv, "indexing") else False:
            try:
                g = data.get_duck_array()
            except Exception:
                g = None
            if isinstance(g, SymArray):
                return g
        return real_asitem(data)

    p.set(xv, "_as_array_or_item", as_array_or_item)

    real_bn = xroll.DataArrayRolling._bottleneck_reduce

    def bn(self, func, keep_attrs, **kw):
        if isinstance(self.obj.data, SymArray):
            name = getattr(func, "__name__", "").replace("move_", "")
            func = _move(name)
        return real_bn(self, func, keep_attrs, **kw)

    p.set(xroll.DataArrayRolling, "_bottleneck_reduce", bn)

    from xarray.core import duck_array_ops as xd, missing as xm

    real_push = xd.push

    def push(array, n, axis, *a, **k):
        if not isinstance(array, SymArray):
            return real_push(array, n, axis, *a, **k)
        o = np.moveaxis(array.a, axis, -1)
        out = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(o.shape[:-1]):
            cur, age = None, 0
            for t in range(o.shape[-1]):
                x = o[ix + (t,)]
                if not bool(np_proxy().isnan(x)):
                    cur, age = x, 0
                else:
                    age += 1
                    if cur is not None and (n is None or age <= n):
                        x = cur
                out[ix + (t,)] = x
        return SymArray(np.moveaxis(out, -1, axis), array.dtype)

    p.set(xd, "push", push)
    p.set(xm, "push", push)

    real_vec = np.vectorize

    class Vec:
        def __init__(self, *a, **k):
            self.a, self.k = a, k

        def __call__(self, *args, **kw):
            if has_duck(args):
                return npf.SymVectorize(*self.a, **self.k)(*args, **kw)
            return real_vec(*self.a, **self.k)(*args, **kw)

    from xarray.computation import apply_ufunc as xau

    vp = npf.NumpyProxy(np, "numpy")
    vp._over["vectorize"] = Vec
    p.set(xau, "np", vp)


def _swv(x, *a, **k):
    if type(x).__module__.split(".")[0] == "xarray" and isinstance(x.data, SymArray):
        x = x.data
    return np.lib.stride_tricks.sliding_window_view(x, *a, **k)


def _pd_isna(real, neg):
    def f(x):
        if isinstance(x, SymArray) or is_sym(x):
            r = np.isnan(x) if isinstance(x, SymArray) else mkbool(lift(x).nan)
            return ~r if neg else r
        return real(x)

    return f


def target_modules():
    out = []
    for n, m in list(sys.modules.items()):
        if m is None or not (n == "pycomlink" or n.startswith("pycomlink.")):
            continue
        if ".tests" in n or n.endswith(".tests"):
            continue
        out.append(m)
    return out


@contextlib.contextmanager
def patched(extra=()):
    """extra: iterable of (owner, name, replacement)."""
    p = _Patch()
    prox = np_proxy()
    over = {}
    for n, f in prox._over.items():
        real = getattr(np, n, None)
        if real is not None and npf._hashable(real):
            over[real] = f
    try:
        for m in target_modules():
            g = m.__dict__
            for n, v in list(g.items()):
                if v is np:
                    p.set(g, n, prox)
                elif v is math:
                    p.set(g, n, _MATH)
                elif v is np.lib.stride_tricks.sliding_window_view:
                    p.set(g, n, _swv)
                elif v is interp.REAL:
                    p.set(g, n, interp.SymInterp1d)
                elif v is kdtree.REAL or v is kdtree.REAL2:
                    p.set(g, n, kdtree.SymKDTree)
                elif n.startswith("__"):
                    continue
                elif isinstance(v, types.FunctionType) or isinstance(v, types.BuiltinFunctionType) or callable(v):
                    try:
                        r = over.get(v)
                    except TypeError:
                        r = None
                    if r is not None and getattr(v, "__module__", "") and str(getattr(v, "__module__", "")).split(".")[0] == "numpy":
                        p.set(g, n, r)
                    elif isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", "") == "math":
                        p.set(g, n, getattr(_MATH, v.__name__))
            if "float" not in g:
                p.set(g, "float", FloatProxy)
            if "int" not in g:
                p.set(g, "int", IntProxy)
            if "round" not in g:
                p.set(g, "round", _round)
        _xarray_patches(p)
        p.set(scipy.interpolate, "interp1d", interp.SymInterp1d)
        p.set(scipy.spatial, "cKDTree", kdtree.SymKDTree)
        for n, neg in (("isnull", False), ("isna", False), ("notnull", True), ("notna", True)):
            p.set(pd, n, _pd_isna(getattr(pd, n), neg))
        p.set(scipy.spatial, "KDTree", kdtree.SymKDTree)
        for o, n, v in extra:
            if isinstance(o, str):
                o = importlib.import_module(o)
            p.set(o, n, v)
        yield
    finally:
        p.revert()


@contextlib.contextmanager
def stubs(extra=()):
    """Only the harness stubs (used for concrete replay of environment stubs)."""
    p = _Patch()
    try:
        for o, n, v in extra:
            if isinstance(o, str):
                o = importlib.import_module(o)
            p.set(o, n, v)
        yield
    finally:
        p.revert()
