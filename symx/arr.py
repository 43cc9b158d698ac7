"""SymArray: a duck array of symbolic scalars implementing the numpy protocols."""
import builtins
import functools
import math
import operator
from fractions import Fraction

import numpy as np

from . import core, funcs
from .core import (
    ENG,
    SymBool,
    SymNum,
    Unsupported,
    b_and,
    b_not,
    b_or,
    bterm,
    is_sym,
    lift,
    lower,
    mkbool,
)

_float = builtins.float
_int = builtins.int
_bool = builtins.bool

# ------------------------------------------------------------------ dtype helpers
_DT_ALIAS = {}


def real_dtype(dt):
    """Undo dtype aliases introduced by the namespace patches."""
    if dt is None:
        return None
    try:
        if dt in _DT_ALIAS:
            return _DT_ALIAS[dt]
    except TypeError:
        pass
    return dt


def dtype_of(x):
    if isinstance(x, SymArray):
        return x.dtype
    if isinstance(x, (SymNum, SymBool)):
        return x.dtype
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, _bool):
        return np.dtype(bool)
    if isinstance(x, _int):
        return np.dtype(np.int64)
    if isinstance(x, _float):
        return np.dtype(np.float64)
    if isinstance(x, complex):
        return np.dtype(complex)
    return np.asarray(x).dtype


def box(x, dtype):
    """Concrete scalar -> scalar of the dtype; symbolic scalar -> cast."""
    if is_sym(x):
        return cast(x, dtype)
    if dtype == object:
        return x
    if isinstance(x, np.generic) and x.dtype == dtype:
        return x
    return np.asarray(x).astype(dtype)[()]


def cast(x, dtype):
    """Symbolic scalar cast (numpy semantics of astype)."""
    k = dtype.kind
    if k == "b":
        return x if isinstance(x, SymBool) else mkbool(bterm(x))
    if k == "f":
        n = lift(x)
        if n.isint:
            return lower(SymNum(n.v, n.nan, n.pinf, n.ninf, False))
        return lower(n) if isinstance(x, SymBool) else x
    if k in "iu":
        n = lift(x)
        if n.isint:
            return lower(n)
        if not (n.nan is False and n.noinf):
            if ENG.branch(b_not(n.finite)):
                raise Unsupported("NaN cast to integer")
        t = core.trunc(SymNum(n.v))
        return lower(core.as_int(t))
    if k == "O":
        return x
    if k == "c":
        raise Unsupported("symbolic complex")
    raise Unsupported("cast of a symbolic value to %s" % dtype)


def common_dtype(items):
    dts = []
    for x in items:
        dts.append(dtype_of(x))
    if not dts:
        return np.dtype(np.float64)
    return functools.reduce(np.promote_types, dts)


def obj(x):
    """Anything array-like -> object ndarray of scalars (no copy for SymArray)."""
    if isinstance(x, SymArray):
        return x.a
    if is_sym(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = x if isinstance(x, np.ndarray) else np.asarray(x)
    if a.dtype == object:
        return a
    o = np.empty(a.shape, dtype=object)
    if a.size:
        it = np.nditer(a, flags=["multi_index", "refs_ok", "zerosize_ok"])
        for _ in it:
            i = it.multi_index
            o[i] = a[i]
    return o


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return x.symbolic
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(i) for i in x.ravel())
    return False


def has_duck(x):
    if is_sym(x) or isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_duck(i) for i in x)
    if isinstance(x, dict):
        return any(has_duck(i) for i in x.values())
    return False


def concrete(x):
    """Recursively convert concrete SymArrays to real ndarrays."""
    if isinstance(x, SymArray):
        return x.to_numpy()
    if isinstance(x, list):
        return [concrete(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concrete(i) for i in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def wrap(x, dtype=None):
    """ndarray / nested sequence / scalar -> SymArray."""
    if isinstance(x, SymArray):
        return x if dtype is None or x.dtype == dtype else x.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype != object:
        d = x.dtype if dtype is None else dtype
        if d != x.dtype:
            x = x.astype(d)
        return SymArray(obj(x), d)
    if isinstance(x, np.ndarray):
        o = x
    elif is_sym(x):
        o = obj(x)
    else:
        o = nested(x)
        if isinstance(o, np.ndarray) and o.dtype != object:
            return wrap(o, dtype)
    if dtype is None:
        dtype = common_dtype(list(o.ravel())) if o.size else np.dtype(np.float64)
        return SymArray(o, dtype)
    out = np.empty(o.shape, dtype=object)
    fo, fi = out.reshape(-1), o.reshape(-1)
    for i in range(fo.size):
        fo[i] = box(fi[i], dtype)
    return SymArray(out, dtype)


def nested(x):
    """Nested sequence that may contain SymArrays / symbolic scalars -> object array."""
    if not has_duck(x):
        xv = getattr(x, "values", None)
        if xv is not None and not callable(xv) and isinstance(xv, SymArray):
            return xv.a
        a = np.asarray(x)
        return a if a.dtype != object else a
    if isinstance(x, SymArray):
        return x.a
    if is_sym(x):
        return obj(x)
    parts = [nested(i) for i in x]
    parts = [p if isinstance(p, np.ndarray) and p.dtype == object else obj(p) for p in parts]
    if not parts:
        return np.empty((0,), dtype=object)
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError(
            "setting an array element with a sequence. The requested array has an "
            "inhomogeneous shape"
        )
    out = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        out[i] = p if shp else p[()]
    return out


def wrap_dt(x):
    """list elements keep their dtype labels."""
    ds = _dtypes_in(x)
    return functools.reduce(np.promote_types, ds) if ds else None


def _dtypes_in(x):
    if isinstance(x, (SymArray, np.ndarray, np.generic)) or is_sym(x):
        return [dtype_of(x)]
    if isinstance(x, (list, tuple)):
        return [d for i in x for d in _dtypes_in(i)]
    return [dtype_of(x)]


def finish(o, dtype):
    """object ndarray (or scalar) result -> scalar or SymArray."""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return o[()]
        return SymArray(o, dtype)
    return o


# ------------------------------------------------------------------ scalar kernels
def _nz(f):
    return lambda *xs: lower(f(*[lift(x) for x in xs]))


def _logic2(f):
    return lambda a, b: mkbool(f(bterm(a), bterm(b)))


def _bit(f, name):
    def g(a, b):
        if _isb(a) and _isb(b):
            return mkbool(f(bterm(a), bterm(b)))
        raise Unsupported("%s on symbolic integers" % name)

    return g


def _isb(x):
    return isinstance(x, (SymBool, _bool, np.bool_))


def _xor(a, b):
    return b_not(core.b_eq(a, b))


def _invert(a):
    if _isb(a):
        return mkbool(b_not(bterm(a)))
    if not is_sym(a):
        return ~a
    n = lift(a)
    return lower(core.sub(core.neg(n), lift(1)))


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    a, b = lift(a), lift(b)
    d = core.absolute(core.sub(a, b))
    lim = core.add(lift(atol), core.mul(lift(rtol), core.absolute(b)))
    return core.le(d, lim)


def _isfinite(x):
    return mkbool(lift(x).finite)


def _isinf(x):
    n = lift(x)
    return mkbool(b_and(b_or(n.pinf, n.ninf), b_not(n.nan)))


def _deg2rad(x):
    return core.mul(x, lift(math.pi / 180))


def _rad2deg(x):
    return core.mul(x, lift(180 / math.pi))


def _cmpk(f, opname):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            if isinstance(a, (str, np.str_)) or isinstance(b, (str, np.str_)) or a is None or b is None:
                if opname == "eq":
                    return np.bool_(False)
                if opname == "ne":
                    return np.bool_(True)
        return lower_b(f(lift(a), lift(b)))

    return g


def lower_b(x):
    return lower(x)


def _sub(a, b):
    if _isb(a) and _isb(b):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return core.sub(lift(a), lift(b))


def _add2(a, b):
    if _isb(a) and _isb(b):
        return mkbool(b_or(bterm(a), bterm(b)))
    return lower(core.add(lift(a), lift(b)))


def _mul2(a, b):
    if _isb(a) and _isb(b):
        return mkbool(b_and(bterm(a), bterm(b)))
    return lower(core.mul(lift(a), lift(b)))


def _tdiv(a, b):
    a, b = lift(a), lift(b)
    r = core.div(a, b)
    r.isint = False
    return lower(r)


def _fmod(a, b):
    q = core.trunc(core.div(a, b))
    return core.sub(a, core.mul(b, q))


def _nan_to_num(x, nan=0.0):
    n = lift(x)
    return lower(core.ite_num(n.nan, lift(nan), n))


def _logaddexp(a, b):
    return funcs.log(core.add(funcs.exp(a), funcs.exp(b)))


def _float_out(f):
    def g(*xs):
        r = f(*[lift(x) for x in xs])
        return lower(r)

    return g


# name -> (kernel, result kind: 'p' promote, 'b' bool, 'f' float, 'l' logical/bit)
UFUNCS = {
    "add": (_add2, "p"),
    "subtract": (lambda a, b: lower(_sub(a, b)), "p"),
    "multiply": (_mul2, "p"),
    "true_divide": (_tdiv, "f"),
    "divide": (_tdiv, "f"),
    "floor_divide": (_nz(core.floordiv), "p"),
    "remainder": (_nz(core.mod), "p"),
    "mod": (_nz(core.mod), "p"),
    "fmod": (_nz(_fmod), "p"),
    "power": (_nz(core.power), "p"),
    "float_power": (_nz(core.power), "f"),
    "negative": (_nz(core.neg), "p"),
    "positive": (lambda a: a, "p"),
    "absolute": (_nz(core.absolute), "p"),
    "fabs": (_nz(core.absolute), "f"),
    "sign": (_nz(core.sign), "p"),
    "square": (lambda a: _mul2(a, a), "p"),
    "reciprocal": (lambda a: _tdiv(1.0, a), "p"),
    "sqrt": (_float_out(funcs.sqrt), "f"),
    "cbrt": (_float_out(funcs.cbrt), "f"),
    "exp": (_float_out(funcs.exp), "f"),
    "exp2": (_float_out(funcs.exp2), "f"),
    "expm1": (_float_out(funcs.expm1), "f"),
    "log": (_float_out(funcs.log), "f"),
    "log2": (_float_out(funcs.log2), "f"),
    "log10": (_float_out(funcs.log10), "f"),
    "log1p": (_float_out(funcs.log1p), "f"),
    "logaddexp": (_float_out(_logaddexp), "f"),
    "sin": (_float_out(funcs.sin), "f"),
    "cos": (_float_out(funcs.cos), "f"),
    "tan": (_float_out(funcs.tan), "f"),
    "arcsin": (_float_out(funcs.arcsin), "f"),
    "arccos": (_float_out(funcs.arccos), "f"),
    "arctan": (_float_out(funcs.arctan), "f"),
    "arctan2": (_float_out(funcs.arctan2), "f"),
    "sinh": (_float_out(funcs.sinh), "f"),
    "cosh": (_float_out(funcs.cosh), "f"),
    "tanh": (_float_out(funcs.tanh), "f"),
    "hypot": (_float_out(funcs.hypot), "f"),
    "deg2rad": (_float_out(_deg2rad), "f"),
    "radians": (_float_out(_deg2rad), "f"),
    "rad2deg": (_float_out(_rad2deg), "f"),
    "degrees": (_float_out(_rad2deg), "f"),
    "maximum": (_nz(core.maximum), "p"),
    "minimum": (_nz(core.minimum), "p"),
    "fmax": (_nz(lambda a, b: core.maximum(a, b, False)), "p"),
    "fmin": (_nz(lambda a, b: core.minimum(a, b, False)), "p"),
    "floor": (_float_out(core.floor), "f"),
    "ceil": (_float_out(core.ceil), "f"),
    "trunc": (_float_out(core.trunc), "f"),
    "rint": (_float_out(core.rint), "f"),
    "less": (_cmpk(core.lt, "lt"), "b"),
    "less_equal": (_cmpk(core.le, "le"), "b"),
    "greater": (_cmpk(core.gt, "gt"), "b"),
    "greater_equal": (_cmpk(core.ge, "ge"), "b"),
    "equal": (_cmpk(core.eq, "eq"), "b"),
    "not_equal": (_cmpk(core.ne, "ne"), "b"),
    "isnan": (core.isnan, "b"),
    "isfinite": (_isfinite, "b"),
    "isinf": (_isinf, "b"),
    "logical_and": (_logic2(b_and), "b"),
    "logical_or": (_logic2(b_or), "b"),
    "logical_xor": (_logic2(_xor), "b"),
    "logical_not": (lambda a: mkbool(b_not(bterm(a))), "b"),
    "bitwise_and": (_bit(b_and, "&"), "l"),
    "bitwise_or": (_bit(b_or, "|"), "l"),
    "bitwise_xor": (_bit(_xor, "^"), "l"),
    "invert": (_invert, "l"),
    "bitwise_not": (_invert, "l"),
    "conjugate": (lambda a: a, "p"),
    "signbit": (lambda a: core.lt(lift(a), lift(0)), "b"),
    "copysign": (
        _nz(lambda a, b: core.ite_num(bterm(core.lt(b, lift(0))), core.neg(core.absolute(a)), core.absolute(a))),
        "f",
    ),
    "heaviside": (
        _nz(lambda a, b: core.ite_num(bterm(core.lt(a, lift(0))), lift(0.0), core.ite_num(bterm(core.eq(a, lift(0))), b, core.ite_num(a.nan, a, lift(1.0))))),
        "f",
    ),
}


def _out_dtype(kind, ins):
    dts = [dtype_of(x) for x in ins]
    if kind in "bl":
        if kind == "l":
            d = functools.reduce(np.promote_types, dts)
            return d
        return np.dtype(bool)
    # python scalars are weak (NEP 50)
    strong = [
        d
        for x, d in zip(ins, dts)
        if isinstance(x, (SymArray, np.ndarray, np.generic)) or is_sym(x)
    ]
    weak = [d for x, d in zip(ins, dts) if not (isinstance(x, (SymArray, np.ndarray, np.generic)) or is_sym(x))]
    d = functools.reduce(np.promote_types, strong) if strong else functools.reduce(np.promote_types, weak)
    for w in weak:
        if w.kind == "f" and d.kind in "iub":
            d = np.dtype(np.float64)
        elif w.kind in "i" and d.kind == "b":
            d = np.dtype(np.int64)
        elif w.kind == "c":
            d = np.promote_types(d, np.complex128 if d.kind != "f" or d.itemsize > 4 else np.complex64)
    if kind == "f" and d.kind in "iub":
        d = np.dtype(np.float64)
    return d


def _concrete_item(x):
    return not is_sym(x)


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    out = kwargs.pop("out", None)
    if out is not None and isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kwargs.pop("where", True)
    dtype = real_dtype(kwargs.pop("dtype", None))
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    for x in inputs:
        if not (
            isinstance(x, (SymArray, np.ndarray, np.generic, list, tuple))
            or is_sym(x)
            or core.is_num(x)
            or isinstance(x, (complex, str, bytes))
            or x is None
        ):
            if hasattr(x, "__array_ufunc__") and not hasattr(x, "_symx_array"):
                return NotImplemented
    if ufunc is np.matmul and method == "__call__":
        return matmul(*inputs)
    if isinstance(ufunc, np.ufunc) and ufunc.signature is not None:
        if not any(has_sym(x) for x in inputs):
            return rewrap(ufunc(*[concrete(x) for x in inputs], **kwargs))
        raise Unsupported("gufunc %s" % ufunc.__name__)
    if method == "__call__":
        if not any(has_sym(x) for x in inputs) and not has_sym(where):
            res = ufunc(*[concrete(x) for x in inputs])
            if dtype is not None:
                res = res.astype(dtype)
            if isinstance(res, tuple):
                return tuple(rewrap(r) for r in res)
            res = rewrap(res)
        else:
            if ufunc.nout != 1:
                raise Unsupported("ufunc %s" % ufunc.__name__)
            ent = UFUNCS.get(ufunc.__name__)
            if ent is None:
                raise Unsupported("ufunc %s" % ufunc.__name__)
            f, kind = ent
            ins = [wrap(x) if isinstance(x, (list, tuple)) else x for x in inputs]
            rd = _out_dtype(kind, ins) if dtype is None else np.dtype(dtype)
            if rd.kind == "c":
                raise Unsupported("symbolic complex arithmetic")
            os_ = [obj(x) for x in ins]
            bc = np.broadcast(*os_) if len(os_) > 1 else None
            shape = bc.shape if bc is not None else os_[0].shape
            if len(os_) > 1:
                os_ = [np.broadcast_to(o, shape) for o in os_]
            r = np.empty(shape, dtype=object)
            fr = r.reshape(-1)
            fl = [o.reshape(-1) if o.flags.c_contiguous else o.ravel() for o in os_]
            dts = [dtype_of(x) for x in ins]
            for i in range(fr.size):
                args = [o[i] for o in fl]
                if any(is_sym(a) for a in args):
                    v = f(*args)
                else:
                    with np.errstate(all="ignore"):
                        v = ufunc(*args)
                fr[i] = v if (is_sym(v) and kind == "b") else box(v, rd)
            res = finish(r, rd)
        if where is not True and where is not np.True_:
            if out is None:
                raise Unsupported("ufunc where= without out=")
            base = out
            w = obj(where)
            res = where_impl(wrap(w, np.dtype(bool)), res, base)
        if out is not None:
            if isinstance(out, SymArray):
                out[...] = res
                return out
            if isinstance(out, np.ndarray):
                if has_sym(res):
                    raise Unsupported("symbolic result into a real ndarray")
                out[...] = concrete(res)
                return out
            raise Unsupported("ufunc out=")
        return res
    if method == "reduce":
        axis = kwargs.pop("axis", 0)
        keepdims = kwargs.pop("keepdims", False)
        initial = kwargs.pop("initial", None)
        name = {
            "add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min",
            "logical_and": "all", "logical_or": "any", "fmax": "nanmax", "fmin": "nanmin",
            "bitwise_or": "any", "bitwise_and": "all",
        }.get(ufunc.__name__)
        if name is None:
            if not any(has_sym(x) for x in inputs):
                return rewrap(ufunc.reduce(*[concrete(x) for x in inputs], axis=axis, keepdims=keepdims))
            raise Unsupported("ufunc %s.reduce" % ufunc.__name__)
        if initial is np._NoValue:
            initial = None
        return REDUCE[name](inputs[0], axis=axis, keepdims=keepdims, dtype=dtype, initial=initial)
    if method == "accumulate":
        axis = kwargs.pop("axis", 0)
        f = UFUNCS[ufunc.__name__][0]
        return accumulate(inputs[0], axis, f, ufunc)
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        A = SymArray(a.reshape(a.shape + (1,) * b.ndim), dtype_of(inputs[0]))
        return ufunc(A, SymArray(b, dtype_of(inputs[1])))
    if method == "at" and not is_sym(inputs[0]):
        target, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx = concrete(idx) if not has_sym(idx) else None
        if idx is None:
            raise Unsupported("ufunc.at with symbolic index")
        idx = np.atleast_1d(np.asarray(idx))
        vo = np.broadcast_to(obj(vals), idx.shape) if vals is not None else None
        for k, i in enumerate(idx.ravel()):
            cur = target[_int(i)]
            target[_int(i)] = ufunc(cur, vo.ravel()[k]) if vo is not None else ufunc(cur)
        return None
    raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))


def rewrap(x):
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, tuple):
        return type(x)(*[rewrap(i) for i in x]) if hasattr(x, "_fields") else tuple(rewrap(i) for i in x)
    if isinstance(x, list):
        return [rewrap(i) for i in x]
    return x


def accumulate(x, axis, f, ufunc):
    x = wrap(x)
    if x.ndim == 0:
        raise TypeError("cannot accumulate on a scalar")
    o = np.moveaxis(x.a, axis, 0)
    out = np.empty(o.shape, dtype=object)
    acc = None
    for i in range(o.shape[0]):
        if acc is None:
            acc = o[i]
        else:
            acc = obj(ufunc(finish2(acc, x.dtype), finish2(o[i], x.dtype)))
        out[i] = acc if isinstance(acc, np.ndarray) and acc.ndim else (acc[()] if isinstance(acc, np.ndarray) else acc)
    return SymArray(np.moveaxis(out, 0, axis), x.dtype)


def finish2(o, dtype):
    return SymArray(o, dtype) if isinstance(o, np.ndarray) else o


# ------------------------------------------------------------------ the array class
class _Flat:
    def __init__(self, a):
        self.s = a

    def __iter__(self):
        return iter([self.s._item(v) for v in self.s.a.ravel()])

    def __getitem__(self, i):
        return SymArray(self.s.a.ravel(), self.s.dtype)[i]

    def __setitem__(self, i, v):
        flat = np.arange(self.s.a.size)[i]
        for k, j in enumerate(np.atleast_1d(flat)):
            ix = np.unravel_index(j, self.s.a.shape)
            self.s[ix] = v if not hasattr(v, "__len__") else v[k]

    def __len__(self):
        return self.s.a.size


def norm_index(idx, shape):
    """Replace SymArray indices by real arrays; symbolic boolean masks are decided
    element by element (forking)."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    for i in idx:
        if isinstance(i, SymArray):
            if i.symbolic:
                i = decide(i)
            else:
                i = i.to_numpy()
            if i.ndim == 0 and i.dtype.kind in "iu":
                i = _int(i)
        elif isinstance(i, SymNum):
            i = i.__index__()
        elif isinstance(i, SymBool):
            i = _bool(i)
        elif isinstance(i, list) and has_duck(i):
            w = wrap(i)
            i = decide(w) if w.symbolic else w.to_numpy()
        elif isinstance(i, slice):
            i = slice(*[x.__index__() if isinstance(x, SymNum) else (_int(x) if isinstance(x, SymArray) else x) for x in (i.start, i.stop, i.step)])
        elif not isinstance(i, (np.ndarray, list, tuple)) and hasattr(i, "values") and not isinstance(i, np.generic):
            v = i.values
            return norm_index(tuple(out) + (v,) + tuple(idx[len(out) + 1 :]), shape)
        out.append(i)
    return tuple(out)


def decide(x):
    """Concretise a symbolic bool / int array by forking."""
    if x.dtype.kind == "b":
        r = np.empty(x.shape, dtype=bool)
        fr, fi = r.reshape(-1), x.a.ravel()
        for k in range(fr.size):
            v = fi[k]
            fr[k] = _bool(v) if isinstance(v, SymBool) else _bool(v)
        return r
    if x.dtype.kind in "iu":
        r = np.empty(x.shape, dtype=np.int64)
        fr, fi = r.reshape(-1), x.a.ravel()
        for k in range(fr.size):
            v = fi[k]
            fr[k] = core.concretize_int(v) if isinstance(v, SymNum) else _int(v)
        return r
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


class SymArray:
    __array_priority__ = 2000
    _symx_array = True
    __slots__ = ("a", "dtype", "__weakref__")

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype)

    # ---- basic attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros(self.shape, self.dtype)

    @property
    def base(self):
        return None

    @property
    def flags(self):
        return self.a.flags

    @property
    def strides(self):
        return self.a.strides

    @property
    def symbolic(self):
        if self.dtype == object:
            return any(is_sym(v) for v in self.a.reshape(-1))
        for v in self.a.reshape(-1):
            if is_sym(v):
                return True
        return False

    @property
    def data(self):
        return self

    def to_numpy(self, dtype=None):
        if self.symbolic and self.dtype != bool:
            raise Unsupported("a symbolic array reached code that needs a real ndarray")
        r = np.empty(self.shape, dtype=self.dtype)
        if self.symbolic:  # booleans: one path for every pattern
            fr, fi = r.reshape(-1), self.a.reshape(-1)
            for i in range(fr.size):
                fr[i] = bool(fi[i])
            return r
        if self.dtype == object:
            r[...] = self.a
            return r
        fr, fi = r.reshape(-1), self.a.reshape(-1)
        for i in range(fr.size):
            fr[i] = fi[i]
        return r

    def __array__(self, dtype=None, copy=None):
        dtype = real_dtype(dtype)
        r = self.to_numpy()
        return r if dtype is None else r.astype(dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npf

        return npf.dispatch(func, args, kwargs)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _item(self, v):
        return v

    def _symx_item(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def item(self, *args):
        if args:
            return self.a.item(*args)
        v = self._symx_item()
        return v.item() if isinstance(v, np.generic) else v

    def __getitem__(self, idx):
        if isinstance(idx, _int):
            r = self.a[idx]
        elif isinstance(idx, str):
            raise IndexError("only integers, slices ... are valid indices")
        else:
            r = self.a[norm_index(idx, self.shape)]
        if isinstance(r, np.ndarray):
            return SymArray(r, self.dtype)
        return r

    def __setitem__(self, idx, val):
        # scalar/array value through a symbolic boolean mask: if-then-else
        if isinstance(val, (list, tuple)) or hasattr(val, "_symx_array") or isinstance(val, np.ndarray) or is_sym(val):
            v = wrap(val)
        elif hasattr(val, "values") and not isinstance(val, np.generic):
            v = wrap(val.values)
        else:
            v = wrap(np.asarray(val))
        if hasattr(idx, "values") and not isinstance(idx, (SymArray, np.ndarray, np.generic)):
            idx = idx.values
        if isinstance(idx, SymBool):
            idx = wrap(idx)
        if isinstance(idx, SymArray) and idx.dtype == bool and idx.symbolic and v.size == 1 and idx.ndim <= self.ndim:
            m = idx.a
            sv = box(v.a.reshape(-1)[0], self.dtype) if not is_sym(v.a.reshape(-1)[0]) else cast(v.a.reshape(-1)[0], self.dtype)
            for ix in np.ndindex(m.shape):
                c = m[ix]
                if is_sym(c):
                    sub = self.a[ix]
                    if isinstance(sub, np.ndarray):
                        for jx in np.ndindex(sub.shape):
                            sub[jx] = core.ite(c, sv, sub[jx])
                    else:
                        self.a[ix] = core.ite(c, sv, sub)
                elif c:
                    self.a[ix] = sv
            return
        nidx = norm_index(idx, self.shape) if not isinstance(idx, _int) else idx
        o = v.a
        if v.dtype != self.dtype:
            o = np.empty(v.shape, dtype=object)
            fo, fi = o.reshape(-1), v.a.reshape(-1)
            for i in range(fo.size):
                fo[i] = box(fi[i], self.dtype)
        if o.ndim == 0:
            tgt = self.a[nidx]
            if isinstance(tgt, np.ndarray):
                # broadcast scalar without letting numpy iterate over it
                fill = np.empty(tgt.shape, dtype=object)
                fill.fill(o[()])
                self.a[nidx] = fill
            else:
                self.a[nidx] = o[()]
        else:
            tgt = self.a[nidx]
            if not isinstance(tgt, np.ndarray):
                if o.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                self.a[nidx] = o.reshape(-1)[0]
            else:
                self.a[nidx] = o

    # ---- conversions
    def astype(self, dtype, copy=True, **k):
        d = np.dtype(real_dtype(dtype))
        if d == self.dtype:
            return self.copy() if copy else self
        if not self.symbolic:
            return wrap(self.to_numpy().astype(d))
        out = np.empty(self.shape, dtype=object)
        fo, fi = out.reshape(-1), self.a.reshape(-1)
        for i in range(fo.size):
            fo[i] = box(fi[i], d)
        return SymArray(out, d)

    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if not a or a[0] == self.dtype:
            return SymArray(self.a.view(), self.dtype)
        raise Unsupported("ndarray.view(dtype)")

    def tolist(self):
        def rec(o):
            if o.ndim == 0:
                v = o[()]
                return v.item() if isinstance(v, np.generic) else v
            return [rec(x) if isinstance(x, np.ndarray) else (x.item() if isinstance(x, np.generic) else x) for x in o]

        return rec(self.a)

    def fill(self, v):
        self[...] = v

    def _one(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
            )
        return self.a.reshape(-1)[0]

    def __bool__(self):
        return _bool(self._one())

    def __float__(self):
        return _float(self._symx_item())

    def __int__(self):
        return _int(self._symx_item())

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._symx_item())

    def __complex__(self):
        return complex(self._symx_item())

    def __round__(self, n=None):
        return np.round(self, n or 0)

    def __contains__(self, v):
        return _bool(np.any(self == v))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return "SymArray(%r, dtype=%s)" % (self.a.tolist(), self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return (SymArray, (self.a, self.dtype))

    # ---- shape manipulation
    def reshape(self, *s, **k):
        if len(s) == 1:
            s = s[0]
        return SymArray(self.a.reshape(_shape(s)), self.dtype)

    def ravel(self, order="C"):
        return SymArray(self.a.ravel(), self.dtype)

    def flatten(self, order="C"):
        return SymArray(self.a.flatten(), self.dtype)

    def transpose(self, *ax):
        return SymArray(self.a.transpose(*ax), self.dtype)

    def swapaxes(self, i, j):
        return SymArray(self.a.swapaxes(i, j), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def repeat(self, n, axis=None):
        return SymArray(self.a.repeat(concrete(n), axis), self.dtype)

    def take(self, i, axis=None, **k):
        return np.take(self, i, axis=axis)

    def diagonal(self, *a, **k):
        return SymArray(self.a.diagonal(*a, **k), self.dtype)

    def resize(self, *a, **k):
        raise Unsupported("ndarray.resize")

    def newbyteorder(self, *a):
        return self


def _shape(s):
    if isinstance(s, SymArray):
        s = s.to_numpy()
    if isinstance(s, np.ndarray):
        return tuple(_int(i) for i in np.atleast_1d(s))
    if isinstance(s, (tuple, list)):
        return tuple(_int(i) for i in s)
    return _int(s)


def _method_via_np(name, npname=None):
    npname = npname or name

    def m(self, *a, **k):
        return getattr(np, npname)(self, *a, **k)

    m.__name__ = name
    return m


for _n in (
    "sum mean std var min max any all argmin argmax cumsum cumprod prod nonzero "
    "clip round searchsorted trace dot ptp argsort compress choose"
).split():
    if not hasattr(np, _n):
        continue
    setattr(SymArray, _n, _method_via_np(_n))


def _sort_inplace(self, axis=-1, **k):
    self.a[...] = np.sort(self, axis=axis).a


SymArray.sort = _sort_inplace
SymArray.conj = SymArray.conjugate = lambda self: self

_BIN = dict(
    add="add", sub="subtract", mul="multiply", truediv="true_divide", floordiv="floor_divide",
    mod="remainder", pow="power", lt="less", le="less_equal", gt="greater", ge="greater_equal",
    eq="equal", ne="not_equal", matmul="matmul",
)
_BIN.update({"and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"})


def _mk(op, ufn):
    uf = getattr(np, ufn)

    def f(self, o):
        if o is None and op in ("eq", "ne"):
            return full(self.shape, op == "ne", np.dtype(bool))
        if isinstance(o, str):
            o = np.asarray(o)
        if _defers(o):
            return NotImplemented
        return uf(self, o)

    def rf(self, o):
        if _defers(o):
            return NotImplemented
        return uf(o, self)

    def inp(self, o):
        r = uf(self, o)
        if r.dtype != self.dtype and not np.can_cast(r.dtype, self.dtype, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(uf, "same_kind", r.dtype, self.dtype, 0)
        self[...] = r
        return self

    return f, rf, inp


def _defers(o):
    return (
        not isinstance(o, (SymArray, SymNum, SymBool, np.ndarray, np.generic))
        and hasattr(o, "__array_priority__")
        or type(o).__module__.split(".")[0] in ("xarray", "pandas")
    )


for _op, _uf in _BIN.items():
    _f, _rf, _i = _mk(_op, _uf)
    setattr(SymArray, "__%s__" % _op, _f)
    if _op not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(SymArray, "__r%s__" % _op, _rf)
        setattr(SymArray, "__i%s__" % _op, _i)
SymArray.__neg__ = lambda self: np.negative(self)
SymArray.__pos__ = lambda self: self.copy()
SymArray.__abs__ = lambda self: np.absolute(self)
SymArray.__invert__ = lambda self: np.invert(self)


# ------------------------------------------------------------------ creation
def full(shape, v, dtype=None):
    shape = _shape(shape)
    if not isinstance(shape, tuple):
        shape = (shape,)
    o = np.empty(shape, dtype=object)
    if isinstance(v, (SymArray, np.ndarray, list, tuple)):
        r = SymArray(o, dtype or wrap(v).dtype)
        r[...] = v
        return r
    d = np.dtype(dtype) if dtype is not None else dtype_of(v)
    o.fill(box(v, d))
    return SymArray(o, d)


def zeros(shape, dtype=None):
    return full(shape, 0, np.dtype(dtype or np.float64))


# ------------------------------------------------------------------ reductions
def axes_of(nd, axis):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(_int(a) % nd for a in axis)
    return (_int(axis) % nd if nd else 0,)


def reduce_groups(x, axis, keepdims, f, dtype):
    """f maps a list of scalars to one scalar."""
    if x.ndim == 0:
        return f([x.a[()]])
    ax = axes_of(x.ndim, axis)
    rest = [i for i in range(x.ndim) if i not in ax]
    o = x.a.transpose(rest + list(ax))
    rshape = tuple(x.shape[i] for i in rest)
    n = 1
    for i in ax:
        n *= x.shape[i]
    o = o.reshape(rshape + (n,)) if x.size else np.empty(rshape + (n,), dtype=object)
    out = np.empty(rshape, dtype=object)
    for ix in np.ndindex(rshape):
        out[ix] = f(list(o[ix]))
    if keepdims:
        out = out.reshape([1 if i in ax else x.shape[i] for i in range(x.ndim)])
    return finish(out, dtype)


def _fold(f, xs):
    r = xs[0]
    for y in xs[1:]:
        r = f(r, y)
    return r


def _add_all(ls):
    """Sum over the reals: known values first, the others as a balanced tree."""
    fix = [x for x in ls if isinstance(x.v, Fraction) and x.nan is False and x.pinf is False and x.ninf is False]
    rest = [x for x in ls if not (isinstance(x.v, Fraction) and x.nan is False and x.pinf is False and x.ninf is False)]
    if len(fix) > 1:
        fix = [_fold(core.add, fix)]
    rest = fix + rest
    while len(rest) > 1:
        rest = [core.add(rest[i], rest[i + 1]) if i + 1 < len(rest) else rest[i] for i in range(0, len(rest), 2)]
    return rest[0]


def s_sum(xs, zero=None):
    xs = [lift(x) for x in xs]
    if not xs:
        return np.float64(0) if zero is None else zero
    return lower(_add_all(xs))


def s_mean(xs):
    if not xs:
        return np.float64(np.nan)
    r = core.div(_add_all([lift(x) for x in xs]), lift(_float(len(xs))))
    r.isint = False
    return lower(r)


def s_var(xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0:
        return np.float64(np.nan)
    m = lift(s_mean(xs))
    d = [core.sub(lift(x), m) for x in xs]
    return lower(core.div(_add_all([core.mul(e, e) for e in d]), lift(_float(n - ddof))))


def s_std(xs, ddof=0):
    v = s_var(xs, ddof)
    return lower(funcs.sqrt(lift(v)))


def s_sorted(xs):
    """Sorting network (ascending); no NaN expected."""
    xs = [lift(x) for x in xs]
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            if isinstance(a.v, Fraction) and isinstance(b.v, Fraction) and a.noinf and b.noinf:
                if a.v > b.v:
                    xs[j], xs[j + 1] = b, a
                continue
            xs[j], xs[j + 1] = core.minimum(a, b), core.maximum(a, b)
    return xs


def _trim(ls):
    """Drop pairs of known values, one certainly below and one certainly above the middle: the median stays the same."""
    n = len(ls)
    if n < 12:
        return ls
    fix = [x for x in ls if isinstance(x.v, Fraction) and x.pinf is False and x.ninf is False]
    rest = [x for x in ls if not (isinstance(x.v, Fraction) and x.pinf is False and x.ninf is False)]
    k = len(rest)
    fix.sort(key=lambda x: x.v)
    # known value number i (from 0) has a rank of at most i+k+1 among all n
    drop = min((n - 1) // 2 - k, (len(fix) - 1) // 2)
    return fix[drop : len(fix) - drop] + rest if drop > 0 else ls


def s_median(xs):
    if not xs:
        return np.float64(np.nan)
    ls = [lift(x) for x in xs]
    anynan = b_or(*[x.nan for x in ls])
    if anynan is True:
        return np.float64(np.nan)
    s = s_sorted(_trim([SymNum(x.v, False, x.pinf, x.ninf, x.isint) for x in ls]))
    n = len(s)
    if n % 2:
        r = s[n // 2]
    else:
        r = core.div(core.add(s[n // 2 - 1], s[n // 2]), lift(2.0))
    r = SymNum(r.v, b_or(r.nan, anynan), r.pinf, r.ninf)
    return lower(r)


def drop_nan(xs):
    """Keep the non-NaN entries, forking on symbolic NaN flags."""
    out = []
    for x in xs:
        n = lift(x)
        isn = n.nan if isinstance(n.nan, (_bool, np.bool_)) else ENG.branch(n.nan)
        if not isn:
            out.append(SymNum(n.v, False, n.pinf, n.ninf, n.isint))
    return out


def s_nansum(xs):
    xs = [lift(x) for x in xs]
    if not xs:
        return np.float64(0)
    z = lift(0.0)
    return lower(_add_all([core.ite_num(x.nan, z, x) for x in xs]))


def s_max(xs):
    return lower(_fold(core.maximum, [lift(x) for x in xs]))


def s_min(xs):
    return lower(_fold(core.minimum, [lift(x) for x in xs]))


def s_nanmax(xs):
    return lower(_fold(lambda a, b: core.maximum(a, b, False), [lift(x) for x in xs]))


def s_nanmin(xs):
    return lower(_fold(lambda a, b: core.minimum(a, b, False), [lift(x) for x in xs]))


def s_any(xs):
    return mkbool(b_or(*[bterm(x) for x in xs]))


def s_all(xs):
    return mkbool(b_and(*[bterm(x) for x in xs]))


def s_prod(xs):
    if not xs:
        return np.float64(1)
    return lower(_fold(core.mul, [lift(x) for x in xs]))


def s_argext(xs, better, nanfirst=True, skipna=False):
    """Index of the extremum, decided by forking (numpy: first NaN wins)."""
    if not xs:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = None
    for i, x in enumerate(xs):
        isn = _bool(core.isnan(x))
        if isn:
            if skipna:
                continue
            return np.int64(i)
        if best is None or _bool(mkbool(bterm(better(lift(x), lift(xs[best]))))):
            best = i
    if best is None:
        raise ValueError("All-NaN slice encountered")
    return np.int64(best)


def _red(f, outdt, npf=None, empty=None):
    def g(x, axis=None, keepdims=False, dtype=None, initial=None, where=None, out=None, **kw):
        x = wrap(x)
        keepdims = _bool(keepdims) if keepdims is not np._NoValue else False
        if initial is np._NoValue:
            initial = None
        if where is not None and where is not np._NoValue and where is not True:
            raise Unsupported("reduction with where=")
        if not x.symbolic and npf is not None and not is_sym(initial):
            k = {}
            if initial is not None:
                k["initial"] = initial
            if dtype is not None:
                k["dtype"] = real_dtype(dtype)
            k.update(kw)
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    r = rewrap(npf(x.to_numpy(), axis=axis, keepdims=keepdims, **k))
        else:
            d = outdt(x.dtype) if callable(outdt) else outdt
            if dtype is not None:
                d = np.dtype(real_dtype(dtype))
            if kw.get("ddof") is not None:
                ff = lambda xs: f(xs, ddof=kw["ddof"])
            else:
                ff = f
            if initial is not None:
                f0 = ff
                ff = lambda xs: f0(xs + [initial])
            kk = [a for a in kw if a not in ("ddof", "overwrite_input", "mean", "correction")]
            if kk:
                raise Unsupported("reduction keyword %s" % kk)
            if d is not None:
                f1 = ff
                ff = lambda xs: box(f1(xs), d)
            r = reduce_groups(x, axis, keepdims, ff, d)
        if out is not None and out is not np._NoValue:
            out[...] = r
            return out
        return r

    return g


def _sumdt(d):
    return np.dtype(np.int64) if d.kind in "b" else d


def _fltdt(d):
    return np.dtype(np.float64) if d.kind in "iub" else d


_B = np.dtype(bool)
REDUCE = {
    "sum": _red(s_sum, _sumdt, np.sum),
    "prod": _red(s_prod, _sumdt, np.prod),
    "mean": _red(s_mean, _fltdt, np.mean),
    "std": _red(s_std, _fltdt, np.std),
    "var": _red(s_var, _fltdt, np.var),
    "median": _red(s_median, _fltdt, np.median),
    "max": _red(s_max, lambda d: d, np.max),
    "min": _red(s_min, lambda d: d, np.min),
    "any": _red(s_any, _B, np.any),
    "all": _red(s_all, _B, np.all),
    "nansum": _red(s_nansum, _sumdt, np.nansum),
    "nanprod": _red(lambda xs: s_prod(drop_nan(xs)), _sumdt, np.nanprod),
    "nanmean": _red(lambda xs: s_mean(drop_nan(xs)), _fltdt, np.nanmean),
    "nanstd": _red(lambda xs, ddof=0: s_std(drop_nan(xs), ddof), _fltdt, np.nanstd),
    "nanvar": _red(lambda xs, ddof=0: s_var(drop_nan(xs), ddof), _fltdt, np.nanvar),
    "nanmedian": _red(lambda xs: s_median(drop_nan(xs)), _fltdt, np.nanmedian),
    "nanmax": _red(s_nanmax, lambda d: d, np.nanmax),
    "nanmin": _red(s_nanmin, lambda d: d, np.nanmin),
    "count_nonzero": _red(
        lambda xs: s_sum([mkbool(bterm(x)) for x in xs]), np.dtype(np.int64), np.count_nonzero
    ),
    "argmax": _red(lambda xs: s_argext(xs, core.gt), np.dtype(np.int64), np.argmax),
    "argmin": _red(lambda xs: s_argext(xs, core.lt), np.dtype(np.int64), np.argmin),
    "nanargmax": _red(lambda xs: s_argext(xs, core.gt, skipna=True), np.dtype(np.int64), np.nanargmax),
    "nanargmin": _red(lambda xs: s_argext(xs, core.lt, skipna=True), np.dtype(np.int64), np.nanargmin),
    "ptp": _red(lambda xs: lower(core.sub(lift(s_max(xs)), lift(s_min(xs)))), lambda d: d, np.ptp),
}


def where_impl(c, x=None, y=None):
    c = wrap(c)
    xs, ys = wrap(x) if not isinstance(x, SymArray) else x, wrap(y) if not isinstance(y, SymArray) else y
    d = _out_dtype("p", [x if not isinstance(x, (list, tuple)) else xs, y if not isinstance(y, (list, tuple)) else ys])
    co, xo, yo = np.broadcast_arrays(c.a, xs.a, ys.a)
    out = np.empty(co.shape, dtype=object)
    for ix in np.ndindex(co.shape):
        cv = co[ix]
        if is_sym(cv):
            a, b = xo[ix], yo[ix]
            if d.kind not in "fiub":
                v = a if _bool(cv) else b
            else:
                v = core.ite(cv, box(a, d) if not is_sym(a) else cast(a, d), box(b, d) if not is_sym(b) else cast(b, d))
            out[ix] = v
        else:
            out[ix] = box(xo[ix] if cv else yo[ix], d)
    return SymArray(out, d)


def matmul(a, b):
    return dot(a, b)


def dot(a, b):
    a, b = wrap(a), wrap(b)
    d = _out_dtype("p", [a, b])
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        return s_sum([core.mul(lift(x), lift(y)) for x, y in zip(a.a, b.a)]) if len(a) else np.float64(0)
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(a.shape[:-1]):
            out[ix] = dot(SymArray(a.a[ix], a.dtype), b)
        return SymArray(out, d)
    if a.ndim == 1:
        bt = np.moveaxis(b.a, -2, -1)
        out = np.empty(bt.shape[:-1], dtype=object)
        for ix in np.ndindex(bt.shape[:-1]):
            out[ix] = dot(a, SymArray(bt[ix], b.dtype))
        return SymArray(out, d)
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = dot(SymArray(a.a[i], a.dtype), SymArray(b.a[:, j], b.dtype))
        return SymArray(out, d)
    raise Unsupported("dot of higher dimensions")
