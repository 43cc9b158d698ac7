"""numpy functions on SymArrays (NEP-18 dispatch) and the numpy namespace proxy."""
import builtins
import types
import warnings

import numpy as np

from . import arr, core, funcs
from .arr import (
    REDUCE,
    SymArray,
    axes_of,
    box,
    cast,
    concrete,
    decide,
    dtype_of,
    finish,
    full,
    has_duck,
    has_sym,
    obj,
    real_dtype,
    reduce_groups,
    rewrap,
    where_impl,
    wrap,
    wrap_dt,
)
from .core import (
    ENG,
    SymBool,
    SymNum,
    Unsupported,
    b_and,
    b_not,
    b_or,
    bterm,
    is_sym,
    lift,
    lower,
    mkbool,
)

_bool = builtins.bool
_int = builtins.int

TABLE = {}


def reg(*fs):
    def d(g):
        for f in fs:
            if f is not None:
                TABLE[f] = g
        return g

    return d


def dispatch(func, args, kwargs):
    g = TABLE.get(func)
    if g is not None:
        return g(*args, **kwargs)
    if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
        ca = [concrete(a) for a in args]
        ck = {k: (real_dtype(v) if k == "dtype" else concrete(v)) for k, v in kwargs.items()}
        return rewrap(func(*ca, **ck))
    raise Unsupported("numpy.%s" % getattr(func, "__name__", func))


# ---- reductions
for _n, _f in REDUCE.items():
    if hasattr(np, _n):
        TABLE[getattr(np, _n)] = _f
TABLE[np.amax] = REDUCE["max"]
TABLE[np.amin] = REDUCE["min"]


# ---- structural functions: run numpy itself on the object arrays
def _struct(func, argn=(0,), seq=False):
    def g(*args, **kw):
        args = list(args)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("order", None) if func not in (np.ravel, np.reshape) else None
        if seq:
            parts = [wrap(x) for x in args[0]]
            d = wrap_dt(parts)
            parts = [p.astype(d, copy=False) for p in parts]
            r = func([p.a for p in parts], *[concrete(a) for a in args[1:]], **{k: concrete(v) for k, v in kw.items()})
            return finish_keep(r, d)
        d = None
        for i in argn:
            if i < len(args):
                w = wrap(args[i])
                d = w.dtype if d is None else np.promote_types(d, w.dtype)
                args[i] = w.a
        for i in range(len(args)):
            if i not in argn:
                args[i] = concrete(args[i])
        r = func(*args, **{k: concrete(v) for k, v in kw.items()})
        return finish_keep(r, d)

    return g


def finish_keep(r, d):
    if isinstance(r, np.ndarray):
        return SymArray(r, d)
    if isinstance(r, tuple):
        return tuple(finish_keep(x, d) for x in r)
    if isinstance(r, list):
        return [finish_keep(x, d) for x in r]
    return r


for _n in (
    "reshape ravel transpose moveaxis swapaxes rollaxis expand_dims squeeze broadcast_to roll "
    "flip fliplr flipud rot90 tile repeat split array_split hsplit vsplit dsplit diag "
    "diagonal tril triu delete resize trim_zeros permute_dims matrix_transpose"
).split():
    if hasattr(np, _n):
        TABLE[getattr(np, _n)] = _struct(getattr(np, _n))
for _n in "concatenate stack vstack hstack column_stack dstack concat".split():
    if hasattr(np, _n):
        TABLE[getattr(np, _n)] = _struct(getattr(np, _n), seq=True)
for _n in "atleast_1d atleast_2d atleast_3d".split():
    _f = getattr(np, _n)

    def _al(*xs, _f=_f):
        rs = [SymArray(_f(wrap(x).a), wrap(x).dtype) for x in xs]
        return rs[0] if len(rs) == 1 else tuple(rs)

    TABLE[_f] = _al
TABLE[np.lib.stride_tricks.sliding_window_view] = _struct(np.lib.stride_tricks.sliding_window_view)
TABLE[np.lib.stride_tricks.as_strided] = _struct(np.lib.stride_tricks.as_strided)


@reg(np.append)
def _append(a, v, axis=None):
    a, v = wrap(a), wrap(v)
    if axis is None:
        a, v, axis = a.ravel(), v.ravel(), 0
    return np.concatenate([a, v], axis=axis)


@reg(np.insert)
def _insert(a, i, v, axis=None):
    a, v = wrap(a), wrap(v)
    return SymArray(np.insert(a.a, concrete(i), v.astype(a.dtype).a, axis=axis), a.dtype)


@reg(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = wrap(x)
    if ord not in (None, 2, "fro") or (axis is not None and not isinstance(axis, (int, np.integer))):
        raise Unsupported("np.linalg.norm")
    if axis is None and ord == 2 and x.ndim > 1:
        raise Unsupported("matrix norm")
    return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))


@reg(np.pad)
def _pad(a, pad_width, mode="constant", **kw):
    a = wrap(a)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        kw["constant_values"] = _padvals(cv, a.dtype)
    elif mode not in ("edge", "wrap", "reflect", "symmetric", "empty"):
        raise Unsupported("np.pad mode %s" % mode)
    return SymArray(np.pad(a.a, concrete(pad_width), mode=mode, **kw), a.dtype)


def _padvals(v, d):
    if isinstance(v, (tuple, list)):
        return type(v)(_padvals(i, d) for i in v)
    return box(v, d)


@reg(np.take)
def _take(a, indices, axis=None, out=None, mode="raise"):
    a = wrap(a)
    if has_sym(indices):
        indices = decide(wrap(indices))
    r = np.take(a.a, concrete(indices), axis=axis, mode=mode)
    return SymArray(r, a.dtype) if isinstance(r, np.ndarray) else r


@reg(np.take_along_axis)
def _taa(a, ix, axis=-1):
    a = wrap(a)
    ix = decide(wrap(ix)) if has_sym(ix) else np.asarray(concrete(ix))
    return SymArray(np.take_along_axis(a.a, ix, axis), a.dtype)


@reg(np.put_along_axis)
def _paa(a, ix, v, axis):
    np.put_along_axis(a.a, np.asarray(concrete(ix)), wrap(v).astype(a.dtype).a, axis)


@reg(np.compress)
def _compress(c, a, axis=None, out=None):
    c = decide(wrap(c)) if has_sym(c) else np.asarray(concrete(c))
    return SymArray(np.compress(c, wrap(a).a, axis=axis), wrap(a).dtype)


@reg(np.extract)
def _extract(c, a):
    return wrap(a).ravel()[wrap(c).ravel()]


@reg(np.broadcast_arrays)
def _bca(*xs, **k):
    ws = [wrap(x) for x in xs]
    return tuple(SymArray(o, w.dtype) for o, w in zip(np.broadcast_arrays(*[w.a for w in ws]), ws))


@reg(np.meshgrid)
def _mesh(*xs, **k):
    ws = [wrap(x) for x in xs]
    return tuple(SymArray(np.array(o), w.dtype) for o, w in zip(np.meshgrid(*[w.a.ravel() for w in ws], **k), ws))


@reg(np.copy)
def _copy(a, order="K", subok=False):
    return wrap(a).copy()


@reg(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_impl(where, src, dst)


@reg(np.putmask)
def _putmask(a, mask, values):
    v = wrap(values)
    if v.size == 1:
        a[...] = where_impl(mask, v.a.reshape(-1)[0], a)
    else:
        a[...] = where_impl(mask, v.reshape(a.shape), a)


@reg(np.place)
def _place(a, mask, vals):
    a[wrap(mask)] = vals


@reg(np.ndim)
def _ndim(a):
    return wrap(a).ndim


@reg(np.shape)
def _shape(a):
    return wrap(a).shape


@reg(np.size)
def _size(a, axis=None):
    a = wrap(a)
    return a.size if axis is None else a.shape[axis]


# ---- creation
def _like(fillv):
    def g(a, dtype=None, order="K", subok=True, shape=None, device=None):
        a = wrap(a)
        d = real_dtype(dtype)
        return full(a.shape if shape is None else shape, fillv, np.dtype(d) if d is not None else a.dtype)

    return g


TABLE[np.zeros_like] = _like(0)
TABLE[np.ones_like] = _like(1)
TABLE[np.empty_like] = _like(0)


@reg(np.full_like)
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, device=None):
    a = wrap(a)
    d = real_dtype(dtype)
    return full(a.shape if shape is None else shape, fill_value, np.dtype(d) if d is not None else a.dtype)


# ---- selection
@reg(np.where)
def _where(c, x=None, y=None):
    if x is None and y is None:
        return _nonzero(c)
    return where_impl(c, x, y)


@reg(np.nonzero)
def _nonzero(a):
    a = wrap(a)
    m = decide(a.astype(bool)) if a.symbolic else a.to_numpy()
    return tuple(wrap(x) for x in np.nonzero(m))


@reg(np.flatnonzero)
def _flatnonzero(a):
    return _nonzero(wrap(a).ravel())[0]


@reg(np.argwhere)
def _argwhere(a):
    a = wrap(a)
    m = decide(a.astype(bool)) if a.symbolic else a.to_numpy()
    return wrap(np.argwhere(m))


@reg(np.select)
def _select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where_impl(c, x, r)
    return r


@reg(np.piecewise)
def _piecewise(x, condlist, funclist, *a, **k):
    x = wrap(x)
    conds = list(condlist) if isinstance(condlist, (list, tuple)) and np.ndim(condlist[0]) > 0 or getattr(condlist, "ndim", 0) > 1 else [condlist]
    fs = list(funclist)
    conds = [decide(wrap(c).astype(bool)) if wrap(c).symbolic else wrap(c).to_numpy().astype(bool) for c in conds]
    out = wrap(np.zeros(x.shape)).astype(x.dtype) if x.dtype.kind == "f" else None
    if out is None:
        raise Unsupported("np.piecewise")
    if len(fs) == len(conds) + 1:
        rest = np.ones(x.shape, dtype=bool)
        for c in conds:
            rest &= ~c
        conds.append(rest)
    for c, f in zip(conds, fs):
        out[c] = f(x[c], *a, **k) if callable(f) else f
    return out


@reg(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, min=np._NoValue, max=np._NoValue, **k):
    lo = a_min if min is np._NoValue or min is None else min
    hi = a_max if max is np._NoValue or max is None else max
    r = a if isinstance(a, SymArray) or is_sym(a) else wrap(a)
    if lo is not None and lo is not np._NoValue:
        r = np.maximum(r, lo)
    if hi is not None and hi is not np._NoValue:
        r = np.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@reg(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = wrap(x)
    r = np.where(np.isnan(x), nan, x)
    if not copy:
        x[...] = r
        return x
    return r


@reg(np.round, getattr(np, "around", None))
def _round(a, decimals=0, out=None):
    a = wrap(a)
    if a.dtype.kind in "iub":
        return a.copy()
    if decimals == 0:
        return np.rint(a)
    s = 10.0**decimals
    return np.rint(a * s) / s


TABLE[np.fix] = lambda x, out=None: np.trunc(wrap(x))
TABLE[np.real] = lambda x: x
TABLE[np.iscomplexobj] = lambda x: False
TABLE[np.isrealobj] = lambda x: True
TABLE[np.iscomplex] = lambda x: full(wrap(x).shape, False, np.dtype(bool))
TABLE[np.isreal] = lambda x: full(wrap(x).shape, True, np.dtype(bool))
TABLE[np.may_share_memory] = lambda a, b, *k: np.may_share_memory(wrap(a).a, wrap(b).a)
TABLE[np.shares_memory] = lambda a, b, *k: np.shares_memory(wrap(a).a, wrap(b).a)
TABLE[np.can_cast] = lambda a, b, **k: np.can_cast(dtype_of(a) if has_duck(a) else a, b, **k)
TABLE[np.min_scalar_type] = lambda a: dtype_of(a)


@reg(np.result_type)
def _result_type(*xs):
    r = []
    for x in xs:
        x = real_dtype(x)
        r.append(x.dtype if isinstance(x, (SymArray, SymNum, SymBool)) else x)
    return np.result_type(*r)


@reg(np.common_type)
def _common_type(*xs):
    return np.float64


# ---- truth, comparison of arrays
@reg(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    try:
        a, b = wrap(a), wrap(b)
    except Unsupported:
        return False
    if a.shape != b.shape:
        return False
    e = a == b
    if equal_nan:
        e = e | (np.isnan(a) & np.isnan(b))
    return _bool(REDUCE["all"](e))


@reg(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = wrap(a), wrap(b)
    e = np.abs(a - b) <= (atol + rtol * np.abs(b))
    if equal_nan:
        e = e | (np.isnan(a) & np.isnan(b))
    return e


@reg(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _bool(REDUCE["all"](_isclose(a, b, rtol, atol, equal_nan)))


@reg(np.isin, getattr(np, "in1d", None))
def _isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    e = wrap(element)
    t = [x for x in wrap(test_elements).a.ravel()]
    if not e.symbolic and not any(is_sym(x) for x in t):
        return rewrap(np.isin(e.to_numpy(), concrete(test_elements), invert=invert))
    out = np.empty(e.shape, dtype=object)
    for ix in np.ndindex(e.shape):
        v = e.a[ix]
        r = mkbool(b_or(*[bterm(v == x) for x in t]))
        out[ix] = mkbool(b_not(bterm(r))) if invert else r
    return SymArray(out, bool)


# ---- statistics and calculus
@reg(np.average)
def _average(a, axis=None, weights=None, returned=False, **k):
    a = wrap(a)
    if weights is None:
        return np.mean(a, axis=axis)
    w = wrap(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    return np.sum(a * w, axis=axis) / np.sum(w * np.ones_like(a), axis=axis)


@reg(np.diff)
def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = wrap(a)
    if prepend is not np._NoValue:
        a = np.concatenate([np.atleast_1d(wrap(prepend)), a], axis=axis)
    if append is not np._NoValue:
        a = np.concatenate([a, np.atleast_1d(wrap(append))], axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s0 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s0[axis] = slice(None, -1)
        a = (a[tuple(s1)] != a[tuple(s0)]) if a.dtype == bool else a[tuple(s1)] - a[tuple(s0)]
    return a


@reg(np.ediff1d)
def _ediff1d(a, **k):
    return _diff(wrap(a).ravel())


@reg(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if a.dtype == bool:
        a = a.astype(np.int64)
    return arr.accumulate(a, axis, None, np.add)


@reg(np.cumprod)
def _cumprod(a, axis=None, dtype=None, out=None):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return arr.accumulate(a, axis, None, np.multiply)


@reg(np.nancumsum)
def _nancumsum(a, axis=None, **k):
    return _cumsum(_nan_to_num(a), axis)


@reg(np.cov)
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = [list(r.a) for r in ([wrap(m)] if wrap(m).ndim == 1 else list(wrap(m)))]
    if y is not None:
        X += [list(r.a) for r in ([wrap(y)] if wrap(y).ndim == 1 else list(wrap(y)))]
    if not rowvar:
        X = [list(c) for c in zip(*X)]
    n = len(X[0])
    dd = ddof if ddof is not None else (0 if bias else 1)
    mu = [arr.s_mean(x) for x in X]
    out = np.empty((len(X), len(X)), dtype=object)
    for i in range(len(X)):
        for j in range(len(X)):
            s = arr.s_sum([(a - mu[i]) * (b - mu[j]) for a, b in zip(X[i], X[j])])
            out[i, j] = lower(core.div(lift(s), lift(float(n - dd))))
    return SymArray(out, np.float64) if len(X) > 1 else out[0, 0]


@reg(np.corrcoef)
def _corrcoef(x, y=None, rowvar=True, **k):
    c = _cov(x, y, rowvar)
    n = c.shape[0]
    out = np.empty((n, n), dtype=object)
    sd = [lower(funcs.sqrt(lift(c.a[i, i]))) for i in range(n)]
    for i in range(n):
        for j in range(n):
            out[i, j] = lower(core.div(core.div(lift(c.a[i, j]), lift(sd[i])), lift(sd[j])))
    return SymArray(out, np.float64)


TABLE[np.dot] = lambda a, b, out=None: arr.dot(a, b)
TABLE[np.vdot] = lambda a, b: arr.dot(wrap(a).ravel(), wrap(b).ravel())
TABLE[np.inner] = lambda a, b: arr.dot(a, b) if wrap(a).ndim <= 1 else arr.dot(a, np.transpose(b))


@reg(np.outer)
def _outer(a, b, out=None):
    return np.multiply(wrap(a).reshape(-1, 1), wrap(b).reshape(1, -1))


@reg(np.einsum)
def _einsum(subscripts, *ops, **kw):
    ins, out = (subscripts.split("->") + [None])[:2] if "->" in subscripts else (subscripts, None)
    terms = [t.strip() for t in ins.split(",")]
    if out is None:
        allc = "".join(terms)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    out = out.strip()
    if "." in subscripts:
        raise Unsupported("einsum ellipsis")
    ws = [wrap(o) for o in ops]
    dims = {}
    for t, w in zip(terms, ws):
        for c, n in zip(t, w.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in np.ndindex(res.shape):
        env = dict(zip(out, ix))
        acc = []
        for jx in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, jx))
            p = lift(1.0)
            for t, w in zip(terms, ws):
                p = core.mul(p, lift(w.a[tuple(env[c] for c in t)]))
            acc.append(p)
        res[ix] = arr.s_sum(acc)
    return finish(res, np.float64)


@reg(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    x, xp, fp = wrap(x), wrap(xp), wrap(fp)
    if period is not None:
        raise Unsupported("interp period")
    xs = [lift(v) for v in xp.a]
    ys = [lift(v) for v in fp.a]

    def f(v):
        v = lift(v)
        lo = ys[0] if left is None else lift(left)
        hi = ys[-1] if right is None else lift(right)
        r = hi
        r = core.ite_num(bterm(core.le(v, xs[-1])), ys[-1], hi)
        for i in range(len(xs) - 2, -1, -1):
            seg = core.add(ys[i], core.mul(core.div(core.sub(ys[i + 1], ys[i]), core.sub(xs[i + 1], xs[i])), core.sub(v, xs[i])))
            r = core.ite_num(bterm(core.lt(v, xs[i + 1])), seg, r)
        r = core.ite_num(bterm(core.lt(v, xs[0])), lo, r)
        return lower(SymNum(r.v, b_or(r.nan, v.nan), r.pinf, r.ninf))

    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(x.shape):
        out[ix] = f(x.a[ix])
    return finish(out, np.float64)


@reg(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = _int(num)
    a, b = lift(start), lift(stop)
    dv = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        if i == 0:
            v = a
        elif endpoint and i == num - 1:
            v = b
        else:
            v = core.add(a, core.mul(core.sub(b, a), lift(i / dv)))
        out[i] = box(lower(v), np.dtype(np.float64))
    # numpy computes start + step*i, so a NaN in stop poisons the interior and
    # (because 0*nan is nan) the first element as well
    if num > 1:
        nn = b_or(a.nan, b.nan)
        if nn is not False:
            out[0] = lower(SymNum(a.v, nn, a.pinf, a.ninf))
    return SymArray(out, np.float64)


@reg(np.trapezoid if hasattr(np, "trapezoid") else None)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(y)
    d = np.diff(x) if x is not None else dx
    return np.sum((y[1:] + y[:-1]) / 2.0 * d)


@reg(np.gradient)
def _gradient(*a, **k):
    raise Unsupported("np.gradient")


@reg(np.convolve)
def _convolve(a, v, mode="full"):
    a, v = wrap(a), wrap(v)
    n, m = len(a), len(v)
    out = []
    for k in range(n + m - 1):
        out.append(arr.s_sum([a.a[i] * v.a[k - i] for i in range(n) if 0 <= k - i < m]))
    if mode == "valid":
        out = out[m - 1 : n] if n >= m else out[n - 1 : m]
    elif mode == "same":
        L = builtins.max(n, m)
        s = (len(out) - L) // 2
        out = out[s : s + L]
    return wrap(out, np.dtype(np.float64))


# ---- sorting and searching
@reg(np.sort)
def _sort(a, axis=-1, **k):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not a.symbolic:
        return wrap(np.sort(a.to_numpy(), axis=axis))
    o = np.moveaxis(a.a, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape[:-1]):
        xs = list(o[ix])
        keep = arr.drop_nan(xs)
        s = arr.s_sorted(keep)
        row = [box(lower(v), a.dtype) for v in s] + [np.float64(np.nan)] * (len(xs) - len(s))
        for j, v in enumerate(row):
            out[ix + (j,)] = v
    return SymArray(np.moveaxis(out, -1, axis), a.dtype)


@reg(np.argsort)
def _argsort(a, axis=-1, **k):
    a = wrap(a)
    if not a.symbolic:
        return wrap(np.argsort(a.to_numpy(), axis=axis, kind="stable"))
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a.a, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape[:-1]):
        order = []
        nans = []
        for j, v in enumerate(o[ix]):
            if _bool(core.isnan(v)):
                nans.append(j)
                continue
            p = len(order)
            while p > 0 and _bool(mkbool(bterm(core.lt(lift(v), lift(o[ix][order[p - 1]]))))):
                p -= 1
            order.insert(p, j)
        for j, v in enumerate(order + nans):
            out[ix + (j,)] = np.int64(v)
    return SymArray(np.moveaxis(out, -1, axis), np.int64)


@reg(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    a = wrap(a)

    def one(x):
        f = core.lt if side == "left" else core.le
        s = lift(0)
        for y in a.a:
            s = core.add(s, lift(mkbool(bterm(f(lift(y), lift(x))))))
        return lower(s)

    if is_sym(v) or np.ndim(v) == 0 and not isinstance(v, SymArray):
        return one(v)
    v = wrap(v)
    out = np.empty(v.shape, dtype=object)
    for ix in np.ndindex(v.shape):
        out[ix] = one(v.a[ix])
    return finish(out, np.int64)


@reg(np.digitize)
def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


@reg(np.unique)
def _unique(a, *args, **k):
    a = wrap(a)
    if a.symbolic:
        return _sym_unique(a, *args, **k)
    return rewrap(np.unique(a.to_numpy(), *args, **k))


def _sym_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, *, equal_nan=True, sorted=True):
    if axis is not None and a.ndim > 1 or a.size > 12:
        raise Unsupported("np.unique of symbolic data")
    f = a.ravel()
    order = [int(i) for i in _argsort(f).to_numpy()]
    reps, inv = [], {}
    for j in order:
        v = f.a[j]
        if reps:
            r = f.a[reps[-1]]
            nv, nr = _bool(core.isnan(v)), _bool(core.isnan(r))
            same = (nv and nr and equal_nan) if nv or nr else _bool(mkbool(bterm(core.eq(lift(v), lift(r)))))
        else:
            same = False
        if not same:
            reps.append(j)
        inv[j] = len(reps) - 1
    out = [f[np.array(reps, dtype=int)]]
    if return_index:
        out.append(wrap(np.array(reps, dtype=int)))
    if return_inverse:
        out.append(wrap(np.array([inv[j] for j in range(f.size)], dtype=int).reshape(a.shape)))
    if return_counts:
        out.append(wrap(np.array([list(inv.values()).count(i) for i in range(len(reps))], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def _mkquant(real, scale, skipna):
    def quant(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
        a = wrap(a)
        if not a.symbolic:
            return real(a.to_numpy(), q, axis=axis, method=method, keepdims=keepdims, **k)
        if method != "linear" or keepdims or k or out is not None or np.ndim(q) > 1 or has_duck(q):
            raise Unsupported("np.quantile")
        if axis is None:
            a, axis = a.ravel(), 0
        o = np.moveaxis(a.a, axis, -1)
        res = []
        for qq in np.atleast_1d(np.asarray(q, dtype=float)) / scale:
            r = np.empty(o.shape[:-1], dtype=object)
            for ix in np.ndindex(o.shape[:-1]):
                xs = list(o[ix])
                keep = arr.drop_nan(xs)
                if not keep or len(keep) < len(xs) and not skipna:
                    r[ix] = np.float64(np.nan)
                    continue
                s = arr.s_sorted(keep)
                p = qq * (len(s) - 1)
                i = builtins.min(int(np.floor(p)), len(s) - 1)
                j = builtins.min(i + 1, len(s) - 1)
                lo, hi = lower(s[i]), lower(s[j])
                r[ix] = lo + (hi - lo) * float(p - i) if p != i else lo
            res.append(r[()] if r.ndim == 0 else SymArray(r, np.float64))
        return res[0] if np.ndim(q) == 0 else wrap(res, np.dtype(np.float64))

    return quant


for _n, _s, _k in (("quantile", 1.0, False), ("percentile", 100.0, False), ("nanquantile", 1.0, True), ("nanpercentile", 100.0, True)):
    reg(getattr(np, _n))(_mkquant(getattr(np, _n), _s, _k))


@reg(np.apply_along_axis)
def _apply_along_axis(f, axis, a, *args, **kw):
    a = wrap(a)
    o = np.moveaxis(a.a, axis, -1)
    rows = [f(SymArray(o[ix], a.dtype), *args, **kw) for ix in np.ndindex(o.shape[:-1])]
    r = wrap(rows)
    r = r.reshape(o.shape[:-1] + r.shape[1:])
    if r.ndim == a.ndim:
        return np.moveaxis(r, -1, axis)
    return r


@reg(np.array_repr, np.array_str, np.array2string)
def _repr(a, *x, **k):
    return repr(a)


@reg(np.histogram)
def _hist(*a, **k):
    raise Unsupported("np.histogram")


# ------------------------------------------------------------------ namespace proxy
def _asarray(x, dtype=None, copy=None, **k):
    d = real_dtype(dtype)
    if type(x).__module__.split(".")[0] in ("xarray", "pandas"):
        v = x.values
        x = v
    if isinstance(x, SymArray):
        if d is not None and np.dtype(d) != x.dtype:
            return x.astype(d)
        return x
    if has_duck(x):
        if isinstance(x, (list, tuple)):
            dd = np.dtype(d) if d is not None else wrap_dt(x)
            return wrap(x, dd)
        return wrap(x, np.dtype(d) if d is not None else None)
    if isinstance(x, np.ndarray) and x.dtype == object and has_sym(x):
        return wrap(x, np.dtype(d) if d is not None else None)
    if isinstance(x, (list, tuple)) and any(
        type(i).__module__.split(".")[0] in ("xarray", "pandas") for i in x
    ):
        return _asarray([_asarray(i) for i in x], d)
    r = np.asarray(x, dtype=d)
    return wrap(r)


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    r = _asarray(x, dtype)
    r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


class NumpyProxy(types.ModuleType):
    """Stands for numpy in the namespaces of the code under test: creation functions
    return SymArrays, everything else is numpy's own function (which dispatches)."""

    def __init__(self, real, name):
        super().__init__(name)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_over", {})

    def __getattr__(self, n):
        o = self._over.get(n)
        if o is not None:
            return o
        return getattr(self._real, n)


def _mk_zeros(v):
    def f(shape, dtype=float, order="C", **k):
        d = real_dtype(dtype)
        return full(concrete(shape), v, np.dtype(d if d is not None else float))

    return f


def _np_full(shape, fill_value, dtype=None, order="C", **k):
    d = real_dtype(dtype)
    return full(concrete(shape), fill_value, None if d is None else np.dtype(d))


def _arange(*a, dtype=None, **k):
    a = [lower(lift(x)) if is_sym(x) else (x._symx_item() if isinstance(x, SymArray) else x) for x in a]
    d = real_dtype(dtype)
    if any(is_sym(x) for x in a):
        start, stop, step = (lift(0), lift(a[0]), lift(1)) if len(a) == 1 else (
            (lift(a[0]), lift(a[1]), lift(1)) if len(a) == 2 else tuple(lift(x) for x in a[:3])
        )
        n = core.concretize_int(core.as_int(core.ceil(core.div(core.sub(stop, start), step))))
        isint = start.isint and step.isint
        dd = np.dtype(np.int64 if isint else np.float64)
        out = np.empty(builtins.max(n, 0), dtype=object)
        for i in range(builtins.max(n, 0)):
            out[i] = box(lower(core.add(start, core.mul(step, lift(i)))), dd)
        return SymArray(out, dd)
    return wrap(np.arange(*a, dtype=d, **{k2: v for k2, v in k.items()}))


_METHODS = set("all any argmax argmin argpartition argsort choose clip compress cumprod cumsum diagonal dot max amax "
               "mean min amin nonzero partition prod ptp put ravel repeat reshape resize round around searchsorted size "
               "sort squeeze std sum swapaxes take trace transpose var copy".split())


def _unx(x):
    if isinstance(x, (list, tuple)) and any(type(i).__module__.split(".")[0] == "xarray" for i in x):
        return type(x)(_unx(i) for i in x)
    if type(x).__module__.split(".")[0] == "xarray" and hasattr(x, "data") and hasattr(x, "dims"):
        d = x.data
        if isinstance(d, SymArray):
            return d
    return x


def _unxa(func, a, k):
    """xarray objects with symbolic data given to numpy functions that convert them to arrays"""
    if isinstance(func, np.ufunc) or getattr(func, "__name__", "") in _METHODS:
        return a, k
    return tuple(_unx(x) for x in a), {n: _unx(v) for n, v in k.items()}


def _via(func):
    """numpy function that may be called with plain data: make the result a SymArray."""

    def f(*a, **k):
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
        a, k = _unxa(func, a, k)
        if has_duck(a) or has_duck(k):
            return dispatch(func, a, k)
        return rewrap(func(*a, **k))

    f.__name__ = func.__name__
    return f


def _scalar_aware(func):
    """numpy function given bare symbolic scalars (no NEP-18 on those)."""

    def f(*a, **k):
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
        a, k = _unxa(func, a, k)
        if has_duck(a) or has_duck(k):
            return dispatch(func, a, k)
        return func(*a, **k)

    f.__name__ = getattr(func, "__name__", "f")
    return f


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArray))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.ndarray, SymArray))


class _NDArray(metaclass=_NDMeta):
    pass


def _frombool(x):
    return mkbool(bterm(x)) if is_sym(x) else np.bool_(x)


def _isscalar(x):
    return is_sym(x) or np.isscalar(x)


def build_proxy():
    p = NumpyProxy(np, "numpy")
    o = p._over
    o["zeros"] = _mk_zeros(0)
    o["ones"] = _mk_zeros(1)
    o["empty"] = _mk_zeros(0)
    o["full"] = _np_full
    o["array"] = _array
    for n in ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asarray_chkfinite"):
        o[n] = _asarray
    o["arange"] = _arange
    for n in ("linspace", "logspace", "geomspace", "eye", "identity", "tri", "fromiter", "hamming", "hanning", "blackman"):
        if hasattr(np, n):
            o[n] = _via(getattr(np, n))
    for n in ("zeros_like", "ones_like", "empty_like", "full_like", "atleast_1d", "atleast_2d", "atleast_3d", "concatenate", "stack", "vstack", "hstack", "column_stack", "append", "meshgrid", "repeat", "tile", "where"):
        o[n] = _via(getattr(np, n))
    o["ndarray"] = _NDArray
    o["isscalar"] = _isscalar
    o["vectorize"] = SymVectorize
    for n in dir(np):
        f = getattr(np, n)
        if n in o or n.startswith("_"):
            continue
        if f in TABLE if _hashable(f) else False:
            o[n] = _scalar_aware(f)
    ma = NumpyProxy(np.lib, "numpy.lib")
    return p


def _hashable(f):
    try:
        hash(f)
        return callable(f) and not isinstance(f, type)
    except TypeError:
        return False


# ------------------------------------------------------------------ np.vectorize
class SymVectorize:
    """np.vectorize that keeps symbolic scalars symbolic."""

    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.pyfunc = pyfunc
        self.signature = signature
        self.excluded = excluded or set()

    def __call__(self, *args, **kwargs):
        if kwargs:
            f0 = self.pyfunc
            f = lambda *a: f0(*a, **kwargs)
        else:
            f = self.pyfunc
        if self.signature is None:
            ws = [_ensure(a) for a in args]
            bshape = np.broadcast_shapes(*[w.shape for w in ws]) if ws else ()
            os_ = [np.broadcast_to(w.a, bshape) for w in ws]
            res = None
            for ix in np.ndindex(bshape):
                r = f(*[o[ix] for o in os_])
                if res is None:
                    n = len(r) if isinstance(r, tuple) else None
                    res = [np.empty(bshape, dtype=object) for _ in range(n or 1)]
                for k, v in enumerate(r if isinstance(r, tuple) else (r,)):
                    res[k][ix] = v
            if res is None:
                raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
            outs = [wrap(o) if o.ndim else o[()] for o in res]
            return outs[0] if n is None else tuple(outs)
        ins, outs = self.signature.split("->")
        incore = _sig(ins)
        outcore = _sig(outs)
        ws = [_ensure(a) for a in args]
        loops = []
        dims = {}
        for w, c in zip(ws, incore):
            if w.ndim < len(c):
                raise ValueError(
                    "%d-dimensional argument does not have enough dimensions for all core dimensions %r"
                    % (w.ndim, c)
                )
            loops.append(w.shape[: w.ndim - len(c)])
            for d, n in zip(c, w.shape[w.ndim - len(c) :]):
                if d in dims and dims[d] != n:
                    raise ValueError("inconsistent size for core dimension %r: %r vs %r" % (d, dims[d], n))
                dims[d] = n
        bshape = np.broadcast_shapes(*loops) if loops else ()
        bs = [np.broadcast_to(w.a, bshape + w.shape[w.ndim - len(c) :]) for w, c in zip(ws, incore)]
        results = [None] * len(outcore)
        nout = len(outcore)
        for ix in np.ndindex(bshape):
            a = []
            for o, w in zip(bs, ws):
                v = o[ix]
                if isinstance(v, np.ndarray):
                    v = SymArray(v, w.dtype) if w.dtype != object or has_sym(v) else v
                    if isinstance(v, SymArray) and w.dtype.kind in "OUS":
                        v = v.to_numpy()
                    if isinstance(v, (SymArray,)) and v.ndim == 0:
                        v = v.a[()]
                a.append(v)
            r = f(*a)
            n_results = len(r) if isinstance(r, tuple) else 1
            if nout != n_results:
                raise ValueError("wrong number of outputs from vectorized function: expected %r, got %r" % (nout, n_results))
            r = r if nout > 1 else (r,)
            for k in range(nout):
                rk = _asarray(r[k])
                if rk.ndim != len(outcore[k]):
                    raise ValueError("expected output with %d core dims, got %d" % (len(outcore[k]), rk.ndim))
                for d, n in zip(outcore[k], rk.shape):
                    if dims.setdefault(d, n) != n:
                        raise ValueError("inconsistent size for core dimension %r: %r vs %r" % (d, dims[d], n))
                if results[k] is None:
                    results[k] = (np.empty(bshape + rk.shape, dtype=object), rk.dtype)
                if rk.ndim:
                    results[k][0][ix] = rk.a
                else:
                    results[k][0][ix] = rk.a[()]
        if any(x is None for x in results):
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        outs = [SymArray(o, d) for o, d in results]
        return outs[0] if nout == 1 else tuple(outs)


def _ensure(a):
    if isinstance(a, SymArray):
        return a
    if is_sym(a):
        return wrap(a)
    x = np.asanyarray(a)
    if x.dtype == object:
        return SymArray(x, object)
    return wrap(x)


def _sig(s):
    import re

    return [
        [d.strip() for d in m.split(",") if d.strip()] for m in re.findall(r"\(([^)]*)\)", s)
    ]
