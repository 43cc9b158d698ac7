"""Helpers shared by the property modules."""
import numpy as np
import pandas as pd
import xarray as xr

NAN = float("nan")


def times(n, freq="min", start="2020-01-01"):
    return pd.date_range(start, periods=n, freq=freq)


def flags(h, name, n, nan=True):
    """n wet/dry flags, each dry, wet or (optionally) unknown: all combinations are explored."""
    opts = [0.0, 1.0, NAN] if nan else [0.0, 1.0]
    return [h.choose("%s[%d]" % (name, i), opts) for i in range(n)]


def level(i, k=37):
    """fixed, irregular numbers in [-62.5, -50]"""
    return -50.0 - (i * k % 101) / 8.1


def long_flags(n, lengths=(1, 2, 40, 3, 70, 1), dry=(3, 1, 7, 2)):
    """fixed flags with short and long events"""
    out, i = [], 0
    if n > 5000:
        lengths = lengths + (1600,)
    while len(out) < n:
        out += [0.0] * dry[i % len(dry)] + [1.0] * lengths[i % len(lengths)]
        i += 1
    return out[:n]


def fl(x):
    return float(x)


def isnan(x):
    return x != x


def total(xs):
    xs = list(xs)
    while len(xs) > 1:  # balanced, so that terms do not get too deep
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def _fun(name):
    """A real function that works in both modes."""

    def f(*xs):
        import symx.core as core
        from symx import funcs

        if any(core.is_sym(x) for x in xs):
            return core.lower(getattr(funcs, name)(*[core.lift(x) for x in xs]))
        return getattr(np, name)(*xs)

    return f


sqrt, exp, sin, cos, log, arctan2 = [_fun(n) for n in ("sqrt", "exp", "sin", "cos", "log", "arctan2")]


def gc_stub():
    """Symbolic mode: great circle distance as an uninterpreted symmetric function of the two positions, elementwise."""
    import symx.core as core
    from symx import arr, funcs
    from pycomlink.spatial import helper

    real = helper.haversine
    funcs.register("greatcircle", lambda a, b, c, d: float(real(a, b, c, d)))

    def scalar(a, b, c, d):
        xs = [a, b, c, d]
        if not any(core.is_sym(x) for x in xs):
            return float(real(*[float(x) for x in xs]))
        ls = [core.lift(x) for x in xs]
        can = funcs._state(core.ENG)
        k = [can.key(x.v) for x in ls]
        if repr(k[2:]) < repr(k[:2]):
            ls = ls[2:] + ls[:2]
        nan = core.b_or(*[x.nan for x in ls])
        return funcs.uf("greatcircle", [core.lower(core.SymNum(x.v)) for x in ls], nan)

    def f(lon1, lat1, lon2, lat2):
        xs = [lon1, lat1, lon2, lat2]
        ref = next((x for x in xs if isinstance(x, xr.DataArray) and x.ndim), None)
        raw = [x.data if isinstance(x, xr.DataArray) else x for x in xs]
        w = [arr.wrap(np.asarray(x, dtype=object)) if not isinstance(x, arr.SymArray) else x for x in raw]
        o = np.broadcast_arrays(*[x.a for x in w])
        out = np.empty(o[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = scalar(*[x[ix] for x in o])
        if out.ndim == 0:
            return out[()]
        r = arr.SymArray(out, np.float64)
        return ref.copy(data=r) if ref is not None else r

    return [(helper, "haversine", f)]
