"""Symbolic values in pandas objects (object dtype): the few reductions that pandas does in C (symbolic mode only)."""
import numpy as np
import pandas as pd
import xarray as xr

from symx import arr, core
from props.util import sqrt, total


def objarr(x):
    """symbolic array -> ndarray of objects"""
    o = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        o[ix] = x.a[ix] if isinstance(x, arr.SymArray) else x[ix]
    return o


def has(xs):
    return any(core.is_sym(x) for x in xs)


def valid(xs):
    return [x for x in xs if not bool(core.mkbool(core.lift(x).nan))]


def mean(xs):
    xs = valid(xs)
    return total(xs) / len(xs) if xs else np.nan


def corr(a, b):
    p = [(x, y) for x, y in zip(a, b) if valid([x]) and valid([y])]
    n = len(p)
    if n < 2:
        return np.nan
    mx, my = total([x for x, _ in p]) / n, total([y for _, y in p]) / n
    sxy = total([(x - mx) * (y - my) for x, y in p])
    sxx, syy = total([(x - mx) * (x - mx) for x, _ in p]), total([(y - my) * (y - my) for _, y in p])
    return sxy / (sqrt(sxx) * sqrt(syy))


def stubs():
    G = pd.core.groupby.DataFrameGroupBy
    real_mean, real_corr, real_frame, real_agg = G.mean, pd.Series.corr, xr.DataArray.to_dataframe, G.agg

    def gmean(self, *a, **k):
        if any(has(self.obj[c].values) for c in self.obj.columns if self.obj[c].dtype == object):
            return real_agg(self, lambda s: mean(list(s.values)))
        return real_mean(self, *a, **k)

    def gagg(self, func=None, *a, **k):
        if func in ("mean", np.mean) and any(has(self.obj[c].values) for c in self.obj.columns if self.obj[c].dtype == object):
            return gmean(self)
        return real_agg(self, func, *a, **k)

    def scorr(self, other, method="pearson", min_periods=None):
        if has(self.values) or has(other.values):
            if method != "pearson":
                raise core.Unsupported("corr(%r)" % method)
            x, y = self.align(other, join="inner")
            return corr(list(x.values), list(y.values))
        return real_corr(self, other, method, min_periods)

    def to_frame(self, name=None, dim_order=None):
        if isinstance(self.data, arr.SymArray):
            if self.ndim != 1:
                raise core.Unsupported("to_dataframe of a %d-dimensional array" % self.ndim)
            n = name or self.name
            if n is None:
                raise ValueError("cannot convert an unnamed DataArray to a DataFrame")
            d = self.dims[0]
            df = pd.DataFrame({n: objarr(self.data)}, index=pd.Index(self[d].values, name=d))
            for c in self.coords:
                if c != d and self[c].ndim == 0:
                    df[c] = self[c].values[()]
            return df
        return real_frame(self, name, dim_order)

    return [(G, "mean", gmean), (G, "agg", gagg), (G, "aggregate", gagg), (pd.Series, "corr", scorr), (xr.DataArray, "to_dataframe", to_frame)]
