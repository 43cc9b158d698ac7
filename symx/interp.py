"""scipy.interpolate.interp1d on symbolic arguments: exact piecewise polynomial of the real object."""
import bisect
from fractions import Fraction

import numpy as np
import scipy.interpolate as si

from . import arr, core
from .arr import SymArray, wrap
from .core import ENG, SymNum, Unsupported, b_and, b_not, b_or, bterm, is_sym, lift, lower, mkbool

REAL = si.interp1d


def _conc(x):
    x = getattr(x, "data", x) if type(x).__module__.split(".")[0] == "xarray" else x
    if isinstance(x, SymArray):
        if arr.has_sym(x):
            raise Unsupported("interp1d with symbolic nodes")
        return np.array(x.a.tolist(), dtype=float)
    return np.asarray(x)


class SymInterp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.x, self.y = _conc(x), _conc(y)
        self.kind = kind
        self.bounds_error = bounds_error
        self.fill_value = fill_value
        self.real = REAL(self.x, self.y, kind=kind, axis=axis, copy=copy, bounds_error=bounds_error,
                         fill_value=fill_value, assume_sorted=assume_sorted)

    def _pp(self):
        """-> sorted breakpoints, list of coefficient lists (highest power first, in x - x_i)"""
        if self.y.ndim != 1:
            raise Unsupported("interp1d of %d-d data" % self.y.ndim)
        if self.kind == "linear" or self.kind == 1:
            o = np.argsort(self.x, kind="mergesort")
            x, y = self.x[o].astype(float), self.y[o].astype(float)
            br = [Fraction(float(v)) for v in x]
            cs = []
            for i in range(len(x) - 1):
                y0, y1 = Fraction(float(y[i])), Fraction(float(y[i + 1]))
                d = br[i + 1] - br[i]
                cs.append([(y1 - y0) / d if d != 0 else Fraction(0), y0])
            return br, cs
        sp = getattr(self.real, "_spline", None)
        if sp is None:
            raise Unsupported("interp1d kind %r" % (self.kind,))
        pp = si.PPoly.from_spline((np.asarray(sp.t), np.asarray(sp.c).ravel(), int(sp.k)))
        c, b = np.asarray(pp.c), np.asarray(pp.x)
        c = c.reshape(c.shape[0], c.shape[1])
        br, cs = [], []
        for i in range(len(b) - 1):
            if b[i + 1] <= b[i]:
                continue
            br.append(Fraction(float(b[i])))
            cs.append([Fraction(float(v)) for v in c[:, i]])
        br.append(Fraction(float(b[-1])))
        return br, cs

    def __call__(self, xn):
        if type(xn).__module__.split(".")[0] == "xarray":
            xn = xn.data
        if not arr.has_duck([xn]) and not is_sym(xn):
            return self.real(xn)
        if isinstance(xn, SymArray) and not arr.has_sym(xn):
            return wrap(self.real(np.array(xn.a.tolist(), dtype=float).reshape(xn.shape)))
        w = wrap(xn)
        br, cs = self._pp()
        fv = self.fill_value
        if isinstance(fv, str) or (isinstance(fv, tuple)):
            raise Unsupported("interp1d fill_value %r" % (fv,))
        be = self.bounds_error
        if be is None:
            try:
                be = bool(np.isnan(fv))
            except TypeError:
                be = True
        out = np.empty(w.shape, dtype=object)
        for ix in np.ndindex(*w.shape):
            out[ix] = self._one(lift(w.a[ix]), br, cs, be, fv)
        return SymArray(out, np.dtype(float))

    def _one(self, n, br, cs, be, fv):
        lo, hi = SymNum(br[0]), SymNum(br[-1])
        below, above = bterm(core.lt(n, lo)), bterm(core.gt(n, hi))
        outside = b_or(below, above)
        if be:
            if not isinstance(outside, (bool, np.bool_)):
                outside = ENG.branch(outside)
            if outside:
                raise ValueError("A value in x_new is outside the interpolation range.")
        v = SymNum(n.v)
        if len(cs[0]) <= 2:
            r = None
            for i in range(len(cs) - 1, -1, -1):
                val = core.add(core.mul(SymNum(cs[i][0]), core.sub(v, SymNum(br[i]))), SymNum(cs[i][1]))
                r = val if r is None else core.ite_num(bterm(core.le(v, SymNum(br[i + 1]))), val, r)
        else:
            a, b = 0, len(cs)
            while b - a > 1:
                m = (a + b) // 2
                c = bterm(core.ge(v, SymNum(br[m])))
                if not isinstance(c, (bool, np.bool_)):
                    c = ENG.branch(b_or(n.nan, c))
                if c:
                    a = m
                else:
                    b = m
            d = core.sub(v, SymNum(br[a]))
            r = SymNum(Fraction(0))
            for c in cs[a]:
                r = core.add(core.mul(r, d), SymNum(c))
        res = SymNum(r.v, b_or(n.nan, r.nan))
        if not be:
            res = core.ite_num(outside, lift(fv), res)
        return lower(res)
