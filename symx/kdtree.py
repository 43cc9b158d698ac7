"""Contract model of scipy.spatial.cKDTree / KDTree on symbolic coordinates.

query: the k nearest points in ascending order of distance, limited to distances strictly below
distance_upper_bound; missing neighbours have distance inf and index n.  The order is found by forking on comparisons of squared distances."""
from fractions import Fraction

import numpy as np
import scipy.spatial

from . import arr, core, funcs
from .arr import SymArray, wrap
from .core import ENG, SymNum, Unsupported, is_sym, lift, lower, z3, zr

REAL = scipy.spatial.cKDTree
REAL2 = scipy.spatial.KDTree


def _sym(x):
    if isinstance(x, SymArray):
        return any(is_sym(v) for v in x.a.ravel())
    if isinstance(x, (list, tuple)):
        return any(_sym(v) for v in x)
    return is_sym(x)


def _poly(v):
    """Rebuild a term from its canonical polynomial (so that common terms cancel)."""
    if isinstance(v, Fraction):
        return v
    can = funcs._state(ENG)
    n, d = can.rat(v)
    if d is not funcs._ONE:
        return v
    if not n:
        return Fraction(0)
    if len(n) == 1 and () in n:
        return n[()]
    return can.term(n)


def less(a, b):
    """squared distances a < b, as a fork"""
    d = core.sub(lift(a), lift(b))
    return ENG.branch(core.r_cmp(__import__("operator").lt, _poly(d.v), Fraction(0)))


class SymKDTree:
    def __new__(cls, data, *a, **k):
        if not _sym(data):
            o = object.__new__(cls)
            o._real = REAL(np.asarray(data, dtype=float), *a, **k)
            o._pts = [tuple(float(x) for x in r) for r in np.asarray(data, dtype=float)]
        else:
            w = wrap(np.array([list(r) for r in data], dtype=object)) if not isinstance(data, SymArray) else data
            o = object.__new__(cls)
            o._real = None
            o._pts = [tuple(r.a) for r in w]
            for r in o._pts:
                for v in r:
                    if is_sym(v) and ENG.branch(core.b_or(lift(v).nan, lift(v).pinf, lift(v).ninf)):
                        raise ValueError("data must be finite, check for nan or inf values")
        o.n = len(o._pts)
        o.m = len(o._pts[0]) if o._pts else 0
        o.data = data
        return o

    def __init__(self, *a, **k):
        pass

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1, **kw):
        if not _sym(x) and self._real is not None and not is_sym(distance_upper_bound):
            q = np.asarray(x if not isinstance(x, SymArray) else x.a.astype(float), dtype=float)
            d, i = self._real.query(q, k=int(k), eps=eps, p=p, distance_upper_bound=float(distance_upper_bound))
            return wrap(np.asarray(d)), np.asarray(i)
        if p != 2:
            raise Unsupported("kd-tree with p=%r" % (p,))
        k = int(core.concretize_int(k)) if is_sym(k) else int(k)
        w = x if isinstance(x, SymArray) else wrap(np.array(x, dtype=object))
        one = w.ndim == 1
        rows = [tuple(w.a)] if one else [tuple(r) for r in w.a]
        D = np.empty((len(rows), k), dtype=object)
        I = np.empty((len(rows), k), dtype=np.int64)
        for r, q in enumerate(rows):
            d, ix = self._nearest(q, k, distance_upper_bound)
            D[r, :], I[r, :] = d, ix
        D = SymArray(D, np.float64)
        if k == 1:
            D, I = D[:, 0], I[:, 0]
        return (D[0], I[0]) if one else (D, I)

    def _nearest(self, q, k, ub):
        if len(q) != self.m:
            raise ValueError("x must consist of vectors of length %d but has shape %s" % (self.m, len(q)))
        if self.m == 1:
            return self._nearest1(q[0], k, ub)
        sq = []
        for pt in self._pts:
            s = SymNum(Fraction(0))
            for a, b in zip(pt, q):
                t = core.sub(lift(a), lift(b))
                s = core.add(s, core.mul(t, t))
            sq.append(lower(s))
        inf = (not is_sym(ub)) and np.isinf(float(ub))
        order = []
        for i in range(self.n):
            if not inf:
                u = lift(ub)
                if not ENG.branch(core.r_cmp(__import__("operator").gt, u.v, Fraction(0))):
                    continue
                if not less(sq[i], lower(core.mul(u, u))):
                    continue
            j = len(order)
            while j > 0 and less(sq[i], sq[order[j - 1]]):
                j -= 1
            order.insert(j, i)
        order = order[:k]
        d = [lower(funcs.sqrt(lift(sq[i]))) for i in order] + [np.inf] * (k - len(order))
        return d, order + [self.n] * (k - len(order))

    def _nearest1(self, q, k, ub):
        """one dimension: plain distances"""
        ds = []
        for (x,) in self._pts:
            t = core.sub(lift(x), lift(q))
            pos = ENG.branch(core.r_cmp(__import__("operator").ge, t.v, Fraction(0)))
            ds.append(lower(t if pos else core.neg(t)))
        inf = (not is_sym(ub)) and np.isinf(float(ub))
        order = []
        for i in range(self.n):
            if not inf and not less(ds[i], ub):
                continue
            j = len(order)
            while j > 0 and less(ds[i], ds[order[j - 1]]):
                j -= 1
            order.insert(j, i)
        order = order[:k]
        return [ds[i] for i in order] + [np.inf] * (k - len(order)), order + [self.n] * (k - len(order))
