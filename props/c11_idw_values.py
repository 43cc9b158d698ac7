"""Inverse distance weighting: values."""
import numpy as np

from pycomlink.spatial import idw as I
from symx.harness import Case
from props.util import total

FUNCTIONS = ["spatial.idw.Invdisttree.__init__", "spatial.idw.Invdisttree.__call__", "spatial.idw._numba_idw_loop"]
BOUNDS = ("up to 4 data points on a line (symbolic positions) or 3-4 points in the plane (fixed, symbolic query point), symbolic values, exponents 1 to 3, "
          "2 to 5 neighbours, symbolic distance limit; vector values of length 2")
OUTSIDE = ("ties between the last used and the first unused neighbour, distances in (0, 1e-3), approximate search (eps > 0), rounding")
STUBS = ["scipy.spatial.cKDTree on symbolic coordinates follows its documented contract (nearest first, strictly inside the limit, missing = inf and n)"]
BUDGET = {"quick": 240, "thorough": 2400}


def sqrt(x):
    import symx.core as core
    from symx import funcs

    return core.lower(funcs.sqrt(core.lift(x))) if core.is_sym(x) else np.sqrt(x)


def dist1(h, x, q):
    t = x - q
    return t if bool(t >= 0) else -t


def select(h, keys, nnear, limit_of, label=True):
    """-> indices of the used points: at most nnear, nearest, inside the limit.  Ties at the cut are outside the bounds."""
    n = len(keys)
    ok = [i for i in range(n) if limit_of is None or bool(limit_of(i))]
    rank = {i: 0 for i in ok}
    for a in range(len(ok)):
        for b in range(a):
            i, j = ok[a], ok[b]
            d = keys[i] - keys[j]
            h.assume(h.or_(d > 1e-6, d < -1e-6))
            if bool(d < 0):
                rank[j] += 1
            else:
                rank[i] += 1
    return sorted((i for i in ok if rank[i] < nnear), key=lambda i: rank[i])


def expected(h, ds, sel, z, p):
    if not sel:
        return np.nan
    if bool(ds[sel[0]] == 0):
        return z[sel[0]]
    w = [1 / ds[i] ** p for i in sel]
    return total([wi * z[i] for wi, i in zip(w, sel)]) / total(w)


def line(n, nnear, p, limit=False):
    def fn(h):
        xs = [h.real("x%d" % i, -10, 10) for i in range(n)]
        z = h.array("z", n)
        q = h.real("q", -10, 10)
        lim = h.real("max_distance", 0.5, 20) if limit else None
        tree = h.call(I.Invdisttree, h.mk([[x] for x in xs]))
        ds = [dist1(h, x, q) for x in xs]
        for d in ds:
            h.assume(h.or_(d == 0, d >= 1e-3))
            if limit:
                h.assume(h.or_(d - lim > 1e-6, lim - d > 1e-6))
        r = h.call(tree, h.mk([[q]]), z, nnear=nnear, p=p, max_distance=lim)
        h.equal_obj(tuple(r.shape), (1,), "shape")
        h.observe("value", r)
        sel = select(h, ds, nnear, (lambda i: ds[i] < lim) if limit else None)
        h.eq(r[0], expected(h, ds, sel, z, p), "value")

    return fn


PTS = {
    3: [(0.0, 0.0), (4.0, 1.0), (1.0, 5.0)],
    4: [(0.0, 0.0), (4.0, 1.0), (1.0, 5.0), (-3.0, 2.0)],
}


def plane(n, nnear, p, limit=False):
    pts = PTS[n]

    def fn(h):
        z = h.array("z", n)
        qx, qy = h.real("qx", -6, 6), h.real("qy", -6, 6)
        lim = h.choose("max_distance", [2.0, 4.5]) if limit else None
        tree = h.call(I.Invdisttree, np.array(pts))
        sq = [(x - qx) * (x - qx) + (y - qy) * (y - qy) for x, y in pts]
        lin = [x * x + y * y - 2 * x * qx - 2 * y * qy for x, y in pts]
        for s in sq:
            h.assume(s >= 1e-4)
            if limit:
                h.assume(h.or_(s > lim * lim + 1e-4, s < lim * lim - 1e-4))
        r = h.call(tree, h.mk([[qx, qy]]), z, nnear=nnear, p=p, max_distance=lim)
        h.observe("value", r)
        sel = select(h, lin, nnear, (lambda i: sq[i] < lim * lim) if limit else None)
        if not sel:
            h.true(h.isnan(r[0]), "no neighbour")
            return
        ds = [sqrt(s) for s in sq]
        w = [1 / ds[i] ** p for i in sel]
        h.eq(r[0], total([wi * z[i] for wi, i in zip(w, sel)]) / total(w), "value")

    return fn


def at_point(h):
    """At a data point the value is exactly that of the point, whatever the others are."""
    pts = PTS[4]
    z = h.array("z", 4, nan=True)
    k = h.choose("k", [0, 1, 2, 3])
    nn = h.choose("nnear", [2, 3, 6])
    p = h.choose("p", [1, 2])
    tree = h.call(I.Invdisttree, np.array(pts))
    r = h.call(tree, np.array([pts[k]]), z, nnear=nn, p=p)
    h.eq(r[0], z[k], "value at data point %d" % k)


def convex(n, nnear):
    """Between the smallest and the largest value; exact for a constant field."""
    pts = PTS[n]

    def fn(h):
        z = h.array("z", n)
        q = h.choose("q", [(0.5, 0.5), (3.0, -2.0), (1.0, 2.0), (40.0, -30.0), (0.0, 1e-6)])
        p = h.choose("p", [1, 2, 3, 0.5, 1.75, 6, 10])
        tree = h.call(I.Invdisttree, np.array(pts))
        r = h.call(tree, np.array([q]), z, nnear=nnear, p=p)[0]
        lo = hi = z[0]
        for v in list(z)[1:]:
            lo, hi = h.minimum(lo, v), h.maximum(hi, v)
        h.true(h.and_(r >= lo - 1e-6, r <= hi + 1e-6), "between smallest and largest value")

    return fn


def vector(h):
    """Vector values are interpolated per component; several query points one by one."""
    pts = PTS[3]
    z = h.array("z", (3, 2))
    qs = [(0.5, 0.5), (4.0, 1.0), (30.0, 1.0)]
    lim = h.choose("max_distance", [None, 6.0])
    p = h.choose("p", [1, 2, 1.5, 8])
    nn = h.choose("nnear", [2, 3, 4])
    tree = h.call(I.Invdisttree, np.array(pts))
    r = h.call(tree, np.array(qs), z, nnear=nn, p=p, max_distance=lim)
    h.equal_obj(tuple(r.shape), (3, 2), "shape")
    for k, q in enumerate(qs):
        d = [float(np.hypot(q[0] - a, q[1] - b)) for a, b in pts]
        sel = [i for i in np.argsort(d)[:nn] if lim is None or d[i] < lim]
        for c in range(2):
            if not sel:
                h.true(h.isnan(r[k, c]), "no neighbour")
            elif d[sel[0]] == 0:
                h.eq(r[k, c], z[sel[0], c], "value")
            else:
                w = [d[i] ** -p for i in sel]
                h.eq(r[k, c], total([(wi / sum(w)) * z[i, c] for wi, i in zip(w, sel)]), "value")


def single(h):
    """One query point instead of a batch."""
    z = h.array("z", 3)
    q = h.choose("q", [(0.5, 0.5), (4.0, 1.0)])
    tree = h.call(I.Invdisttree, np.array(PTS[3]))
    a = h.call(tree, np.array(q), z, nnear=3, p=2)
    b = h.call(tree, np.array([q]), z, nnear=3, p=2)
    h.eq(a, b[0], "single query point")


def at_limit(h):
    """a point exactly at the distance limit is not used"""
    z = h.array("z", 3)
    q, nn = (0.0, 0.0), h.choose("nnear", [2, 3, 5])
    pts = [(3.0, 4.0), (0.0, 1.0), (-2.0, 0.0)]
    lim = h.choose("max_distance", [5.0, 2.0, 1.0, 5.0625, 0.0, 0.5, 1e9])
    tree = h.call(I.Invdisttree, np.array(pts))
    r = h.call(tree, np.array([q]), z, nnear=nn, p=1, max_distance=lim)
    d = [5.0, 1.0, 2.0]
    sel = [i for i in (1, 2, 0)[:nn] if d[i] < lim]
    if not sel:
        h.true(h.isnan(r[0]), "no neighbour strictly inside the limit")
        return
    w = [1 / d[i] for i in sel]
    h.eq(r[0], total([(wi / sum(w)) * z[i] for wi, i in zip(w, sel)]), "points strictly inside the limit")


def very_many(h):
    many(h, 1500)


def many_neighbours(h):
    many(h, 6, 300, [(100, 1), (280, 2)])


def many(h, m=40, n=60, ways=((2, 1), (12, 2), (40, 2), (5, 2.5), (3, 0.25))):
    """many points (fixed positions) and query points, mostly fixed values"""
    pts = [((i * 37 % 101) / 4.0, (i * 53 % 103) / 4.0 + i // 101 / 8.0) for i in range(n)]
    qs = [((i * 29 % 97) / 4.0 + 0.0625, (i * 41 % 89) / 4.0 + 0.03125 + i // 500 / 64) for i in range(m)]
    z = [(i * 31 % 83) / 7.0 for i in range(n)]
    for i in (0, 17, 59):
        z[i] = h.real("z%d" % i, -100, 100)
    nn, p = h.choose("nnear, p", list(ways))
    lim = h.choose("max_distance", [None, 4.0])
    tree = h.call(I.Invdisttree, np.array(pts), leafsize=h.choose("leafsize", [2, 10]))
    r = h.call(tree, np.array(qs), h.mk(z), nnear=nn, p=p, max_distance=lim)
    h.equal_obj(tuple(r.shape), (m,), "shape")
    for k, q in enumerate(qs):
        d = [float(np.hypot(q[0] - a, q[1] - b)) for a, b in pts]
        o = sorted(range(n), key=lambda i: d[i])
        if nn < n and d[o[nn]] - d[o[nn - 1]] < 1e-9:
            continue  # tie at the cut
        sel = [i for i in o[:nn] if lim is None or d[i] < lim]
        if not sel:
            h.true(h.isnan(r[k]), "no neighbour")
            continue
        w = [d[i] ** -p for i in sel]
        h.eq(r[k], total([(wi / sum(w)) * z[i] for wi, i in zip(w, sel)]), "value at query point %d" % k)


def defaults(h):
    """Without further arguments: six neighbours, weighted with 1/distance, no limit."""
    pts = [(0.0, 0.0), (4.0, 1.0), (1.0, 5.0), (-3.0, 2.0), (7.0, 7.5), (2.0, -6.0), (-9.0, 1.0), (90.0, 3.0)]
    z = h.array("z", 8)
    q = h.choose("q", [(0.5, 0.75), (30.0, 0.0)])
    tree = h.call(I.Invdisttree, np.array(pts))
    r = h.call(tree, np.array([q]), z)
    d = [float(np.hypot(q[0] - a, q[1] - b)) for a, b in pts]
    sel = np.argsort(d)[:6]
    w = [1 / d[i] for i in sel]
    h.eq(r[0], total([(wi / sum(w)) * z[i] for wi, i in zip(w, sel)]), "value with default arguments")


def close_queries(h):
    """metres far from the origin: query points that differ by little from those of the call before"""
    ox, oy = h.choose("origin", [(600000.0, 5000000.0), (0.0, 0.0), (1e-7, 2e-7)])
    s = 1e-8 if ox == 1e-7 else 1.0
    pts = [(ox + s * a, oy + s * b) for a, b in ((0.0, 0.0), (10.0, 1.0), (3.0, -6.0))]
    tree = h.call(I.Invdisttree, np.array(pts))
    q = np.array([(ox + s * 1.0, oy + s * 0.5), (ox + s * 7.0, oy - s * 2.0)])
    move = h.choose("move", ["first", "second", "in place"])
    for k in range(3):
        z = h.array("z%d" % k, 3, -100, 100)
        if k:
            if move != "in place":
                q = q.copy()
            q[1 if move == "second" else 0] += (s * 1.5, s * 0.25 * k)
        r = h.call(tree, q, z, nnear=3, p=2)
        for j in range(2):
            w = [float(np.hypot(q[j][0] - a, q[j][1] - b)) ** -2 for a, b in pts]
            h.eq(r[j], total([(wi / sum(w)) * zi for wi, zi in zip(w, z)]), "call %d, query point %d" % (k + 1, j))


def errors(h):
    what = h.choose("what", ["nnear", "length"])
    tree = h.call(I.Invdisttree, np.array(PTS[3]))
    if what == "nnear":
        h.raises(ValueError, tree, np.array([(0.5, 0.5)]), h.array("z", 3), nnear=h.choose("n", [1, 0, -2]), label="nnear rejected")
    else:
        h.raises(AssertionError, tree, np.array([(0.5, 0.5)]), h.array("z", h.choose("n", [2, 4])), nnear=3, label="length rejected")


def cases(tier):
    q = tier == "quick"
    cs = []
    for n, nn, p in [(2, 2, 1), (3, 2, 2), (3, 5, 1), (3, 3, 2)] + ([] if q else [(4, 2, 1), (4, 3, 2), (4, 6, 1), (3, 3, 3)]):
        cs.append(Case("line n=%d nnear=%d p=%d" % (n, nn, p), line(n, nn, p), sqrt_def=False))
    for n, nn, p in [(2, 2, 2), (3, 2, 1)] + ([] if q else [(3, 3, 2), (4, 2, 1)]):
        cs.append(Case("line limit n=%d nnear=%d p=%d" % (n, nn, p), line(n, nn, p, True), sqrt_def=False))
    for n, nn, p in [(3, 3, 2), (3, 2, 1)] + ([] if q else [(4, 3, 2), (4, 2, 3), (4, 6, 1)]):
        cs.append(Case("plane n=%d nnear=%d p=%d" % (n, nn, p), plane(n, nn, p), sqrt_def=False, quad_thresholds=True))
    cs.append(Case("plane limit", plane(3, 3, 2, True), sqrt_def=False, quad_thresholds=True))
    cs.append(Case("data points", at_point))
    cs.append(Case("between extremes", convex(4, 3)))
    cs.append(Case("between extremes few points", convex(3, 8)))
    cs.append(Case("vector values", vector))
    cs.append(Case("single point", single))
    cs.append(Case("many points", many, bounds="60 points, 40 query points"))
    cs.append(Case("very many query points", very_many, bounds="60 points, 1500 query points", history=False))
    cs.append(Case("many neighbours", many_neighbours, bounds="300 points, 280 neighbours", history=False))
    cs.append(Case("default arguments", defaults))
    cs.append(Case("at the limit", at_limit))
    cs.append(Case("close query points", close_queries))
    cs.append(Case("errors", errors))
    return cs
