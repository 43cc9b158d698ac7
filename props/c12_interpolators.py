"""Point to grid interpolators: gaps, grids and call histories."""
import numpy as np

from pycomlink.spatial import idw as I
from pycomlink.spatial import interpolator as P
from symx.harness import Case
from props.util import total

FUNCTIONS = ["spatial.interpolator.PointsToGridInterpolator.__call__", "spatial.interpolator.IdwKdtreeInterpolator._interpol_func",
             "spatial.interpolator.OrdinaryKrigingInterpolator._interpol_func", "spatial.interpolator._parse_grid_kwargs",
             "spatial.idw.Invdisttree.__call__"]
BOUNDS = ("3 points with symbolic values (NaN anywhere), 2x2 and 2x3 grids, histories of 2 (quick) or 3 (thorough) calls on one interpolator in which points, "
          "grid, values, neighbour count, exponent and distance limit change or stay, also by changing arrays in place; grids generated for symbolic points")
OUTSIDE = "kriging numerics (only what reaches the kriging library and how its result is laid out); longer histories; more points"
STUBS = ["pykrige.OrdinaryKriging is replaced by a recorder with a known result (both in the encoding and in replays)"]
BUDGET = {"quick": 240, "thorough": 2400}

XY = [(0.0, 0.0), (4.0, 1.0), (1.0, 5.0)]
XY2 = [(0.0, 0.0), (4.0, 1.0), (2.0, 5.0)]
GRIDS = {
    "A": np.meshgrid([0.5, 2.0], [1.0, 4.0]),
    "B": np.meshgrid([0.5, 2.0], [1.0, 4.5]),
    "C": np.meshgrid([0.5, 2.0, 3.0], [1.0, 4.0]),
}


def expected(h, xy, z, gx, gy, nnear, p, lim, exclude):
    """gx, gy flat concrete lists"""
    idx = [i for i in range(len(z)) if not (exclude and bool(h.isnan(z[i])))]
    out = []
    for a, b in zip(gx, gy):
        d = {i: float(np.hypot(xy[i][0] - a, xy[i][1] - b)) for i in idx}
        sel = [i for i in sorted(idx, key=lambda i: d[i])[:nnear] if lim is None or d[i] < lim]
        if not sel:
            out.append(np.nan)
        elif d[sel[0]] < 1e-10:
            out.append(z[sel[0]])
        else:
            w = [d[i] ** -p for i in sel]
            out.append(total([(wi / sum(w)) * z[i] for wi, i in zip(w, sel)]))
    return out


def allnan(h, z):
    return all(bool(h.isnan(v)) for v in z)


def compare(h, r, xy, z, g, nnear, p, lim, exclude, lab):
    h.equal_obj(tuple(r.shape), g[0].shape, lab + " shape")
    h.observe(lab, r)
    if allnan(h, z):
        h.true(h.and_(*[h.isnan(v) for v in list(r.ravel())]), lab + " all NaN")
        return
    e = expected(h, xy, z, list(g[0].ravel()), list(g[1].ravel()), nnear, p, lim, exclude)
    h.eq(list(r.ravel()), e, lab)


def one(exclude):
    def fn(h):
        z = h.array("z", 3, nan=True)
        g = GRIDS[h.choose("grid", ["A", "C"])]
        nn = h.choose("nnear", [2, 8])
        lim = h.choose("max_distance", [None, 3.0])
        p = h.choose("p", [1, 2, 1.5])
        ip = P.IdwKdtreeInterpolator(nnear=nn, p=p, exclude_nan=exclude, max_distance=lim)
        x, y = np.array([a for a, _ in XY]), np.array([b for _, b in XY])
        r = h.call(ip, x, y, z, xgrid=g[0], ygrid=g[1])
        compare(h, r, XY, z, g, nn, p, lim, exclude, "zgrid")
        h.eq(ip.zgrid, r, "stored result")

    return fn


def defaults(h):
    """Without configuration: eight neighbours, weighted with 1/distance^2, gaps left out, no limit."""
    XY9 = XY + [(-3.0, 2.0), (7.0, 7.5), (2.0, -6.0), (-9.0, 1.0), (11.0, 3.0), (-4.0, -4.0), (60.0, 40.0)]
    z = h.array("z", 10, nan=lambda ix: ix[0] == 1)
    ip = P.IdwKdtreeInterpolator()
    r = h.call(ip, np.array([a for a, _ in XY9]), np.array([b for _, b in XY9]), z, xgrid=GRIDS["A"][0], ygrid=GRIDS["A"][1])
    compare(h, r, XY9, z, GRIDS["A"], 8, 2, None, True, "zgrid")


def large_grid(h):
    many(h, (64, 41))


def many(h, size=(7, 5)):
    """more points than neighbours, a larger grid, gaps"""
    n = 30
    xy = [((i * 37 % 101) / 10.0, (i * 53 % 103) / 10.0) for i in range(n)]
    z = [(i * 31 % 83) / 7.0 if i % 7 else np.nan for i in range(n)]
    for i in (3, 20):
        z[i] = h.real("z%d" % i, -100, 100, nan=True)
    g = np.meshgrid(np.arange(size[0]) * 1.375 * 7 / size[0] + 0.0625, np.arange(size[1]) * 2.125 * 5 / size[1] + 0.03125)
    ip = P.IdwKdtreeInterpolator(nnear=h.choose("nnear", [3, 8]), p=2, max_distance=h.choose("max_distance", [None, 2.0]))
    r = h.call(ip, np.array([a for a, _ in xy]), np.array([b for _, b in xy]), h.mk(z), xgrid=g[0], ygrid=g[1])
    compare(h, r, xy, z, g, ip.nnear, 2, ip.max_distance, True, "zgrid")


def one_point(h):
    """a single point, or one left after the gaps: its value everywhere within the limit"""
    k = h.choose("points", [1, 3])
    z = [np.nan] * k
    z[k // 2] = h.real("z", -100, 100)
    lim = h.choose("max_distance", [None, 3.0])
    ip = P.IdwKdtreeInterpolator(nnear=4, p=2, max_distance=lim)
    r = h.call(ip, np.array([a for a, _ in XY[:k]]), np.array([b for _, b in XY[:k]]), h.mk(z), xgrid=GRIDS["C"][0], ygrid=GRIDS["C"][1])
    compare(h, r, XY[:k], z, GRIDS["C"], 4, 2, lim, True, "zgrid")


def history(n, what):
    """Each call gives what a fresh interpolator would give, whatever was called before."""

    def fn(h):
        exclude = h.fork("exclude_nan")
        ip = P.IdwKdtreeInterpolator(nnear=2, p=2, exclude_nan=exclude, max_distance=None)
        nn, p, lim = 2, 2, None
        xy = list(XY)
        g = GRIDS["A"]
        x, y = np.array([a for a, _ in xy]), np.array([b for _, b in xy])
        gx, gy = g[0].copy(), g[1].copy()
        for k in range(n):
            z = h.array("z%d" % k, 3, nan=(lambda ix: ix[0] == 1) if "nan" in what else False)
            if k > 0:
                op = h.choose("op%d" % k, what_ops(what))
                if op == "points":
                    xy = XY2 if xy != XY2 else list(XY)
                    x, y = np.array([a for a, _ in xy]), np.array([b for _, b in xy])
                elif op == "x only":
                    xy = [(a + 0.75, b) for a, b in xy]
                    x = np.array([a for a, _ in xy])
                elif op == "y only":
                    xy = [(a, b - 0.75) for a, b in xy]
                    y = np.array([b for _, b in xy])
                elif op == "values and coordinates swapped":
                    xy = [(b, a) for a, b in xy]
                    x, y = y, x
                elif op == "points in place":
                    xy = XY2 if xy != XY2 else list(XY)
                    x[:] = [a for a, _ in xy]
                    y[:] = [b for _, b in xy]
                elif op == "permute":
                    xy = [xy[1], xy[0], xy[2]]
                    x, y = np.array([a for a, _ in xy]), np.array([b for _, b in xy])
                elif op == "grid":
                    gx, gy = GRIDS["B"][0].copy(), GRIDS["B"][1].copy()
                elif op == "grid in place":
                    gy[:] = GRIDS["B"][1]
                elif op == "grid x only":
                    gx = gx + 0.25
                elif op == "one grid point":
                    gx = gx.copy()
                    gx[0, 1] += 0.375
                elif op == "one grid row":
                    gy = gy.copy()
                    gy[1, 0] += 0.375
                elif op == "middle point":
                    xy = [xy[0], (xy[1][0] - 0.5, xy[1][1]), xy[2]]
                    x = np.array([a for a, _ in xy])
                elif op == "exclude_nan":
                    exclude = ip.exclude_nan = not exclude
                elif op == "bigger grid":
                    gx, gy = GRIDS["C"][0].copy(), GRIDS["C"][1].copy()
                elif op == "nnear":
                    nn = ip.nnear = 3
                elif op == "p":
                    p = ip.p = 1
                elif op == "max_distance":
                    lim = ip.max_distance = 3.0
            r = h.call(ip, x, y, z, xgrid=gx, ygrid=gy)
            compare(h, r, xy, z, (gx, gy), nn, p, lim, exclude, "call %d" % (k + 1))

    return fn


def what_ops(what):
    if "nan" in what:
        return ["same", "points", "grid"]
    return ["same", "points", "x only", "y only", "values and coordinates swapped", "points in place", "permute", "grid", "grid x only", "one grid point", "one grid row", "middle point", "exclude_nan", "grid in place", "bigger grid", "nnear", "p", "max_distance"]


def projected(n):
    """metres in a projection: small moves of points or grid far from the origin"""
    ox, oy = 630000.0, 5420000.0

    def fn(h):
        ip = P.IdwKdtreeInterpolator(nnear=3, p=2)
        xy = [(ox + 8 * a, oy + 8 * b) for a, b in XY]
        gx, gy = [v + o for v, o in zip(np.meshgrid([4.0, 20.0], [9.0, 32.0]), (ox, oy))]
        for k in range(n):
            z = h.array("z%d" % k, 3)
            if k:
                op = h.choose("op%d" % k, ["same", "x", "y", "point", "grid x", "grid y", "half a metre"])
                if op == "x":
                    xy = [(a + 5.0, b) for a, b in xy]
                elif op == "y":
                    xy = [(a, b - 12.0) for a, b in xy]
                elif op == "point":
                    xy = [xy[0], xy[1], (xy[2][0] - 3.0, xy[2][1])]
                elif op == "half a metre":
                    xy = [(xy[0][0], xy[0][1] + 0.5), xy[1], xy[2]]
                elif op == "grid x":
                    gx = gx + 3.0
                elif op == "grid y":
                    gy = gy + 25.0
            r = h.call(ip, np.array([a for a, _ in xy]), np.array([b for _, b in xy]), z, xgrid=gx, ygrid=gy)
            compare(h, r, xy, z, (gx, gy), 3, 2, None, True, "call %d" % (k + 1))

    return fn


def tree_history(n):
    """The same for the tree itself: parameters of one call do not leak into the next."""

    def fn(h):
        tree = h.call(I.Invdisttree, np.array(XY))
        q = np.array([(0.5, 1.0), (2.0, 4.0), (30.0, 0.0)])
        for k in range(n):
            z = h.array("z%d" % k, 3)
            nn = h.choose("nn%d" % k, [2, 3])
            p = h.choose("p%d" % k, [1, 2])
            lim = h.choose("lim%d" % k, [None, 3.5])
            if k and h.fork("move%d" % k):
                q[0] = (3.0, 0.5) if q[0][0] != 3.0 else (0.5, 1.0)
            r = h.call(tree, q, z, nnear=nn, p=p, max_distance=lim)
            h.eq(list(r), expected(h, XY, z, list(q[:, 0]), list(q[:, 1]), nn, p, lim, False), "call %d" % (k + 1))

    return fn


def inputs_kinds(h):
    """Integer grids and integer values."""
    z = h.array("z", 3, -50, 50, nan=True) if h.fork("float") else h.array("z", 3, -3, 3, dtype=int)
    x, y = np.array([1, 2, 3]), np.array([2, 4, 3])
    gx, gy = np.meshgrid(np.arange(2) * 5, np.arange(2) * 5)
    ip = P.IdwKdtreeInterpolator(nnear=4, p=2)
    r = h.call(ip, x, y, z, xgrid=gx, ygrid=gy)
    compare(h, r, list(zip([1.0, 2, 3], [2.0, 4, 3])), z, (gx, gy), 4, 2, None, True, "zgrid")


def autogrid(h):
    """A generated grid: regular, and it covers all points."""
    xs = [h.real("x%d" % i, 0, 4) for i in range(2)]
    ys = [h.real("y%d" % i, 0, 3) for i in range(2)]
    res = h.choose("resolution", [1.0, 1.5])
    h.assume(h.or_(xs[0] > xs[1] + 1e-3, xs[1] > xs[0] + 1e-3))
    # the number of cells is not specified where rounding decides it
    z = h.const(np.array([np.nan, np.nan]))
    ip = P.IdwKdtreeInterpolator()
    r = h.call(ip, h.mk(xs), h.mk(ys), z, resolution=res)
    gx, gy = ip.xgrid, ip.ygrid
    h.equal_obj(tuple(r.shape), tuple(gx.shape), "shape")
    h.equal_obj(tuple(gy.shape), tuple(gx.shape), "shape")
    ny, nx = gx.shape
    for (g, n, v, lab, at) in ((gx, nx, xs, "x", lambda j: gx[0, j]), (gy, ny, ys, "y", lambda j: gy[j, 0])):
        lo, hi = h.minimum(v[0], v[1]), h.maximum(v[0], v[1])
        h.le(at(0), lo, lab + " starts at or before the first point")
        h.le(hi, at(n - 1), lab + " reaches the last point", tol=1e-6)
        for j in range(1, n):
            h.eq(at(j) - at(j - 1), res, lab + " spacing")
    for i in range(ny):
        for j in range(nx):
            h.eq(gx[i, j], gx[0, j], "x varies along columns")
            h.eq(gy[i, j], gy[i, 0], "y varies along rows")


def autogrid_missing(h):
    ip = P.IdwKdtreeInterpolator()
    z = h.array("z", 3)
    kw = h.choose("kw", ["none", "xgrid", "ygrid"])
    k = {} if kw == "none" else {kw: GRIDS["A"][0]}
    h.raises(ValueError, ip, np.array([a for a, _ in XY]), np.array([b for _, b in XY]), z, label="missing grid rejected", **k)


class FakeKriging:
    """Result: a known function of what the interpolator passes on."""

    log = []

    def __init__(self, x, y, z, **kw):
        self.x, self.y, self.z, self.kw = x, y, z, kw
        FakeKriging.log.append(self)

    def execute(self, style, xpoints, ypoints, **kw):
        self.style, self.ekw = style, kw
        self.xp, self.yp = xpoints, ypoints
        s = total([(float(a) + 7 * float(b)) * c for a, b, c in zip(self.x, self.y, self.z)])
        zi = [s * (float(a) + 3) + float(b) for a, b in zip(xpoints, ypoints)]
        sg = [float(a) for a in xpoints]
        import symx.arr as arr

        return (arr.wrap(np.array(zi, dtype=object)) if any(type(v).__name__ == "SymNum" for v in zi) else np.array(zi)), np.array(sg)


def kr_stubs():
    return [(P, "OrdinaryKriging", FakeKriging)]


def kriging(h):
    FakeKriging.log.clear()
    z = h.array("z", 3, nan=True)
    exclude = h.fork("exclude_nan")
    par = {"sill": 0.5, "range": 2, "nugget": 0.1}
    cfg = dict(nlags=7, variogram_model="gaussian", variogram_parameters=par, weight=False, n_closest_points=h.choose("ncp", [None, 4]), backend="loop")
    if exclude and h.fork("default configuration"):
        ip = P.OrdinaryKrigingInterpolator()
        cfg = dict(nlags=100, variogram_model="spherical", variogram_parameters={"sill": 0.9, "range": 1, "nugget": 0.1}, weight=True, n_closest_points=None, backend="C")
    else:
        ip = P.OrdinaryKrigingInterpolator(exclude_nan=exclude, **cfg)
    g = GRIDS[h.choose("grid", ["A", "C"])]
    x, y = np.array([a for a, _ in XY]), np.array([b for _, b in XY])
    r = h.call(ip, x, y, z, xgrid=g[0], ygrid=g[1])
    h.equal_obj(tuple(r.shape), g[0].shape, "shape")
    if allnan(h, z):
        h.true(h.and_(*[h.isnan(v) for v in list(r.ravel())]), "all NaN")
        return
    idx = [i for i in range(3) if not (exclude and bool(h.isnan(z[i])))]
    s = total([(XY[i][0] + 7 * XY[i][1]) * z[i] for i in idx])
    e = [s * (a + 3) + b for a, b in zip(g[0].ravel(), g[1].ravel())]
    h.eq(list(r.ravel()), e, "result layout")
    h.equal_obj(len(FakeKriging.log), 1, "one kriging system per call")
    k = FakeKriging.log[0]
    h.equal_obj((k.kw["nlags"], k.kw["variogram_model"], k.kw["variogram_parameters"], k.kw["weight"]), (cfg["nlags"], cfg["variogram_model"], cfg["variogram_parameters"], cfg["weight"]), "configuration")
    h.equal_obj((k.style, k.ekw["backend"], k.ekw["n_closest_points"]), ("points", cfg["backend"], cfg["n_closest_points"]), "execution options")


def lengths(h):
    ip = P.IdwKdtreeInterpolator()
    n = h.choose("n", [(2, 3, 3), (3, 2, 3), (3, 3, 2)])
    z = h.array("z", n[2])
    h.raises(AssertionError, ip, np.arange(float(n[0])), np.arange(float(n[1])), z, xgrid=GRIDS["A"][0], ygrid=GRIDS["A"][1], label="lengths rejected")


def cases(tier):
    q = tier == "quick"
    n = 2 if q else 3
    return [
        Case("single call", one(True)),
        Case("single call keeping NaN", one(False)),
        Case("default configuration", defaults),
        Case("many points", many, bounds="30 points, 5x7 grid"),
        Case("large grid", large_grid, bounds="30 points, 41x64 grid", history=False),
        Case("one point", one_point),
        Case("history", history(n, "plain")),
        Case("history with gaps", history(n + 1, "nan")),
        Case("history with projected coordinates", projected(n), bounds="coordinates of 6e5 and 5e6 metres, moved by 0.5 to 25 m"),
        Case("tree history", tree_history(n)),
        Case("integer grids", inputs_kinds),
        Case("generated grid", autogrid),
        Case("missing grid", autogrid_missing),
        Case("kriging interface", kriging, stubs=kr_stubs),
        Case("lengths", lengths),
    ]
