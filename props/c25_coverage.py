"""Coverage mask: grid points within a distance of any link."""
import contextlib
import io
import types

import numpy as np

from pycomlink.spatial import coverage as C
from symx.harness import Case
from props import fakeshapely as fs

FUNCTIONS = ["spatial.coverage.calc_coverage_mask"]
BOUNDS = "grids of 1x2 to 3x2 points, up to two of them at a symbolic position; 0-2 links, one of them with symbolic end points or a symbolic distance; all other positions fixed"
OUTSIDE = "grid points within 1 % of the distance limit (shapely approximates round ends by polygons); larger grids and networks"
STUBS = ["symbolic mode: shapely points, lines, buffers, unions and predicates (props/fakeshapely.py) with exact round ends"]
BUDGET = {"quick": 200, "thorough": 1200}


def cml(a, b):
    return types.SimpleNamespace(metadata={"site_a_longitude": a[0], "site_a_latitude": a[1], "site_b_longitude": b[0], "site_b_latitude": b[1]})


def sym_stubs():
    return fs.stubs(C)


def run(h, links, gx, gy, d, large=False):
    with contextlib.redirect_stderr(io.StringIO()):
        r = h.call(C.calc_coverage_mask, [cml(*l) for l in links], gx, gy, d)
    h.equal_obj(tuple(r.shape), tuple(gx.shape), "shape")
    h.equal_obj(np.dtype(r.dtype), np.dtype(bool), "boolean")
    for ix in np.ndindex(*gx.shape):
        cov = False
        for (x1, y1), (x2, y2) in links:
            q = fs.seg2(gx[ix], gy[ix], x1, y1, x2, y2)
            if large and not (q <= 0.98 * d * d or q >= 1.0001 * d * d):
                cov = None
                break
            h.assume(h.or_(q <= 0.98 * d * d, q >= 1.0001 * d * d))
            cov = cov or bool(q <= d * d)
        if cov is not None:
            h.equal_obj(bool(r[ix]), cov, "covered at %r" % (ix,))


L1, L2 = ((1.0, 1.0), (3.0, 2.0)), ((2.0, 5.0), (2.0, 4.0))


def point(links, ny, nx, syms):
    def fn(h):
        X, Y = np.meshgrid(np.arange(nx) * 1.75 + 0.5, np.arange(ny) * 2.25 + 0.75)
        gx, gy = h.const(X), h.const(Y)
        for k, ix in enumerate(syms):
            gx[ix], gy[ix] = h.real("x%d" % k, -2, 8), h.real("y%d" % k, -2, 8)
        run(h, links, gx, gy, h.choose("distance", [0.25, 1.0, 2.0]))

    return fn


def ends(h):
    """a link in any position: both end points with both coordinates matter"""
    k = h.choose("end", [0, 1])
    l = [list(L1[0]), list(L1[1])]
    l[k] = [h.real("x", -2, 6), h.real("y", -2, 6)]
    if h.fork("flat"):
        l[1 - k][1] = l[k][1]
    X, Y = np.meshgrid([0.0, 2.5], [1.5, 4.0, 0.5])
    run(h, [(tuple(l[0]), tuple(l[1]))], X, Y, 1.0)


def distance(h):
    X, Y = np.meshgrid([0.0, 2.5, 4.0], [1.5, 6.0])
    run(h, [L2, L1], X, Y, h.real("distance", 0.01, 10))


def network(h):
    """several links on a larger grid"""
    X, Y = np.meshgrid(np.arange(9) * 0.875 - 1, np.arange(11) * 0.75 - 1.5)
    links = [L1, L2, ((-0.5, 4.0), (-0.5, 5.0)), ((5.0, 0.0), (6.0, -1.0)), ((5.5, 5.0), (5.0, 5.5)), ((3.0, 2.0), (4.0, 4.0))]
    links = [links[k] for k in h.choose("order", [(0, 1, 2, 3, 4, 5), (5, 3, 1, 4, 0, 2)])]
    gx, gy = h.const(X), h.const(Y)
    gx[7, 3] = h.real("x", -2, 8)
    run(h, links, gx, gy, h.choose("distance", [0.375, 1.0]))


def large_grid(h):
    """a grid of some thousand points and dozens of links, all fixed (the real geometry library decides)"""
    X, Y = np.meshgrid(np.linspace(-1, 7, 67), np.linspace(-1.5, 6.5, 53))
    links = [L1, L2] + [((i * 37 % 101 / 16.0, i * 53 % 103 / 17.0), (i * 37 % 101 / 16.0 + (i % 3) * 0.25, i * 53 % 103 / 17.0 - (i % 4) * 0.125)) for i in range(40)]
    run(h, links, X, Y, h.choose("distance", [0.0625, 0.25]), True)


def projected(h):
    """coordinates in metres far from the origin"""
    ox, oy = h.choose("origin", [(512345.1, 5412345.3), (-3e6, 4321000.7)])
    X, Y = np.meshgrid(np.array([0.0, 1.5, 2.5, 6.0]) + ox, np.array([0.5, 1.5, 4.0]) + oy)
    run(h, [tuple((x + ox, y + oy) for x, y in l) for l in (L1, L2)], X, Y, h.choose("distance", [0.3, 0.8, 1.3, 2.7]), True)


def memory_order(h):
    """grids that are stored in other orders"""
    X, Y = np.meshgrid([0.0, 1.5, 2.5, 6.0], [0.5, 1.5, 4.0])
    how = h.choose("stored", ["transposed", "column by column", "x only", "y only", "every second point", "reversed", "lists of one dimension", "integers"])
    if how == "transposed":
        X, Y = X.T, Y.T
    elif how in ("column by column", "x only", "y only"):
        X = X if how == "y only" else np.asfortranarray(X)
        Y = Y if how == "x only" else np.asfortranarray(Y)
    elif how == "every second point":
        X, Y = np.repeat(X, 2, axis=1)[:, ::2], np.repeat(Y, 2, axis=1)[:, 1::2]
    elif how == "reversed":
        X, Y = X[::-1, ::-1], Y[::-1, ::-1]
    elif how == "integers":
        X, Y = np.meshgrid(np.arange(5), np.arange(4))
    else:
        X, Y = X.ravel(), Y.ravel()
    run(h, [L1, L2], X, Y, h.real("distance", 0.05, 5))


def outline(h):
    """all around a link, just inside and just outside (the real geometry library decides)"""
    d = h.choose("distance", [0.25, 1.0, 3.0])
    (a, b) = h.choose("link", [((0.0, 0.0), (10.0, 0.0)), ((1.0, 5.0), (-2.0, 1.0)), ((2.0, 2.0), (2.0, 2.125))])
    L = float(np.hypot(b[0] - a[0], b[1] - a[1]))
    ux, uy = (b[0] - a[0]) / L, (b[1] - a[1]) / L
    P, E = [], []
    for f, e in ((0.988, True), (1.012, False)):
        for k in range(48):
            w = np.pi * (k + 0.5) / 48
            c, s = f * d * np.cos(w), f * d * np.sin(w)  # c across, s along the link
            P += [(b[0] + s * ux - c * uy, b[1] + s * uy + c * ux), (a[0] - s * ux - c * uy, a[1] - s * uy + c * ux)]
            t = k / 47
            g = f * d * (-1) ** k
            P.append((a[0] + t * (b[0] - a[0]) - g * uy, a[1] + t * (b[1] - a[1]) + g * ux))
            E += [e] * 3
    gx, gy = np.array([p[0] for p in P]).reshape(-1, 8), np.array([p[1] for p in P]).reshape(-1, 8)
    with contextlib.redirect_stderr(io.StringIO()):
        r = h.call(C.calc_coverage_mask, [cml(a, b)], gx, gy, d)
    for k, ix in enumerate(np.ndindex(*gx.shape)):
        h.equal_obj(bool(r[ix]), E[k], "covered at %r" % (ix,))


def empty(h):
    X, Y = np.meshgrid([0.0, 2.5, 4.0], [1.5, 6.0])
    run(h, [], X, Y, h.real("distance", 0.01, 10))


def degenerate(h):
    """both sites at the same place"""
    gx, gy = h.mk([[h.real("x", -2, 6), 3.0]]), h.mk([[h.real("y", -2, 6), 3.0]])
    run(h, [((1.0, 2.0), (1.0, 2.0))], gx, gy, 1.5)


def cases(tier):
    mk = lambda n, f: Case(n, f, sym_stubs=sym_stubs)
    cs = [
        mk("one link", point([L1], 2, 2, [(0, 1)])),
        mk("two links", point([L1, L2], 1, 2, [(0, 0)])),
        mk("layout", point([L1], 3, 2, [(2, 0), (1, 1)])),
        mk("sites", ends),
        mk("distance limit", distance),
        mk("network", network),
        mk("memory order", memory_order),
        Case("large grid", large_grid, history=False),
        mk("projected coordinates", projected),
        Case("outline", outline),
        mk("no links", empty),
        mk("link of no length", degenerate),
    ]
    if tier != "quick":
        cs += [mk("two links on a grid", point([L2, L1], 2, 3, [(0, 2), (1, 0)])), mk("three links", point([L1, L2, ((-1.0, 0.0), (6.0, 7.0))], 2, 2, [(1, 0)]))]
    return cs
