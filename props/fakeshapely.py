"""A small model of shapely for symbolic coordinates: points, line strings, their buffers, unions and predicates.
Buffers are exact (shapely approximates round ends by polygons); the property leaves a margin for that."""
import types

import numpy as np
import shapely
import shapely.geometry
import shapely.ops
import shapely.prepared
import shapely.strtree

from symx.core import Unsupported

CAPS = {1: "round", 2: "flat", 3: "square", "round": "round", "flat": "flat", "square": "square"}


def seg2(px, py, x1, y1, x2, y2):
    """squared distance to a segment; the comparisons fork"""
    dx, dy = x2 - x1, y2 - y1
    ux, uy = px - x1, py - y1
    dot = ux * dx + uy * dy
    n = dx * dx + dy * dy
    if bool(dot <= 0):
        return ux * ux + uy * uy
    if bool(dot >= n):
        vx, vy = px - x2, py - y2
        return vx * vx + vy * vy
    c = ux * dy - uy * dx
    return c * c / n


def coords(*a):
    if len(a) == 2:
        return a[0], a[1]
    a = a[0]
    if isinstance(a, Point):
        return a.x, a.y
    a = list(a)
    return a[0], a[1]


class Geom:
    def intersects(self, o):
        return o.hit(self) if isinstance(self, Point) else self.hit(o)

    def covers(self, o):
        return self.hit(o)

    def contains(self, o):
        return self.hit(o, True)

    def within(self, o):
        return o.hit(self, True)

    def covered_by(self, o):
        return o.hit(self)

    def disjoint(self, o):
        return not self.intersects(o)

    def union(self, o):
        return Union([self, o])

    def hit(self, o, inner=False):
        raise Unsupported("shapely predicate")

    def buffer(self, d, *a, **k):
        raise Unsupported("buffer of %s" % type(self).__name__)

    is_empty = False


class Point(Geom):
    def __init__(self, *a):
        self.x, self.y = coords(*a)

    def distance2(self, o):
        return o.dist2(self)

    def distance(self, o):
        from props.util import sqrt

        return sqrt(o.dist2(self))

    def dist2(self, p):
        return (p.x - self.x) * (p.x - self.x) + (p.y - self.y) * (p.y - self.y)

    def buffer(self, d, quad_segs=16, *a, **k):
        return Buffer(LineString([(self.x, self.y), (self.x, self.y)]), d, "round", int(quad_segs))


class LineString(Geom):
    def __init__(self, pts):
        self.pts = [coords(p) for p in pts]

    def dist2(self, p):
        best = None
        for (a, b), (c, d) in zip(self.pts, self.pts[1:]):
            v = seg2(p.x, p.y, a, b, c, d)
            best = v if best is None or bool(v < best) else best
        return best

    def distance(self, p):
        return p.distance(self)

    def buffer(self, d, quad_segs=16, cap_style="round", join_style="round", mitre_limit=5.0, single_sided=False, **k):
        k.pop("resolution", None)
        if k or single_sided or isinstance(cap_style, str) and cap_style not in CAPS:
            raise Unsupported("buffer(%r)" % k)
        c = cap_style
        c = CAPS[c] if isinstance(c, str) else CAPS[int(c)]
        return Buffer(self, d, c, int(quad_segs))


class MultiLineString(Geom):
    def __init__(self, lines):
        self.geoms = [x if isinstance(x, LineString) else LineString(x) for x in lines]

    def dist2(self, p):
        best = None
        for g in self.geoms:
            v = g.dist2(p)
            best = v if best is None or bool(v < best) else best
        return best

    def distance(self, p):
        return p.distance(self)

    def buffer(self, *a, **k):
        return Union([g.buffer(*a, **k) for g in self.geoms])


class Buffer(Geom):
    def __init__(self, line, d, cap, segs=16):
        self.line, self.d, self.cap, self.segs = line, d, cap, segs

    def hit(self, p, inner=False):
        if not isinstance(p, Point):
            raise Unsupported("intersection of areas")
        if bool(self.d <= 0):
            return False
        if self.cap == "round":
            if not bool(self.line.dist2(p) <= self.d * self.d):
                return False
            return True if self.segs >= 8 else self.polygon(p)
        if len(self.line.pts) != 2:
            raise Unsupported("cap style of a polyline")
        (x1, y1), (x2, y2) = self.line.pts
        dx, dy = x2 - x1, y2 - y1
        n = dx * dx + dy * dy
        dot = (p.x - x1) * dx + (p.y - y1) * dy
        c = (p.x - x1) * dy - (p.y - y1) * dx
        if not bool(c * c <= self.d * self.d * n):
            return False
        if self.cap == "flat":
            return bool(dot >= 0) and bool(dot <= n)
        from props.util import sqrt

        e = self.d * sqrt(n)
        return bool(dot >= -e) and bool(dot <= n + e)

    def polygon(self, p):
        """coarse round ends: p, inside the exact buffer, is also inside the polygon with segs segments per quarter"""
        from symx import core

        if len(self.line.pts) != 2 or any(core.is_sym(v) for q in self.line.pts for v in q):
            raise Unsupported("coarse buffer")
        (x1, y1), (x2, y2) = self.line.pts
        dx, dy = float(x2 - x1), float(y2 - y1)
        t0 = np.arctan2(dy, dx)
        if bool((p.x - x1) * dx + (p.y - y1) * dy < 0):
            cx, cy = x1, y1
        elif bool((p.x - x2) * dx + (p.y - y2) * dy > 0):
            cx, cy = x2, y2
        else:
            return True
        r = self.d * float(np.cos(np.pi / (4 * self.segs)))
        for k in range(4 * self.segs):
            t = t0 + (k + 0.5) * np.pi / (2 * self.segs)
            if not bool((p.x - cx) * float(np.cos(t)) + (p.y - cy) * float(np.sin(t)) <= r):
                return False
        return True

    def dist2(self, p):
        raise Unsupported("distance to a buffer")


class Union(Geom):
    def __init__(self, geoms):
        self.geoms = list(geoms)

    is_empty = property(lambda s: not s.geoms)

    def hit(self, p, inner=False):
        return any([g.hit(p) for g in self.geoms])

    def union(self, o):
        return Union(self.geoms + [o])

    def buffer(self, *a, **k):
        return Union([g.buffer(*a, **k) for g in self.geoms])

    def dist2(self, p):
        return MultiLineString(self.geoms).dist2(p)

    def distance(self, p):
        return p.distance(self)


def unary_union(gs, *a, **k):
    gs = [gs] if isinstance(gs, Geom) else list(gs)
    out = []
    for g in gs:
        out += g.geoms if isinstance(g, (Union, MultiLineString)) else [g]
    return Union(out)


def objs(f):
    def g(a, b, *r, **k):
        if isinstance(a, Geom) and isinstance(b, Geom):
            return f(a, b)
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.zeros(A.shape, dtype=bool)
        for ix in np.ndindex(*A.shape):
            out[ix] = f(A[ix], B[ix])
        return out

    return g


def xy(f):
    def g(geom, x, y=None, **k):
        if y is None:
            x, y = x[..., 0], x[..., 1]
        if np.ndim(x) == 0:
            return f(geom, Point(x, y))
        out = np.zeros(np.shape(x), dtype=bool)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(geom, Point(x[ix], y[ix]))
        return out

    return g


def points(x, y=None, **k):
    if y is None:
        x, y = x[..., 0], x[..., 1]
    if np.ndim(x) == 0:
        return Point(x, y)
    out = np.empty(np.shape(x), dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = Point(x[ix], y[ix])
    return out


def linestrings(c, y=None, **k):
    if y is not None or np.ndim(c) != 2 and np.ndim(c) != 3:
        raise Unsupported("shapely.linestrings")
    if np.ndim(c) == 2:
        return LineString(c)
    out = np.empty(len(c), dtype=object)
    for i in range(len(c)):
        out[i] = LineString(c[i])
    return out


def buffer(g, d, *a, **k):
    if isinstance(g, Geom):
        return g.buffer(d, *a, **k)
    g = np.asarray(g, dtype=object)
    out = np.empty(g.shape, dtype=object)
    for ix in np.ndindex(*g.shape):
        out[ix] = g[ix].buffer(d, *a, **k)
    return out


def stubs(*modules):
    S = shapely
    rep = {"LineString": LineString, "Point": Point, "MultiLineString": MultiLineString}
    fn = {
        "unary_union": unary_union, "union_all": unary_union, "points": points, "linestrings": linestrings, "buffer": buffer, "prepare": lambda *a, **k: None,
        "intersects": objs(lambda a, b: a.intersects(b)), "contains": objs(lambda a, b: a.contains(b)), "covers": objs(lambda a, b: a.covers(b)), "within": objs(lambda a, b: a.within(b)),
        "distance": objs(lambda a, b: a.distance(b)), "intersects_xy": xy(lambda g, p: p.intersects(g)), "contains_xy": xy(lambda g, p: p.within(g)),
    }
    out, ident = [], {}
    for n, v in rep.items():
        for m in (S, S.geometry):
            out.append((m, n, v))
        ident[id(getattr(S, n))] = v
    for n, v in fn.items():
        if hasattr(S, n):
            ident[id(getattr(S, n))] = v
            out.append((S, n, v))
    ident[id(S.ops.unary_union)] = unary_union
    out.append((S.ops, "unary_union", unary_union))
    ident[id(S.prepared.prep)] = lambda g: g
    out.append((S.prepared, "prep", lambda g: g))
    for m in modules:
        for n, v in list(vars(m).items()):
            if id(v) in ident:
                out.append((m, n, ident[id(v)]))
    return out
