"""Great circle distances."""
import numpy as np
import xarray as xr

from pycomlink.spatial import helper as HLP
from symx.harness import Case
from props.util import arctan2, cos, sin, sqrt

FUNCTIONS = ["spatial.helper.haversine"]
BOUNDS = "symbolic longitudes in [-180,360] and latitudes in [-90,90]; arrays of 2; fixed difficult pairs (antipodal, poles, date line, tiny distances)"
OUTSIDE = "rounding for symbolic positions (the fixed pairs are evaluated in floating point)"
ASSUMPTIONS = ["0 <= hav <= 1 for the haversine of a central angle (a mathematical fact, given to the solver)"]
BUDGET = {"quick": 200, "thorough": 1200}
R = 6367.0
RAD = float(np.pi / 180)


def hav(lo1, la1, lo2, la2):
    la1, la2, lo1, lo2 = la1 * RAD, la2 * RAD, lo1 * RAD, lo2 * RAD
    s = sin((la2 - la1) / 2)
    t = sin((lo2 - lo1) / 2)
    return s * s + cos(la1) * cos(la2) * t * t


def angle(a):
    return 2 * R * arctan2(sqrt(a), sqrt(1 - a))


def pos(h, k=""):
    return h.real("lon1" + k, -180, 360), h.real("lat1" + k, -90, 90), h.real("lon2" + k, -180, 360), h.real("lat2" + k, -90, 90)


def lemma(h, a):
    h.assume(h.and_(a >= 0, a <= 1) if h.symbolic else np.bool_(True))
    return a


def value(h):
    p = pos(h)
    a = lemma(h, hav(*p))
    r = h.call(HLP.haversine, *p)
    h.observe("km", r)
    h.true(h.not_(h.isnan(r)), "not NaN")
    h.eq(r, angle(h.minimum(a, 1.0)), "distance", tol=1e-3, ctol=1e-2)
    h.true(h.and_(r >= -1e-6, r <= np.pi * R + 1e-3), "between 0 and half the circumference")


def symmetric(h):
    p = pos(h)
    lemma(h, hav(*p))
    a = h.call(HLP.haversine, *p)
    b = h.call(HLP.haversine, p[2], p[3], p[0], p[1])
    h.eq(a, b, "symmetric", tol=1e-3, ctol=1e-2)


def identical(h):
    lo, la = h.real("lon", -180, 360), h.real("lat", -90, 90)
    h.eq(h.call(HLP.haversine, lo, la, lo, la), 0.0, "zero distance")


def meridian(h):
    """Along a meridian the distance is proportional to the latitude difference."""
    lo, la1, la2 = h.real("lon", -180, 180), h.real("lat1", -90, 90), h.real("lat2", -90, 90)
    d = (la2 - la1) * RAD
    s = sin(d / 2)
    h.assume(h.and_(s <= 1, s >= -1))
    r = h.call(HLP.haversine, lo, la1, lo, la2)
    a = s * s
    h.assume(a <= 1)
    h.eq(r, angle(h.minimum(a, 1.0)), "distance on a meridian", tol=1e-3, ctol=1e-2)


def vec(lo, la):
    lo, la = np.radians(lo), np.radians(la)
    return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])


PAIRS = [
    (0, 0, 180, 0), (10, 20, -170, -20), (-73.9, 40.7, 106.1, -40.7), (12.34567, 48.76543, -167.65433, -48.76543), (0, 90, 55, -90), (33, 90, 77, 90),
    (179.9, 10, -179.9, 10), (359.5, -45, 0.5, -45), (11.0, 47.0, 11.00001, 47.00001), (11.0, 47.0, 11.0, 47.1), (5, 0, 95, 0),
    (141.04, -66.57, -38.96, 66.57), (29.26, -4.92, -150.74, 4.92), (171.9, 12.23, -8.1, -12.23), (-72.62, -26.3, 107.38, 26.3),  # haversine rounds above 1
    (1.5, 89.999, -178.5, 89.999), (8.1, 52.3, 8.4, 52.2), (29.7, 61.3, -150.3, -61.3),
]


def pairs(h):
    lo1, la1, lo2, la2 = h.choose("pair", PAIRS)
    r = h.call(HLP.haversine, float(lo1), float(la1), float(lo2), float(la2))
    u, v = vec(lo1, la1), vec(lo2, la2)
    e = R * np.arctan2(np.linalg.norm(np.cross(u, v)), np.dot(u, v))
    h.true(np.bool_(abs(float(r) - e) <= 1e-3 + 1e-6 * e), "distance of a fixed pair")


def arrays(kind):
    def fn(h):
        lo1, la1 = h.real("lon1", -180, 180), h.real("lat1", -90, 90)
        lo2, la2 = h.array("lon2", 2, -180, 180), h.array("lat2", 2, -90, 90)
        for k in range(2):
            lemma(h, hav(lo1, la1, lo2[k], la2[k]))
        if kind == "da":
            mk = lambda v: xr.DataArray(v, dims="cml_id", coords={"cml_id": ["a", "b"]})
            r = h.call(HLP.haversine, lo1, la1, mk(lo2), mk(la2))
            h.equal_obj(list(r.cml_id.values), ["a", "b"], "coordinates")
            r = r.data
        else:
            r = h.call(HLP.haversine, lo1, la1, lo2, la2)
        for k in range(2):
            h.eq(r[k], h.call(HLP.haversine, lo1, la1, lo2[k], la2[k]), "element %d" % k, tol=1e-3, ctol=1e-2)

    return fn


def many(h):
    """one site and many others, one of them symbolic"""
    n = 2500
    lo2, la2 = h.const(np.arange(n) * 37 % 359 - 179.0), h.const(np.arange(n) * 17 % 175 / 1.0 - 87.0)
    k = h.choose("k", [3, n - 2])
    lo2[k], la2[k] = h.real("lon2", -180, 180), h.real("lat2", -90, 90)
    lemma(h, hav(12.5, 47.25, lo2[k], la2[k]))
    r = h.call(HLP.haversine, 12.5, 47.25, lo2, la2)
    h.equal_obj(r.shape, (n,), "shape")
    h.eq(r[k], h.call(HLP.haversine, 12.5, 47.25, lo2[k], la2[k]), "symbolic element", tol=1e-3, ctol=1e-2)
    for i in range(0, n, 7):
        if i != k:
            h.eq(r[i], h.call(HLP.haversine, 12.5, 47.25, float(lo2[i]), float(la2[i])), "element %d" % i, tol=1e-3, ctol=1e-2)


def cases(tier):
    o = dict(fork_ite=True, sqrt_def=False)
    return [
        Case("value", value, **o),
        Case("symmetric", symmetric, **o),
        Case("identical points", identical, **o),
        Case("meridian", meridian, **o),
        Case("fixed pairs", pairs),
        Case("array", arrays("np"), **o),
        Case("dataarray", arrays("da"), **o),
        Case("many points", many, bounds="2500 points", history=False, **o),
    ]
