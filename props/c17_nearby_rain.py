"""Nearby link approach: rain rate retrieval."""
import numpy as np
import xarray as xr

from pycomlink.processing import nearby_rain_retrival as N
from pycomlink.processing import k_R_relation as K
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.nearby_rain_retrival.nearby_rainfall_retrival", "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("1-2 links, 1-3 time steps; levels in [-100,0] or NaN, power law parameters, length, waa_max in [0,5], alpha in [0,1], F and its threshold symbolic, "
          "or parameters from frequency and polarization for both ITU tables")
OUTSIDE = "accuracy of the floating point power function; longer series"
BUDGET = {"quick": 300, "thorough": 2400}


def expected(h, ref, lo, hi, F, L, a, b, waa, alpha, thr):
    if thr is not None and not bool(h.isnan(F)) and bool(F <= thr):
        return np.nan
    if bool(h.isnan(ref)) or bool(h.isnan(lo)) or bool(h.isnan(hi)):
        return np.nan

    def r(p):
        A = ref - p - waa
        return 0.0 if bool(A < 0) else (A / (a * L)) ** (1 / b)

    return alpha * r(lo) + (1 - alpha) * r(hi)


def arrays(h, n):
    return [h.array("pref", n, -100, 0, nan=lambda ix: ix[0] == 0), h.array("lo", n, -100, 0, nan=lambda ix: ix[0] == 1), h.array("hi", n, -100, 0, nan=lambda ix: ix[0] == 1),
            h.array("F", n, -60, 10, nan=lambda ix: ix[0] == 1)]


def mkda(x, n, dims=("time",), **co):
    return xr.DataArray(x, dims=dims, coords=dict(co, time=times(n, "15min")))


def plain(kind):
    def fn(h):
        n = 2
        ref, lo, hi, F = arrays(h, n)
        L, a = h.real("L", 0.1, 50), h.real("a", 1e-3, 2)
        b = h.real("b", 0.6, 1.5)
        waa, alpha, thr = h.real("waa_max", 0, 5), h.real("alpha", 0, 1), h.real("threshold", -60, 10)
        xs = [ref, lo, hi, F]
        if kind == "da":
            xs = [mkda(x, n) for x in xs]
        r = h.call(N.nearby_rainfall_retrival, *xs, length=L, a=a, b=b, waa_max=waa, alpha=alpha, F_value_threshold=thr)
        h.observe("R", r)
        r = r.data if kind == "da" else r
        for t in range(n):
            h.eq(r[t], expected(h, ref[t], lo[t], hi[t], F[t], L, a, b, waa, alpha, thr), "R[%d]" % t)

    return fn


def defaults(h):
    """waa_max 2.3 dB, alpha 0.33, threshold -32.5 unless given; None switches the outlier filter off"""
    n = 2
    ref, lo, hi, F = arrays(h, n)
    off = h.fork("filter off")
    kw = {"F_value_threshold": None} if off else {}
    r = h.call(N.nearby_rainfall_retrival, mkda(ref, n), mkda(lo, n), mkda(hi, n), mkda(F, n), 4.0, a=0.125, b=1.0, **kw)
    for t in range(n):
        h.eq(r.data[t], expected(h, ref[t], lo[t], hi[t], F[t], 4.0, 0.125, 1.0, 2.3, 0.33, None if off else -32.5), "R[%d]" % t)


def verylong(h):
    long(h, 7000)


def long(h, n=120):
    lo = [-50.0 - (i * 37 % 101) / 8.0 for i in range(n)]
    hi = [v + (i * 5 % 7) / 4.0 for i, v in enumerate(lo)]
    ref = [-51.0 if i % 13 else np.nan for i in range(n)]
    F = [-(i * 29 % 64) * 0.625 for i in range(n)]
    lo[60], F[70], hi[n - 1] = h.real("lo", -100, 0), h.real("F", -60, 10, nan=True), h.real("hi", -100, 0, nan=True)
    r = h.call(N.nearby_rainfall_retrival, *[mkda(h.mk(x), n) for x in (ref, lo, hi, F)], length=4.0, a=0.125, b=0.8)
    for t in range(n):
        h.eq(r.data[t], expected(h, ref[t], lo[t], hi[t], F[t], 4.0, 0.125, 0.8, 2.3, 0.33, -32.5), "R[%d]" % t)


def properties(h):
    n = 1
    ref = h.real("pref", -100, 0)
    lo, hi = h.real("lo", -100, 0), h.real("hi", -100, 0)
    h.assume(h.and_(lo <= ref, hi <= ref))
    waa, alpha = h.real("waa_max", 0, 5), h.real("alpha", 0, 1)
    b = h.choose("b", [0.8, 1.0, 1.25])
    g = lambda v: mkda(h.mk([v]), 1)
    r = h.call(N.nearby_rainfall_retrival, g(ref), g(lo), g(hi), g(0.0), 4.0, a=0.125, b=b, waa_max=waa, alpha=alpha).data[0]
    h.true(r >= 0, "never negative")
    if bool(lo == ref) and bool(hi == ref):
        h.true(r == 0, "no attenuation, no rain")
    lo2 = h.real("lo2", -100, 0)
    h.assume(lo2 <= lo)
    r2 = h.call(N.nearby_rainfall_retrival, g(ref), g(lo2), g(hi), g(0.0), 4.0, a=0.125, b=b, waa_max=waa, alpha=alpha).data[0]
    h.le(r, r2, "more attenuation, no less rain")


def freqpol(h):
    n = 1
    ref, lo, hi, F = arrays(h, n)
    L = h.real("L", 0.1, 50)
    f = h.choose("f", [7.5, 18.7, 23.0, 38.2])
    pol = h.choose("pol", ["V", "H", "v", "horizontal"])
    ap = h.choose("approx", ["ITU_2005", "ITU_2003"])
    kw = {} if ap == "ITU_2005" and pol == "V" else {"a_b_approximation": ap}
    r = h.call(N.nearby_rainfall_retrival, mkda(ref, n), mkda(lo, n), mkda(hi, n), mkda(F, n), length=L, f_GHz=f, pol=pol, **kw)
    a, b = K.a_b(f, "V" if pol[0] in "vV" else "H", approx_type=ap)
    a, b = float(a[0]), float(b[0])
    for t in range(n):
        h.eq(r.data[t], expected(h, ref[t], lo[t], hi[t], F[t], L, a, b, 2.3, 0.33, -32.5), "R[%d]" % t)


def links(order):
    def fn(h):
        n = 2
        ref = h.array("pref", (2, n), -100, 0)
        lo = h.array("lo", (2, n), -100, 0)
        F = h.const(np.array([[0.0, -32.5], [-40.0, 1.0]]))
        F[0, 0] = h.real("F", -60, 10)
        hi = h.const(np.array([[-50.0, -60.0], [-70.0, -90.0]]))
        d = ("cml_id", "time")
        mk = lambda x: mkda(x, n, d, cml_id=["b", "a"])
        Ls, fr, po = [0.5, 12.0], [10.0, 38.0], ["H", "V"]
        v = lambda x: xr.DataArray(np.array(x), dims="cml_id", coords={"cml_id": ["b", "a"]})
        xs = [mk(ref), mk(lo), mk(hi), mk(F)]
        if order:
            xs = [x.T for x in xs]
        r = h.call(N.nearby_rainfall_retrival, *xs, v(Ls), v(fr), v(po))
        h.equal_obj(set(r.dims), set(d), "dims")
        for i, c in enumerate("ba"):
            a, b = K.a_b(fr[i], po[i])
            a, b = float(a[0]), float(b[0])
            x = r.sel(cml_id=c).data
            for t in range(n):
                h.eq(x[t], expected(h, ref[i, t], lo[i, t], hi[i, t], F[i, t], Ls[i], a, b, 2.3, 0.33, -32.5), "R[%s,%d]" % (c, t))

    return fn


def combos(h):
    x = mkda(h.array("p", 1, -90, -20), 1)
    given = {k: h.fork("has_" + k) for k in ("f_GHz", "pol", "a", "b")}
    vals = {"f_GHz": 20.0, "pol": "V", "a": 0.1, "b": 1.0}
    kw = {k: vals[k] for k in vals if given[k]}
    if set(kw) in ({"f_GHz", "pol"}, {"a", "b"}):
        h.call(N.nearby_rainfall_retrival, x, x, x, x, 1.0, **kw)
        h.true(np.bool_(True), "accepted")
    else:
        h.raises(ValueError, N.nearby_rainfall_retrival, x, x, x, x, 1.0, label="bad combination rejected", **kw)


def cases(tier):
    return [
        Case("time series", plain("da"), fork_ite=True),
        Case("plain arrays", plain("np"), fork_ite=True),
        Case("long", long, fork_ite=True, bounds="120 steps"),
        Case("very long", verylong, fork_ite=True, bounds="7000 steps", history=False),
        Case("defaults", defaults),
        Case("properties", properties, pairwise=("pow",)),
        Case("frequency and polarization", freqpol, fork_ite=True),
        Case("links", links(False), fork_ite=True),
        Case("links transposed", links(True), fork_ite=True),
        Case("argument combinations", combos),
    ]
