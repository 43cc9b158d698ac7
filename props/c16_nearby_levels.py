"""Nearby link approach: reference level and corrected received signals."""
import numpy as np
import xarray as xr

from pycomlink.processing import nearby_rain_retrival as N
from symx.harness import Case
from props.util import times, flags

FUNCTIONS = ["processing.nearby_rain_retrival.nearby_determine_reference_level", "processing.nearby_rain_retrival.nearby_correct_received_signals"]
BOUNDS = ("1-2 links, 3-5 time steps, pmin and pmax in [-100,0] (some missing), every combination of dry/wet/unknown flags, "
          "windows of 1-4 steps, 1-3 samples needed")
OUTSIDE = "longer series (a few long ones with mostly fixed levels)"
BUDGET = {"quick": 300, "thorough": 2400}


def med(xs):
    ys = []
    for x in xs:
        j = len(ys)
        while j > 0 and bool(x < ys[j - 1]):
            j -= 1
        ys.insert(j, x)
    n = len(ys)
    return ys[n // 2] if n % 2 else (ys[n // 2 - 1] + ys[n // 2]) / 2


def da1(x, T, dims=("time",), **co):
    return xr.DataArray(x, dims=dims, coords=dict(co, time=times(T, "15min")))


def expected_ref(h, pmin, pmax, wet, n, mp):
    T = len(wet)
    out = []
    for t in range(T):
        w = []
        for s in range(max(0, t - n + 1), t + 1):
            if wet[s] == 0 and not bool(h.isnan(pmin[s])) and not bool(h.isnan(pmax[s])):
                w.append((pmin[s] + pmax[s]) / 2)
        out.append(med(w) if len(w) >= max(mp, 1) else np.nan)
    return out


def reference(T, n, mp, nans, kw=True):
    def fn(h):
        pmin = h.array("pmin", T, -100, 0, nan=lambda ix: ("min", ix[0]) in nans)
        pmax = h.array("pmax", T, -100, 0, nan=lambda ix: ("max", ix[0]) in nans)
        wet = flags(h, "wet", T)
        r = h.call(N.nearby_determine_reference_level, da1(pmin, T), da1(pmax, T), da1(np.array(wet), T), n_average_dry=n, min_periods=mp)
        h.observe("pref", r)
        e = expected_ref(h, pmin, pmax, wet, n, mp)
        for t in range(T):
            h.eq(r.data[t], e[t], "pref[%d]" % t)

    return fn


def reference_types(h):
    """integer and boolean flags mean the same as 0.0 and 1.0"""
    T = 3
    pmin = h.array("pmin", T, -100, 0)
    wet = flags(h, "wet", T, nan=False)
    w = np.array(wet).astype(h.choose("dtype", [int, bool]))
    r = h.call(N.nearby_determine_reference_level, da1(pmin, T), da1(pmin, T), da1(w, T), n_average_dry=2)
    e = expected_ref(h, pmin, pmin, wet, 2, 1)
    for t in range(T):
        h.eq(r.data[t], e[t], "pref[%d]" % t)


def reference_defaults(h):
    """Without further arguments: the last 96 steps, of which one dry one is enough."""
    T = 99
    lv = -50.0 - (np.arange(T) * 37 % 101) / 16.0
    pmin, pmax = h.const(lv), h.const(lv + 2.0)
    for t in (2, 3, 50):
        pmin[t] = h.real("pmin[%d]" % t, -100, -70)
    wet = [0.0] * T
    k = h.choose("dry", ["all", "few", "first"])
    if k == "few":
        wet = [0.0 if t in (0, 2, 3, 98) else 1.0 for t in range(T)]
    elif k == "first":
        wet = [0.0 if t == 2 else 1.0 for t in range(T)]
    r = h.call(N.nearby_determine_reference_level, da1(pmin, T), da1(pmax, T), da1(np.array(wet), T))
    e = expected_ref(h, pmin, pmax, wet, 96, 1)
    for t in range(T):
        h.eq(r.data[t], e[t], "pref[%d]" % t)


def corrected_verylong(h):
    corrected_long(h, 9000)


def corrected_long(h, T=80):
    """many steps, mostly fixed"""
    lo = [-50.0 - (i * 37 % 101) / 8.1 for i in range(T)]
    hi = [v + (i * 5 % 7) / 4.0 for i, v in enumerate(lo)]
    ref = [-53.0 - (i // 20) % 9 for i in range(T)]
    wet = np.array([float(i * 7 % 3 == 0) for i in range(T)])
    lo[40], hi[42], ref[60] = h.real("lo", -100, 0), h.real("hi", -100, 0), h.real("ref", -100, 0, nan=True)
    a, b = h.call(N.nearby_correct_received_signals, da1(h.mk(lo), T), da1(h.mk(hi), T), da1(wet, T), da1(h.mk(ref), T))
    for t in range(T):
        rain = wet[t] == 1 and bool(lo[t] < ref[t])
        h.eq(a.data[t], lo[t] if rain and not bool(h.isnan(ref[t])) else ref[t], "p_c_min[%d]" % t)
        h.eq(b.data[t], hi[t] if rain and bool(hi[t] < ref[t]) else ref[t], "p_c_max[%d]" % t)


def links(order):
    """every link by itself, whatever the dimension order"""

    def fn(h):
        T = 3
        pmin = h.array("pmin", (2, T), -100, 0)
        pmax = h.array("pmax", (2, T), -100, 0)
        wet = [flags(h, "wet%d" % i, T, nan=False) for i in range(2)]
        d = ("cml_id", "time")
        mk = lambda x: da1(x, T, d, cml_id=["b", "a"])
        a, b, w = mk(pmin), mk(pmax), mk(np.array(wet))
        if order:
            a, b, w = a.T, b.T, w.T
        r = h.call(N.nearby_determine_reference_level, a, b, w, n_average_dry=2)
        for i, c in enumerate("ba"):
            x = r.sel(cml_id=c).data
            e = expected_ref(h, pmin[i], pmax[i], wet[i], 2, 1)
            for t in range(T):
                h.eq(x[t], e[t], "pref[%s,%d]" % (c, t))

    return fn


def corrected(h):
    T = 2
    pmin = h.array("pmin", T, -100, 0, nan=lambda ix: ix[0] == 1)
    pmax = h.array("pmax", T, -100, 0, nan=lambda ix: ix[0] == 1)
    pref = h.array("pref", T, -100, 0, nan=True)
    wet = flags(h, "wet", T)
    lo, hi = h.call(N.nearby_correct_received_signals, da1(pmin, T), da1(pmax, T), da1(np.array(wet), T), da1(pref, T))
    h.observe("lo", lo)
    h.observe("hi", hi)
    for t in range(T):
        r = pref[t]
        a, b = lo.data[t], hi.data[t]
        if bool(h.isnan(r)):
            h.true(h.isnan(a), "unknown reference: p_c_min")
            h.true(h.isnan(b), "unknown reference: p_c_max")
            continue
        rain = wet[t] == 1 and bool(pmin[t] < r)
        h.eq(a, pmin[t] if rain else r, "p_c_min[%d]" % t)
        h.eq(b, pmax[t] if rain and bool(pmax[t] < r) else r, "p_c_max[%d]" % t)
        h.true(h.and_(a <= r, b <= r), "never above the reference level")
        if wet[t] != 1:
            h.true(h.and_(a == r, b == r), "no attenuation outside wet steps")


def corrected_gap(h):
    """a missing level outside wet steps is replaced by the reference level too"""
    pmin = h.array("pmin", 2, -100, 0, nan=True)
    pmax = h.array("pmax", 2, -100, 0, nan=True)
    pref = h.array("pref", 2, -100, 0, nan=True)
    wet = [h.choose("wet[%d]" % i, [0.0, float("nan")]) for i in range(2)]
    lo, hi = h.call(N.nearby_correct_received_signals, da1(pmin, 2), da1(pmax, 2), da1(np.array(wet), 2), da1(pref, 2))
    for t in range(2):
        h.eq(lo.data[t], pref[t], "p_c_min[%d]" % t)
        h.eq(hi.data[t], pref[t], "p_c_max[%d]" % t)


def corrected_links(h):
    T = 2
    p = h.array("pmin", (2, T), -100, 0)
    q = h.array("pmax", (2, T), -100, 0)
    ref = h.array("pref", (2, T), -100, 0)
    wet = np.array([[1.0, 0.0], [np.nan, 1.0]])
    d = ("cml_id", "time")
    mk = lambda x: da1(x, T, d, cml_id=["b", "a"])
    lo, hi = h.call(N.nearby_correct_received_signals, mk(p), mk(q).T, mk(wet), mk(ref))
    for i, c in enumerate("ba"):
        for t in range(T):
            rain = wet[i, t] == 1 and bool(p[i, t] < ref[i, t])
            h.eq(lo.sel(cml_id=c).data[t], p[i, t] if rain else ref[i, t], "p_c_min[%s,%d]" % (c, t))
            h.eq(hi.sel(cml_id=c).data[t], q[i, t] if rain and bool(q[i, t] < ref[i, t]) else ref[i, t], "p_c_max[%s,%d]" % (c, t))


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("reference n=2", reference(4, 2, 1, [("min", 1), ("max", 2)])),
        Case("reference n=3", reference(4, 3, 2, [])),
        Case("reference n=1", reference(2, 1, 1, [("min", 0)])),
        Case("reference min_periods", reference(4, 3, 3, [("max", 1)])),
        Case("reference flag types", reference_types),
        Case("reference default arguments", reference_defaults),
        Case("reference links", links(False)),
        Case("reference links transposed", links(True)),
        Case("corrected long", corrected_long, bounds="80 steps"),
        Case("corrected very long", corrected_verylong, bounds="9000 steps", history=False),
        Case("corrected", corrected),
        Case("corrected gaps", corrected_gap),
        Case("corrected links", corrected_links),
    ]
    if not q:
        cs += [Case("reference n=4", reference(5, 4, 1, [("min", 1)])), Case("reference n=4 of 4", reference(5, 4, 3, [("min", 1), ("max", 2)]))]
    return cs
