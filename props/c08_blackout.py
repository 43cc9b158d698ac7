"""Blackout gap detection."""
import numpy as np
import xarray as xr

from pycomlink.processing import blackout_gap_detection as G
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.blackout_gap_detection.get_blackout_start_and_end",
             "processing.blackout_gap_detection.created_blackout_gap_mask_from_start_end_markers",
             "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = "series of 5-7 (quick) / 7-9 (thorough) levels in [-100,0] or NaN, threshold symbolic; arbitrary markers on valid samples; 2x4 DataArrays"
OUTSIDE = ("longer series; gaps that directly follow a single valid sample which also ends another gap (the forward pass leaves them "
           "unmasked, an existing test relies on it)")
BUDGET = {"quick": 240, "thorough": 2400}


def markers(T):
    def fn(h):
        rsl = h.array("rsl", T, -100, 0, nan=True)
        thr = h.real("thr", -90, -20)
        s, e = h.call(G.get_blackout_start_and_end, rsl, thr)
        h.observe("start", s)
        h.observe("end", e)
        check_markers(h, list(s), list(e), list(rsl), thr)

    return fn


def check_markers(h, s, e, rsl, thr):
    T = len(rsl)
    for i in range(T):
        low = h.and_(h.not_(h.isnan(rsl[i])), rsl[i] < thr)
        h.eq(s[i], h.and_(low, h.isnan(rsl[i + 1])) if i + 1 < T else np.bool_(False), "gap start[%d]" % i)
        h.eq(e[i], h.and_(low, h.isnan(rsl[i - 1])) if i > 0 else np.bool_(False), "gap end[%d]" % i)


def check_mask(h, m, nan, s, e):
    """nan, s, e concrete booleans per path"""
    T = len(nan)
    i = 0
    while i < T:
        if not nan[i]:
            h.eq(m[i], np.bool_(False), "valid sample %d not masked" % i)
            i += 1
            continue
        p = i - 1
        q = i
        while q < T and nan[q]:
            q += 1
        if p >= 0 and s[p] and e[p]:
            pass
        else:
            for k in range(i, q):
                h.eq(m[k], np.bool_(p >= 0 and s[p]), "gap sample %d" % k)
        i = q


def pipeline(T):
    def fn(h):
        rsl = h.array("rsl", T, -100, 0, nan=True)
        thr = h.real("thr", -90, -20)
        s, e = h.call(G.get_blackout_start_and_end, rsl, thr)
        m = h.call(G.created_blackout_gap_mask_from_start_end_markers, rsl, s, e)
        h.observe("mask", m)
        nan = [bool(h.isnan(x)) for x in rsl]
        sb = [(not nan[i]) and i + 1 < T and nan[i + 1] and bool(rsl[i] < thr) for i in range(T)]
        eb = [(not nan[i]) and i > 0 and nan[i - 1] and bool(rsl[i] < thr) for i in range(T)]
        check_mask(h, list(m), nan, sb, eb)

    return fn


def free_markers(T):
    def fn(h):
        nan = [h.fork("n%d" % i) for i in range(T)]
        rsl = h.mk([np.nan if n else h.real("r%d" % i, -100, 0) for i, n in enumerate(nan)])
        s = [False if n else h.fork("s%d" % i) for i, n in enumerate(nan)]
        e = [(not n) and i > 0 and nan[i - 1] for i, n in enumerate(nan)]
        m = h.call(G.created_blackout_gap_mask_from_start_end_markers, rsl, h.const(np.array(s)), h.const(np.array(e)))
        h.observe("mask", m)
        check_mask(h, list(m), nan, s, e)

    return fn


def verylong(h):
    longcase(h, 11000, [(120 + 77 * k, 120 + 77 * k + (1, 5, 40, 76)[k % 4]) for k in range(100)] + [(8000, 9900)])


def longcase(h, T=120, more=()):
    """long gaps and long series"""
    gaps = [(3, 4), (10, 50), (60, 61), (62, 64), (80, 119)] + list(more)
    v = [-55.0 - (i * 37 % 101) / 8.0 for i in range(T)]
    for a, b in gaps:
        v[a:b] = [np.nan] * (b - a)
    for i in (2, 9, 50, 79, 119) if T < 1000 else (9, 119):
        v[i] = h.real("rsl%d" % i, -100, 0)
    s, e = h.call(G.get_blackout_start_and_end, h.mk(v), -60.0)
    m = h.call(G.created_blackout_gap_mask_from_start_end_markers, h.mk(v), s, e)
    nan = [bool(h.isnan(x)) for x in v]
    sb = [(not nan[i]) and i + 1 < T and nan[i + 1] and bool(v[i] < -60) for i in range(T)]
    eb = [(not nan[i]) and i > 0 and nan[i - 1] and bool(v[i] < -60) for i in range(T)]
    check_markers(h, list(s), list(e), v, -60.0)
    check_mask(h, list(m), nan, sb, eb)


def near_threshold(h):
    """levels just below, at and just above the threshold; also one with many digits"""
    thr = h.choose("threshold", [-60.0, -65.3, -72.1])
    v = [-50.0]
    for d in (-1.5, -1e-7, -1e-9, 0.0, 1e-9, 1e-7, 1.5):
        v += [thr + d, np.nan]
    v += [-50.0]
    v[5] = h.real("rsl", -100, 0)
    T = len(v)
    s, e = h.call(G.get_blackout_start_and_end, h.mk(v), thr)
    check_markers(h, list(s), list(e), v, thr)
    m = h.call(G.created_blackout_gap_mask_from_start_end_markers, h.mk(v), s, e)
    nan = [bool(h.isnan(x)) for x in v]
    sb = [(not nan[i]) and i + 1 < T and nan[i + 1] and bool(v[i] < thr) for i in range(T)]
    eb = [(not nan[i]) and i > 0 and nan[i - 1] and bool(v[i] < thr) for i in range(T)]
    check_mask(h, list(m), nan, sb, eb)


def outage(gap):
    """an outage of many hours"""

    def fn(h):
        T = gap + 6
        v = [-45.0] * T
        k = h.choose("from", [0, 1, 3])
        for i in range(k, k + gap):
            v[i] = np.nan
        if k:
            v[k - 1] = h.real("before", -100, 0, nan=True)
        v[k + gap] = h.real("after", -100, 0)
        thr = h.real("thr", -90, -20)
        s, e = h.call(G.get_blackout_start_and_end, h.mk(v), thr)
        m = h.call(G.created_blackout_gap_mask_from_start_end_markers, h.mk(v), s, e)
        nan = [bool(h.isnan(x)) for x in v]
        sb = [(not nan[i]) and i + 1 < T and nan[i + 1] and bool(v[i] < thr) for i in range(T)]
        eb = [(not nan[i]) and i > 0 and nan[i - 1] and bool(v[i] < thr) for i in range(T)]
        check_markers(h, list(s), list(e), v, thr)
        check_mask(h, list(m), nan, sb, eb)

    return fn


def dacase(order):
    def fn(h):
        rsl = h.array("rsl", (2, 3), -100, 0, nan=True)
        thr = -65.0
        co = {"channel_id": ["a", "b"], "time": times(3)}
        da = xr.DataArray(rsl, dims=("channel_id", "time"), coords=co)
        if order:
            da = da.transpose("time", "channel_id")
        s, e = h.call(G.get_blackout_start_and_end, da, thr)
        s, e = s.transpose("channel_id", "time"), e.transpose("channel_id", "time")
        for k in range(2):
            check_markers(h, list(s.data[k]), list(e.data[k]), list(rsl[k]), thr)

    return fn


def cases(tier):
    q = tier == "quick"
    return [
        Case("markers", markers(6 if q else 9)),
        Case("mask", pipeline(5 if q else 7)),
        Case("mask from markers", free_markers(6 if q else 7)),
        Case("one sample", pipeline(1)),
        Case("two samples", pipeline(2)),
        Case("long", longcase, bounds="T=120"),
        Case("very long", verylong, bounds="T=11000", history=False),
        Case("near the threshold", near_threshold),
        Case("an outage of two hours", outage(125), bounds="125 missing samples, levels before and after symbolic"),
        Case("an outage of a day", outage(1441), bounds="1441 missing samples, levels before and after symbolic"),
        Case("dataarray", dacase(False)),
        Case("dataarray time first", dacase(True)),
    ]
