"""Constant baseline."""
import numpy as np
import pandas as pd
import xarray as xr

from pycomlink.processing import baseline as B
from symx.harness import Case
from props.util import NAN, flags, isnan, level, long_flags, times, total

FUNCTIONS = ["processing.baseline.baseline_constant", "processing.baseline._numba_baseline_constant",
             "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("series of 6 (quick) / 9 (thorough) time steps, n_average_last_dry in 1..4, TRSL in [-100,100] or NaN, wet any "
          "boolean pattern (symbolic) or any pattern of dry/wet/NaN (5 / 6 steps); two-dimensional DataArrays of 2x4; 200 steps with events of up to 70 steps, "
          "windows up to 60, 4 symbolic levels and 2 symbolic flags; series of 1-3 steps")
OUTSIDE = "longer series, rounding of the mean"
BUDGET = {"quick": 200, "thorough": 2400}


def spec(h, trsl, wet, n):
    """Independent statement: the average of the last n baseline values is held through each event."""
    out = []
    for i in range(len(trsl)):
        if i < n:
            out.append(trsl[i])
            continue
        event = h.ite(wet[i - 1], out[i - 1], total(out[i - n : i]) / float(n))
        out.append(h.ite(wet[i], event, trsl[i]))
    return out


def spec_nan(trsl, wet, n):
    """As above for known flags; unknown flags give NaN until the next dry sample."""
    out = []
    for i in range(len(trsl)):
        if isnan(wet[i]):
            v = NAN
        elif i < n:
            v = trsl[i]
        elif wet[i] == 0:
            v = trsl[i]
        elif isnan(wet[i - 1]):
            v = NAN
        elif wet[i - 1] == 1:
            v = out[i - 1]
        else:
            v = total(out[i - n : i]) / float(n)
        out.append(v)
    return out


def ndcase(T, n, lo=-100, hi=100, nan=True):
    def fn(h):
        trsl = h.array("trsl", T, lo, hi, nan=nan)
        wet = h.array("wet", T, dtype=bool)
        r = h.call(B.baseline_constant, trsl, wet, n)
        h.observe("baseline", r)
        h.eq(r, spec(h, list(trsl), list(wet), n), "baseline")

    return fn


def nancase(T, n):
    def fn(h):
        trsl = h.array("trsl", T)
        wet = flags(h, "wet", T)
        h.assume(any(isnan(w) for w in wet))
        w = h.const(np.array(wet))
        h.snap(w, "wet")
        r = h.call(B.baseline_constant, trsl, w, n)
        h.observe("baseline", r)
        s = spec_nan(list(trsl), wet, n)
        for i in range(T):
            if i < n and wet[i] == 1 and i > 0 and any(isnan(x) for x in wet[:i]):
                continue  # not specified: wet in the copied head after an unknown flag
            h.eq(r[i], s[i], "baseline[%d]" % i)

    return fn


def dacase(order, n):
    def fn(h):
        trsl = h.array("trsl", (2, 4), nan=lambda ix: ix == (0, 2))
        wet = h.array("wet", (2, 4), dtype=bool)
        co = {"channel_id": ["a", "b"], "time": times(4)}
        da = xr.DataArray(trsl, dims=("channel_id", "time"), coords=co)
        dw = xr.DataArray(wet, dims=("channel_id", "time"), coords=co)
        if order:
            da, dw = da.transpose("time", "channel_id"), dw.transpose("time", "channel_id")
        r = h.call(B.baseline_constant, trsl=da, wet=dw, n_average_last_dry=n)
        h.true(np.bool_(set(r.dims) == set(da.dims)), "dims")
        r = r.transpose("channel_id", "time")
        h.observe("baseline", r)
        h.equal_obj(r.channel_id.values, np.array(["a", "b"]), "channel order")
        h.eq(r, [spec(h, list(trsl[k]), list(wet[k]), n) for k in range(2)], "baseline")

    return fn


def longcase(n, T=200):
    """long series: mostly fixed, some levels and flags free"""

    def fn(h):
        v = [level(i) for i in range(T)]
        w = long_flags(T)
        for i in (3, 60, 66, 150):
            v[i] = h.real("trsl%d" % i, -100, 100, nan=i == 60)
        for i in (64, 120):
            w[i] = h.choose("wet%d" % i, [0.0, 1.0, NAN])
        r = h.call(B.baseline_constant, h.mk(v), np.array(w), n)
        h.eq(list(r), spec_nan(v, w, n), "baseline of a long series")

    return fn


def defcase(h):
    """Without n_average_last_dry the last dry value is held."""
    trsl = h.array("trsl", 4, nan=True)
    wet = h.array("wet", 4, dtype=bool)
    r = h.call(B.baseline_constant, trsl, wet)
    h.eq(r, spec(h, list(trsl), list(wet), 1), "baseline, default averaging")


def seriescase(h):
    """pandas Series are taken by position, whatever their index."""
    v = [-50.25, -47.5, -61.0, -55.125, -52.0]
    wet = flags(h, "wet", 5, nan=False)
    ix = h.choose("index", [[4, 3, 2, 1, 0], [10, 11, 12, 13, 14], list(times(5))])
    n = h.choose("n", [1, 2])
    t, w = pd.Series(v, index=ix), pd.Series(wet, index=ix)
    if h.fork("boolean flags"):
        w = w.astype(bool)
    r = h.call(B.baseline_constant, t, w, n)
    h.eq(list(np.asarray(r)), spec_nan(v, wet, n), "baseline of a Series")


def intcase(h):
    """Integer levels are not truncated."""
    v = [50, 47, 61, 55, 52]
    wet = flags(h, "wet", 5, nan=False)
    n = h.choose("n", [1, 2, 3])
    r = h.call(B.baseline_constant, np.array(v), np.array(wet).astype(h.choose("flag type", [bool, int, float])), n)
    h.eq(list(np.asarray(r)), spec_nan([float(x) for x in v], wet, n), "baseline of integer levels")


def cases(tier):
    q = tier == "quick"
    T = 6 if q else 9
    cs = [Case("numpy n=%d" % n, ndcase(T, n), bounds="T=%d" % T) for n in (1, 2, 3, 4)]
    cs += [Case("nanwet n=%d" % n, nancase(5 if q else 6, n)) for n in (1, 2)]
    cs += [Case("numpy T=%d n=%d" % (t, n), ndcase(t, n)) for t, n in ((1, 1), (2, 4), (3, 3))]
    cs += [Case("long n=%d" % n, longcase(n), bounds="T=200") for n in (1, 7, 60)]
    cs += [Case("very long", longcase(3, 11000), bounds="T=11000")]
    cs.append(Case("default averaging", defcase, bounds="T=4"))
    cs.append(Case("series", seriescase, bounds="T=5, fixed levels"))
    cs.append(Case("integer levels", intcase, bounds="T=5, fixed levels"))
    cs.append(Case("dataarray", dacase(False, 1), bounds="2x4"))
    cs.append(Case("dataarray time first", dacase(True, 2), bounds="4x2"))
    return cs
