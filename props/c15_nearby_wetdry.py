"""Nearby link wet/dry classification."""
import numpy as np
import xarray as xr

from pycomlink.processing.wet_dry import nearby_wetdry as N
from symx.harness import Case
from props.util import times, total

FUNCTIONS = ["processing.wet_dry.nearby_wetdry.nearby_wetdry"]
BOUNDS = ("3-4 links, 3-6 time steps, levels in [-100,0] with NaN, every neighbourhood pattern of one link, symbolic thresholds, windows of 2-3 steps, "
          "intervals of 15, 30, 60 and 90 minutes")
OUTSIDE = "longer series and larger networks; medians are exact"
BUDGET = {"quick": 300, "thorough": 2400}
VARS = ["a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"]
LEN = [2.0, 4.0, 0.5, 8.0]


def ds_of(ids, D):
    return xr.Dataset({v: (("cml_id1", "cml_id2"), D[v]) for v in VARS}, coords={"cml_id1": ids, "cml_id2": ids})


def near(n, inside=3.0):
    return {v: np.where(np.eye(n), 0.0, inside) for v in VARS}


def mk_pmin(h, p, ids, length, interval=60):
    n, T = p.shape
    return xr.DataArray(p, dims=("cml_id", "time"), coords={"cml_id": ids, "time": times(T, "%dmin" % interval), "length": ("cml_id", np.array(length))})


def med(h, xs):
    """median of a list of plain values; the comparisons fork"""
    n = len(xs)
    ys = []
    for x in xs:
        j = len(ys)
        while j > 0 and bool(x < ys[j - 1]):
            j -= 1
        ys.insert(j, x)
    return ys[n // 2] if n % 2 else (ys[n // 2 - 1] + ys[n // 2]) / 2


def deltas(h, p, period, needed):
    n, T = p.shape
    out = []
    for j in range(n):
        row = []
        for t in range(T):
            w = [p[j, s] for s in range(max(0, t - period + 1), t + 1) if not bool(h.isnan(p[j, s]))]
            if len(w) < needed or bool(h.isnan(p[j, t])):
                row.append(None)
                continue
            m = w[0]
            for v in w[1:]:
                m = v if bool(v > m) else m
            row.append(p[j, t] - m)
        out.append(row)
    return out


def rule(h, dP, length, nb, i, min_links, thP, thPL, period, interval):
    """-> (classification before the shift, after it, F) of link i"""
    T = len(dP[0])
    w0, mPL = [], []
    for t in range(T):
        ok = [j for j in nb if dP[j][t] is not None]
        if len(ok) <= min_links:
            w0.append(None)
            mPL.append(None)
            continue
        a = med(h, [dP[j][t] for j in ok])
        b = med(h, [dP[j][t] / length[j] for j in ok])
        w0.append(bool(a < thP) and bool(b < thPL))
        mPL.append(b)
    own = [bool(w0[t]) and dP[i][t] is not None and bool(dP[i][t] < -2) for t in range(T)]
    wet = []
    for t in range(T):
        if w0[t] is None:
            wet.append(np.nan)
        else:
            s = [x for x in (t - 1, t + 1, t + 2) if 0 <= x < T]
            wet.append(1.0 if w0[t] or any(own[x] for x in s) else 0.0)
    F = []
    for t in range(T):
        k = range(t - period + 1, t + 1)
        if t - period + 1 < 0 or any(mPL[s] is None or dP[i][s] is None for s in k):
            F.append(np.nan)
        else:
            F.append(total([dP[i][s] / length[i] - mPL[s] for s in k]) * (interval / 60))
    return w0, wet, F


def check(h, wet, F, W, Fe, T, what):
    for t in range(T):
        edge = t >= T - 2 or t == 0
        if "wet" in what and not edge:
            h.eq(wet[t], W[t], "wet[%d]" % t)
        if edge and "edge" in what:
            h.eq(wet[t], W[t], "edge rule: wet[%d]" % t)
        if edge and "edge" not in what:
            # steps whose neighbours lie outside the series: the rule, or wet (see known_findings.json)
            h.true(h.isnan(wet[t]) if W[t] != W[t] else h.or_(wet[t] == W[t], wet[t] == 1.0), "first or last steps: wet[%d]" % t)
        if "F" in what:
            h.eq(F[t], Fe[t], "F[%d]" % t)


BASE = np.array([[-40.0, -41.0, -44.0, -41.5, -46.0, -43.0], [-40.0, -43.0, -41.0, -47.0, -42.0, -45.0], [-41.0, -41.0, -45.0, -42.0, -42.0, -40.0], [-39.0, -44.0, -40.0, -40.0, -43.0, -41.0]])


def classify(T, n, sym, nans, what, min_links=1, period=2, needed=1, thr=True, order=None):
    """Classification and F of link 0 with all links nearby; the levels in `sym` and `nans` (which may be missing) are symbolic."""

    def fn(h):
        ids = ["c", "a", "b", "d"][:n]
        p = h.const(BASE[:n, :T])
        for j, t in list(sym) + list(nans):
            p[j, t] = h.real("p[%d,%d]" % (j, t), -100, 0, nan=(j, t) in nans)
        da = mk_pmin(h, p, ids, LEN[:n])
        dids = ids if order is None else [ids[k] for k in order]
        ds = ds_of(dids, near(n))
        thP = h.real("thP", -5, 0) if thr else -1.5
        thPL = h.real("thPL", -2, 0) if thr else -0.75
        wet, F = h.call(N.nearby_wetdry, da, ds, radius=15, thresh_median_P=thP, thresh_median_PL=thPL, min_links=min_links, interval=60, timeperiod=period, min_hours=needed)
        h.equal_obj(list(wet.cml_id.values), ids, "ids")
        dP = deltas(h, p, period, needed)
        w, f = wet.sel(cml_id="c").data, F.sel(cml_id="c").data
        if "F" in what:
            h.observe("F", f)
        h.observe("wet", w)
        _, W, Fe = rule(h, dP, LEN, range(n), 0, min_links, thP, thPL, period, 60)
        check(h, w, f, W, Fe, T, what)

    return fn


def neighbourhood(n, min_links, order=None):
    """A link is nearby exactly if all four distances are below the radius; too few nearby links give NaN."""

    def fn(h):
        ids = [3, 1, 7, 5][:n]
        T = 3
        lv = np.array([[-40.0, -41.0, -44.0], [-40.0, -45.0, -50.0], [-40.0, -40.0, -40.0], [-40.0, -60.0, -41.0]])[:n]
        r = h.real("radius", 5, 20)
        D = {v: near(n, 4.0)[v].astype(object) for v in VARS}
        vs = h.choose("var", VARS)
        din = {}
        for j in range(1, n):
            din[j] = h.real("d%d" % j, 0, 40)
            D[vs][0, j] = din[j]
            D[VARS[(VARS.index(vs) + 1) % 4]][j, 0] = 99.0  # distances from j do not matter for link 0
        ds = xr.Dataset({v: (("cml_id1", "cml_id2"), h.mk([list(x) for x in D[v]])) for v in VARS}, coords={"cml_id1": ids, "cml_id2": ids})
        if order is not None:
            ds = ds.isel(cml_id1=order, cml_id2=order[::-1])
        da = mk_pmin(h, h.const(lv), ids, LEN[:n])
        wet, F = h.call(N.nearby_wetdry, da, ds, radius=r, thresh_median_P=-1.5, thresh_median_PL=-0.25, min_links=min_links, interval=60, timeperiod=2, min_hours=1)
        nb = [0] + [j for j in range(1, n) if bool(din[j] < r)]
        w, f = wet.sel(cml_id=3).data, F.sel(cml_id=3).data
        if len(nb) <= min_links:
            for t in range(T):
                h.true(h.isnan(w[t]), "too few nearby links: wet")
                h.true(h.isnan(f[t]), "too few nearby links: F")
            return
        dP = deltas(h, lv, 2, 1)
        _, W, Fe = rule(h, dP, LEN, nb, 0, min_links, -1.5, -0.25, 2, 60)
        check(h, w, f, W, Fe, T, "wet F")

    return fn


def units(h):
    """Windows are given in hours, the sampling interval in minutes."""
    interval = h.choose("interval", [15, 30, 60, 90])
    hours = h.choose("timeperiod", [1, 1.5, 3])
    minh = h.choose("min_hours", [0.5, 1, 1.5])
    period, needed = int(hours * 60 / interval), int(minh * 60 / interval)
    if period < 1 or needed < 1 or needed > period:
        return
    T = 14
    base = np.array([-40.0, -42, -45, -41, -41, -43, -50, -44, -42, -40, -41, -46, -44, -40.5])
    lv = np.array([base, base * 1.1, base[::-1] * 0.9])
    x = h.real("x", -60, -38)
    p = h.const(lv)
    p[0, 5] = x
    ids = ["a", "b", "c"]
    wet, F = h.call(N.nearby_wetdry, mk_pmin(h, p, ids, LEN[:3], interval), ds_of(ids, near(3)), thresh_median_P=-1.5, thresh_median_PL=-0.75, min_links=1, interval=interval, timeperiod=hours, min_hours=minh)
    dP = deltas(h, p, period, needed)
    for i in (0, 2):
        _, W, Fe = rule(h, dP, LEN, range(3), i, 1, -1.5, -0.75, period, interval)
        check(h, wet.data[i], F.data[i], W, Fe, T, "wet F")


def defaults(h):
    """Without further arguments: 15 km, -1.4 dB, -0.7 dB/km, more than three links, 15 minute steps, 24 hours of which 6 must be valid."""
    n, T = 4, 101
    lv = -40.0 - (np.arange(T)[None, :] * np.array([3, 5, 7, 11])[:, None] % 13) / 32.0
    lv[:, 0] = np.nan
    lv[:, 1] = -39.0  # just before the window of step 97
    lv[:, 2] = -39.5  # its first step
    lv[:, 97] = -39.5 + np.array(h.choose("drops", [(-1.0, -4.0, 0.0, 0.0), (-3.0, -1.2, 0.0, -8.0)]))
    p = h.const(lv)
    if h.fork("gap"):
        p[1, 24] = np.nan
    p[2, 97] = h.real("p[2,97]", -42.5, -39.75)
    ids = ["c", "a", "b", "d"]
    ds = ds_of(ids, near(n, h.choose("distance", [14.75, 15.25])))
    wet, F = h.call(N.nearby_wetdry, mk_pmin(h, p, ids, LEN[:n], 15), ds)
    w, f = wet.sel(cml_id="c").data, F.sel(cml_id="c").data
    if float(ds[VARS[0]].values.max()) > 15:
        h.true(h.and_(*[h.isnan(x) for x in list(w)]), "too few nearby links: wet")
        return
    dP = deltas(h, p, 96, 24)
    _, W, Fe = rule(h, dP, LEN, range(n), 0, 3, -1.4, -0.7, 96, 15)
    check(h, w, f, W, Fe, T, "wet F")


def network(h):
    """twelve links, every link by its own neighbours; distances in another order"""
    n, T = 12, 24
    ids = [(i * 7) % n for i in range(n)]
    lv = -40.0 - (np.arange(T)[None, :] * (3 + 2 * np.arange(n))[:, None] % 17) / 4.0
    lv[3, 5:9] = np.nan
    p = h.const(lv)
    p[1, 20] = h.real("p[1,20]", -42.1, -41.1)
    length = [[0.125, 0.5, 1.0, 30.0][i % 4] + 0.5 * (i // 4) for i in range(n)]
    pos = np.array([i * 4.0 for i in range(n)])
    D = {v: np.abs(pos[:, None] - pos[None, :]) + k * 0.25 for k, v in enumerate(VARS)}
    wet, F = h.call(N.nearby_wetdry, mk_pmin(h, p, ids, length), ds_of(ids, D).isel(cml_id1=[(5 * i + 2) % n for i in range(n)], cml_id2=[(7 * i + 1) % n for i in range(n)]), radius=15, thresh_median_P=-1.5, thresh_median_PL=-0.5, min_links=3, interval=60, timeperiod=6, min_hours=3)
    dP = deltas(h, p, 6, 3)
    for i in (0, 4, 5, 11):
        nb = [j for j in range(n) if all(D[v][i, j] < 15 for v in VARS)]
        _, W, Fe = rule(h, dP, length, nb, i, 3, -1.5, -0.5, 6, 60)
        check(h, wet.sel(cml_id=ids[i]).data, F.sel(cml_id=ids[i]).data, W, Fe, T, "wet F")


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("thresholds", classify(5, 2, [(0, 2), (1, 2)], [], "wet F")),
        Case("own drop", classify(5, 2, [(0, 1), (0, 2), (0, 3)], [], "wet", thr=False)),
        Case("maximum", classify(5, 2, [(0, 0), (0, 1), (0, 2)], [], "wet F", thr=False, period=3)),
        Case("three links", classify(5, 3, [(0, 2), (1, 2), (2, 2)], [], "wet", thr=False)),
        Case("gaps", classify(5, 2, [], [(0, 1), (0, 2), (1, 2)], "wet F", thr=False)),
        Case("gaps three links", classify(5, 3, [(0, 2)], [(1, 2)], "wet", thr=False, period=3, needed=2)),
        Case("distances in another order", classify(4, 3, [(0, 1)], [], "wet", thr=False, order=[2, 0, 1])),
        Case("edge steps", classify(4, 2, [(0, 2), (1, 2)], [], "edge", thr=False), history=False),
        Case("neighbourhood", neighbourhood(3, 1)),
        Case("neighbourhood of four", neighbourhood(4, 2)),
        Case("neighbourhood, distances in another order", neighbourhood(3, 1, [2, 0, 1])),
        Case("units", units),
        Case("default arguments", defaults),
        Case("network", network, bounds="12 links, 24 steps, one symbolic level"),
    ]
    if not q:
        cs += [
            Case("long", classify(6, 2, [(0, 1), (0, 2), (0, 3), (1, 2)], [(1, 3)], "wet F", thr=False, period=3, needed=2)),
            Case("gaps thresholds", classify(5, 2, [(0, 2)], [(0, 1), (1, 2)], "wet F")),
            Case("four links", classify(5, 4, [(0, 2), (1, 2), (2, 2)], [(3, 2)], "wet F", thr=False, min_links=2)),
        ]
    return cs
