"""Validation of links against gridded data."""
import types
from collections import namedtuple

import numpy as np
import pandas as pd
import poligrain as plg
import xarray as xr

from pycomlink.validation import validator as V
from symx.harness import Case
from props import pdsym
from props.util import total

FUNCTIONS = ["validation.validator.GridValidator.get_time_series", "validation.validator.GridValidator.resample_to_grid_time_series", "validation.validator.Validator.calc_stats",
             "validation.validator.calc_wet_dry_error"]
BOUNDS = ("grids of 2x2 to 4x3 pixels, 3-5 grid time steps, pixel values and intersection weights symbolic (every pattern of crossed pixels in one 3x3 grid row/column family), link periods from a list; "
          "resampling of 6 samples with symbolic values onto 3 grid times; correlation of 3-4 symbolic samples")
OUTSIDE = "geometry of the intersection weights (poligrain), missing pixel values below the link, links that cross no pixel, plotting"
STUBS = ["poligrain.spatial.calc_intersect_weights: the given weights for the right link and grid", "symbolic mode: DataFrameGroupBy.mean, Series.corr and DataArray.to_dataframe for symbolic values (props/pdsym.py)"]
BUDGET = {"quick": 200, "thorough": 900}
Coords = namedtuple("Coords", "lon_a lon_b lat_a lat_b")
BOX = {}


def weights(x1_line, y1_line, x2_line, y2_line, x_grid, y_grid, grid_point_location="center", offset=None):
    c = BOX["coords"]
    ends = {(x1_line, y1_line), (x2_line, y2_line)}
    if ends != {(c.lon_a, c.lat_a), (c.lon_b, c.lat_b)} or grid_point_location != "center" or not np.array_equal(x_grid, BOX["lon"]) or not np.array_equal(y_grid, BOX["lat"]):
        raise AssertionError("intersection weights of another link or grid")
    return BOX["w"]


def stubs():
    out = [(plg.spatial, "calc_intersect_weights", weights)]
    return out + [(V, n, weights) for n, v in list(vars(V).items()) if v is plg.spatial.calc_intersect_weights]


def mkcml(idx1, idx2, c=Coords(10.0, 11.5, 47.0, 48.25)):
    BOX["coords"] = c
    ch = lambda i: types.SimpleNamespace(data=pd.DataFrame({"x": np.zeros(len(i))}, index=i))
    return types.SimpleNamespace(get_coordinates=lambda: c, channel_1=ch(idx1), channel_2=ch(idx2))


def grid(h, ny, nx, T, vals, freq="h", name="rain"):
    lon, lat = np.meshgrid(np.linspace(10, 12, nx), np.linspace(47, 49, ny))
    BOX["lon"], BOX["lat"] = lon, lat
    return xr.Dataset({name: (("time", "y", "x"), vals)}, coords={"time": pd.date_range("2020-01-01", periods=T, freq=freq), "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})


def series(ny, nx, T, patterns, nanpix=None):
    """weighted sum of the pixels below the link, at the grid times within the period of the link"""

    def fn(h):
        pat = h.choose("pattern", patterns)
        w = h.const(np.zeros((ny, nx)))
        for (i, j) in pat:
            w[i, j] = h.real("w[%d,%d]" % (i, j), 0.001, 1)
        vals = h.array("v", (T, ny, nx), 0, 50, nan=lambda ix: nanpix is not None and ix[1:] == nanpix)
        ds = grid(h, ny, nx, T, vals)
        BOX["w"] = w
        t0, t1 = h.choose("period", [("2019-12-31 23:30", "2020-01-01 09:00"), ("2020-01-01 00:30", "2020-01-01 01:30"), ("2020-01-01 00:00", "2020-01-01 02:00"), ("2019-12-31 12:00", "2020-01-01 01:01")])
        i1 = pd.DatetimeIndex([t0, "2020-01-01 00:45"])
        i2 = pd.DatetimeIndex(["2020-01-01 00:15", t1])
        g = V.GridValidator(xr_ds=ds)
        r = h.call(g.get_time_series, mkcml(i1, i2), "rain")
        tm = [t for t in ds.time.values if np.datetime64(t0) < t < np.datetime64(t1)]
        h.equal_obj(list(r.index.values), tm, "grid times within the period of the link")
        h.equal_obj("rain" in list(r.columns), True, "column")
        h.true(g.weighted_grid_sum is r, "kept for resampling")
        for k, t in enumerate(tm):
            s = list(ds.time.values).index(t)
            h.eq(list(r["rain"].values)[k], total([w[i, j] * vals[s, i, j] for i, j in pat]), "weighted sum at %s" % t)

    return fn


def large(h):
    """a larger grid and a longer period, mostly fixed values"""
    ny, nx, T = 6, 7, 30
    vals = h.const((np.arange(T * ny * nx) * 37 % 101).reshape(T, ny, nx) / 8.1)
    vals[12, 2, 3] = h.real("v", 0, 50)
    vals[29, 5, 6] = h.real("u", 0, 50)
    pat = [(1, 0), (1, 1), (2, 2), (2, 3), (3, 4), (4, 5), (5, 6)]
    w = h.const(np.zeros((ny, nx)))
    for k, ij in enumerate(pat):
        w[ij] = 0.06 * (1 + k % 3)
    w[3, 4] = h.real("w", 0.001, 1)
    ds = grid(h, ny, nx, T, vals)
    BOX["w"] = w
    i1 = pd.DatetimeIndex(["2020-01-01 01:30", "2020-01-01 20:00"])
    i2 = pd.DatetimeIndex(["2020-01-01 02:15", "2020-01-02 05:30"])
    r = h.call(V.GridValidator(xr_ds=ds).get_time_series, mkcml(i1, i2), "rain")
    h.equal_obj(list(r.index.values), list(ds.time.values[2:30]), "grid times within the period of the link")
    for k in range(28):
        h.eq(list(r["rain"].values)[k], total([w[ij] * vals[(k + 2,) + ij] for ij in pat]), "weighted sum at %d" % k)


def long_period(h):
    """a year of six-hourly grids"""
    ny, nx, T = 2, 3, 1460
    vals = h.const((np.arange(T * ny * nx) * 37 % 101).reshape(T, ny, nx) / 8.1)
    vals = vals + 500.0
    vals[12, 0, 2] = h.real("v", 0, 50)
    vals[1458, 1, 1] = h.real("u", 0, 50)
    w = h.const(np.zeros((ny, nx)))
    w[0, 2], w[1, 1] = 0.3, h.real("w", 0.001, 1)
    ds = grid(h, ny, nx, T, vals, freq="6h")
    BOX["w"] = w
    i1 = pd.DatetimeIndex(["2020-01-01 03:00", "2020-03-01 20:00"])
    i2 = pd.DatetimeIndex(["2020-01-01 04:15", "2021-01-02 05:30"])
    r = h.call(V.GridValidator(xr_ds=ds).get_time_series, mkcml(i1, i2), "rain")
    h.equal_obj(list(r.index.values), list(ds.time.values[1:]), "grid times within the period of the link")
    x = list(r["rain"].values)
    for k in range(T - 1):
        h.eq(x[k], w[0, 2] * vals[k + 1, 0, 2] + w[1, 1] * vals[k + 1, 1, 1], "weighted sum at %d" % k)


def several_links(h):
    """one validator, one link after the other; each with its own pixels"""
    one = Coords(10.0, 11.5, 47.0, 48.25)
    two = h.choose("second link", [Coords(10.0, 11.5, 47.0, 47.25), Coords(10.5, 11.5, 47.0, 48.25), Coords(10.0, 11.5, 48.25, 47.0), Coords(10.0, 11.0, 47.0, 48.25), Coords(10.25, 11.5, 47.5, 48.25)])
    vals = h.array("v", (3, 2, 3), 0, 50)
    ds = grid(h, 2, 3, 3, vals)
    w1, w2 = h.const(np.array([[0.5, 0.25, 0.0], [0.0, 0.25, 0.5]])), h.const(np.zeros((2, 3)))
    w2[0, 2] = h.real("w[0,2]", 0.001, 1)
    w2[1, 0] = h.real("w[1,0]", 0.001, 1)
    i = pd.DatetimeIndex(["2019-12-31", "2020-01-02"])
    g = V.GridValidator(xr_ds=ds)
    BOX["w"] = w1
    h.call(g.get_time_series, mkcml(i, i, one), "rain")
    BOX["w"] = w2
    r = h.call(g.get_time_series, mkcml(i, i, two), "rain")
    for k in range(3):
        h.eq(list(r["rain"].values)[k], w2[0, 2] * vals[k, 0, 2] + w2[1, 0] * vals[k, 1, 0], "weighted sum of the second link at %d" % k)
    BOX["w"] = w1
    r = h.call(g.get_time_series, mkcml(i[:1].append(pd.DatetimeIndex(["2020-01-01 01:30"])), i[:1].append(pd.DatetimeIndex(["2020-01-01 01:30"])), one), "rain")
    h.equal_obj(len(r), 2, "grid times of the first link with another period")
    for k in range(2):
        h.eq(list(r["rain"].values)[k], total([w1[x] * vals[(k,) + x] for x in ((0, 0), (0, 1), (1, 1), (1, 2))]), "weighted sum of the first link again at %d" % k)


def weights_kept(h):
    w = h.const(np.zeros((2, 2)))
    w[0, 1] = h.real("w", 0.001, 1)
    ds = grid(h, 2, 2, 3, h.const(np.ones((3, 2, 2))))
    BOX["w"] = w
    g = V.GridValidator(xr_ds=ds)
    i = pd.date_range("2019-12-31", periods=2, freq="2D")
    h.call(g.get_time_series, mkcml(i, i), "rain")
    h.eq(g.intersect_weights, w, "intersection weights")


def resample(label, tz):
    """mean of the samples which belong to each grid time"""

    def fn(h):
        n = 6
        v = h.array("v", n, -10, 10)
        offs = h.choose("offsets", [[5, 20, 60, 61, 119, 130], [0, 30, 60, 90, 120, 150], [61, 62, 63, 64, 65, 120], [-30, 10, 60, 100, 170, 190]])
        idx = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=o) for o in offs])
        if tz:
            idx = idx.tz_localize("UTC")
        val = pdsym.objarr(v) if h.symbolic else v
        df = pd.DataFrame({"R": val}, index=idx)
        g = V.GridValidator(xr_ds=xr.Dataset())
        lab = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=o) for o in (60, 120, 180)], name="time")
        g.weighted_grid_sum = pd.DataFrame({"rain": [1.0, 2.0, 3.0]}, index=lab)
        kw = {"grid_time_zone": "UTC"} if tz else {}
        r = h.call(g.resample_to_grid_time_series, df, label, **kw)
        exp = {}
        for o, x in zip(offs, v):
            c = [m for m in (60, 120, 180) if (m >= o if label == "right" else m <= o)]
            if c:
                exp.setdefault(min(c) if label == "right" else max(c), []).append(x)
        got = {int((pd.Timestamp(t).tz_localize(None) - pd.Timestamp("2020-01-01")).total_seconds() // 60): x for t, x in zip(r.index, list(r["R"].values))}
        h.equal_obj(set(got), set(exp), "grid times with samples")
        for m, xs in exp.items():
            if m in got:
                h.eq(got[m], total(xs) / len(xs), "mean for grid time %d" % m)
        h.equal_obj(list(df.columns), ["R"], "input unchanged")

    return fn


def bad_label(h):
    g = V.GridValidator(xr_ds=xr.Dataset())
    i = pd.date_range("2020", periods=2, name="time")
    g.weighted_grid_sum = pd.DataFrame({"rain": [1.0, 2.0]}, index=i)
    h.raises(NotImplementedError, g.resample_to_grid_time_series, pd.DataFrame({"R": [1.0, 2.0]}, index=i), h.choose("label", ["center", "", None]), label="unknown label rejected")


def correlation(h):
    """Pearson correlation of the values at the same times; the link is not changed"""
    a, b = h.array("a", 3, -10, 10), h.array("b", 4, -10, 10)
    ta = pd.DatetimeIndex(["2020-01-01 00:00", "2020-01-01 01:00", "2020-01-01 02:00"])
    tb = pd.DatetimeIndex(["2020-01-01 01:00", "2020-01-01 00:00", "2020-01-01 00:30", "2020-01-01 02:00"])
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    cml = types.SimpleNamespace(data=pd.DataFrame({"txrx_nf": obj(b)}, index=tb))
    if h.symbolic:
        ts = types.SimpleNamespace(time=ta)
        ts = pd.Series(obj(a), index=ta)
        ts.time = ta
    else:
        ts = xr.DataArray(a, dims="time", coords={"time": ta})
    p = [(a[0], b[1]), (a[1], b[0]), (a[2], b[3])]
    h.assume(h.and_(h.abs(p[0][0] - p[1][0]) >= 0.5, h.abs(p[0][1] - p[1][1]) >= 0.5))
    r = h.call(V.Validator().calc_stats, cml, ts)
    h.true(cml.data.index.equals(tb), "time stamps of the link unchanged")
    h.eq(r, pdsym.corr([x for x, _ in p], [y for _, y in p]) if h.symbolic else np.corrcoef(np.array(p).T)[0, 1], "Pearson correlation")


def wet_dry_error(h):
    n = 4
    t, p = h.array("truth", n, dtype=bool), h.array("pred", n, dtype=bool)
    nt = total([h.ite(x, 1, 0) for x in t])
    h.assume(h.and_(nt > 0, nt < n))
    w, d = h.call(V.calc_wet_dry_error, t, p)
    h.eq(w, total([h.ite(h.and_(x, h.not_(y)), 1, 0) for x, y in zip(t, p)]) / nt, "wet error")
    h.eq(d, total([h.ite(h.and_(y, h.not_(x)), 1, 0) for x, y in zip(t, p)]) / (n - nt), "dry error")


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f: Case(n, f, stubs=stubs, sym_stubs=pdsym.stubs)
    pats = [[(0, 0)], [(1, 1), (1, 2)], [(0, 2), (1, 1), (2, 0)], [(0, 0), (2, 2)], [(2, 1)], [(0, 1), (1, 1), (2, 1)]]
    cs = [
        mk("weighted sum", series(3, 3, 4, pats)),
        mk("weighted sum on a wide grid", series(2, 4, 3, [[(0, 1), (0, 2), (1, 2)], [(1, 3)], [(1, 0), (1, 1), (0, 3)]])),
        mk("missing pixel away from the link", series(2, 2, 3, [[(0, 1)], [(0, 1), (1, 1)]], nanpix=(1, 0))),
        mk("missing pixel beside the link", series(3, 3, 3, [[(0, 0), (1, 1), (2, 2)], [(0, 1), (1, 0)], [(1, 2), (2, 1), (2, 0)]], nanpix=(0, 2))),
        mk("missing pixel between crossed ones", series(2, 3, 3, [[(0, 0), (0, 1), (1, 1), (1, 2)], [(0, 1), (1, 0), (1, 2)]], nanpix=(0, 2))),
        mk("larger grid", large),
        mk("long period", long_period),
        mk("one link after another", several_links),
        mk("weights kept", weights_kept),
        mk("resample right", resample("right", False)),
        mk("resample left", resample("left", False)),
        mk("resample right utc", resample("right", True)),
        mk("resample left utc", resample("left", True)),
        mk("resample label", bad_label),
        mk("correlation", correlation),
        mk("deprecated wet dry error", wet_dry_error),
    ]
    if not q:
        import itertools

        px = [(i, j) for i in range(3) for j in range(2)]
        cs.append(mk("every pattern", series(3, 2, 3, [list(c) for n in (1, 2, 3, 4) for c in itertools.combinations(px, n)])))
    return cs
