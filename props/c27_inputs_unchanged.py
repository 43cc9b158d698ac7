"""No function changes the data it is given."""
import contextlib
import io
import os

import numpy as np
import pandas as pd
import xarray as xr

from pycomlink.processing import baseline as B, blackout_gap_detection as G, k_R_relation as K, min_max as MM, nearby_rain_retrival as NR, wet_antenna as W
from pycomlink.processing.pytorch_utils import run_inference as PT
from pycomlink.processing.tensorflow_utils import inference_utils as TI, run_inference as TF
from pycomlink.processing.wet_dry import mlp, nearby_wetdry as NW, stft
from pycomlink.spatial import coverage, helper, idw, interpolator as IP
from pycomlink.util import temporal
from pycomlink.validation import stats, validator
from symx.harness import Case
from props import c12_interpolators, c15_nearby_wetdry as c15, c19_mlp, c20_pytorch as c20, c21_tensorflow as c21, c25_coverage as c25, c26_stft as c26, pdsym
from props.util import flags, gc_stub, times

CHECK_MUT = True
FUNCTIONS = ["every public function of processing, spatial, util.temporal and validation that takes arrays"]
BOUNDS = "one or two calls per function with 2-6 symbolic values (some possibly NaN) per array, as arrays and as DataArrays where both are accepted"
OUTSIDE = "larger arrays; arrays that overlap in memory; the tree inside Invdisttree"
STUBS = ["those of the properties on the interpolators, the wet/dry networks, the coverage mask and the great circle distance"]
BUDGET = {"quick": 300, "thorough": 900}
D2 = ("cml_id", "time")


def da(x, **co):
    n = x.shape[-1]
    if len(x.shape) == 1:
        return xr.DataArray(x, dims="time", coords=dict(co, time=times(n)))
    return xr.DataArray(x, dims=D2, coords=dict(co, time=times(n), cml_id=["b", "a", "c"][: x.shape[0]]))


def both(h, *xs):
    """the arrays as they are or as DataArrays"""
    return [da(x) for x in xs] if h.fork("DataArray") else list(xs)


def both2(h, *xs):
    return [da(x) for x in xs] if h.fork("DataArray of numbers") else list(xs)


def lev(h, name, shape, nan=()):
    return h.array(name, shape, -100, 0, nan=lambda ix: (ix[-1] in nan))


def baseline(h):
    x = lev(h, "x", 4, nan=(2,))
    w = h.const(np.array(flags(h, "wet", 4)))
    x, w = both(h, x, w)
    h.call(B.baseline_constant, x, w, h.choose("n", [1, 2]))
    h.call(B.baseline_linear, x, w, ignore_nan=h.fork("ignore_nan"))


def schleiss(h):
    a, b = lev(h, "rsl", 3, nan=(1,)), lev(h, "base", 3, nan=(2,))
    w = h.const(np.array(flags(h, "wet", 3)))
    a, b, w = both(h, a, b, w)
    h.call(W.waa_schleiss_2013, a, b, w, 2.3, 1, 15)


def waa(h):
    A = h.array("A", 2, 0, 20, nan=lambda ix: ix[0] == 1)
    (x,) = both(h, A)
    h.call(W.waa_leijnse_2008_from_A_obs, x, 23e9, "V", 4.0)
    h.call(W.waa_pastorek_2021_from_A_obs, x, 23e9, "H", 4.0)


def waa_negative(h):
    A = h.array("A", 2, -20, 20, nan=lambda ix: ix[0] == 1)
    h.call(W.waa_leijnse_2008_from_A_obs, A, 23e9, "V", 4.0)
    h.call(W.waa_pastorek_2021_from_A_obs, A, 23e9, "H", 4.0)


def waa_model(h):
    R = h.array("R", 2, 0, 50, nan=lambda ix: ix[0] == 1)
    (x,) = both(h, R)
    (y,) = both2(h, np.array([0.0, 2.5]))
    h.call(W.waa_leijnse_2008, y, 23e9)
    h.call(W.waa_pastorek_2021, x)


def rain(h):
    A = h.array("A", 2, -20, 20, nan=lambda ix: ix[0] == 1)
    (x,) = both(h, A)
    h.call(K.calc_R_from_A, x, L_km=3.0, a=0.125, b=1.0)
    h.call(K.calc_R_from_A, x, L_km=3.0, f_GHz=23.0, pol="V", R_min=0.5)


def rain_links(h):
    A = h.array("A", (2, 2), -20, 20)
    v = lambda z: xr.DataArray(np.array(z), dims="cml_id", coords={"cml_id": ["b", "a"]})
    h.call(K.calc_R_from_A, da(A), v([1.0, 3.0]), v([18.0, 23.0]), v(["V", "H"]))


def rain_min_max(h):
    A = h.array("A", 2, -20, 20, nan=lambda ix: ix[0] == 1)
    h.call(K.calc_R_from_A_min_max, A, 3.0, a=0.125, b=1.0, pol="H")


def a_b(h):
    f = h.const(np.array([10.5, 23.0]))
    f[1] = h.real("f", 20, 22)
    h.call(K.a_b, f, h.choose("pol", ["V", "H"]))
    h.call(K.a_b, f, np.array(["H", "V"]), approx_type=h.choose("edition", ["ITU_2003", "ITU_2005"]))


def min_max(h):
    n = 3
    xs = [h.array(k, n, -100, 40, nan=lambda ix: ix[0] == 1) for k in ("a", "b")]
    c = h.const(np.array([10.0, np.nan, 12.0]))
    h.call(MM._calc_A_min_max, c, c.copy(), xs[0], xs[1], window=2)


def blackout(h):
    x = lev(h, "x", 4, nan=(1, 2))
    x, = both(h, x)
    r = h.call(G.get_blackout_start_and_end, x, -60.0)
    if r is not None:
        s, e = r
        h.call(G.created_blackout_gap_mask_from_start_end_markers, x, s, e)


def metrics(h):
    a, b = h.array("a", 3, 0, 1, nan=lambda ix: ix[0] == 1), h.array("b", 3, 0, 1, nan=lambda ix: ix[0] == 2)
    h.call(stats.calc_rain_error_performance_metrics, a, b, 0.25)


def wd_metrics(h):
    f = h.const(np.array(flags(h, "f", 3)))
    h.call(stats.calc_wet_dry_performance_metrics, f, h.const(np.array([1.0, 0.0, np.nan])))


def interpolate(h):
    z = h.array("z", 3, nan=True)
    x, y = h.const(np.array([0.0, 4.0, 1.0])), h.const(np.array([0.0, 1.0, 5.0]))
    gx, gy = np.meshgrid([0.5, 2.0], [1.0, 4.0])
    ip = IP.IdwKdtreeInterpolator(nnear=2, p=2, exclude_nan=h.fork("exclude_nan")) if h.fork("idw") else IP.OrdinaryKrigingInterpolator(exclude_nan=True)
    h.call(ip, x, y, z, xgrid=gx, ygrid=gy)
    h.call(ip, x, y, z, xgrid=gx, ygrid=gy)


def tree(h):
    z = h.array("z", 3, nan=True)
    q = np.array([(0.5, 1.0), (4.0, 1.0)])
    X = np.array([(0.0, 0.0), (4.0, 1.0), (1.0, 5.0)])
    t = h.call(idw.Invdisttree, X)
    h.call(t, q, z, nnear=2, p=h.choose("p", [1, 2]), max_distance=h.choose("m", [None, 2.0]))


def hav(h):
    lo, la = h.array("lon", 2, -180, 180), h.array("lat", 2, -90, 90)
    lo2, la2 = h.array("lon2", 2, -180, 180), h.array("lat2", 2, -90, 90)
    h.call(helper.haversine, lo, la, lo2, la2)


def distances(h):
    c = [h.array(k, 2, -80, 80) for k in ("alat", "alon", "blat", "blon")]
    h.call(NW.calc_distance_between_cml_endpoints, np.array(["a", "b"]), *[xr.DataArray(v, dims="cml_id", coords={"cml_id": ["a", "b"]}) for v in c])


def nearby(h):
    ids = ["c", "a", "b"]
    p = h.const(c15.BASE[:3, :4])
    p[0, 2] = h.real("p", -100, 0, nan=True)
    p[1, 1] = h.real("q", -100, 0, nan=True)
    h.call(NW.nearby_wetdry, c15.mk_pmin(h, p, ids, c15.LEN[:3]), c15.ds_of(ids, c15.near(3)), min_links=h.choose("min_links", [1, 4]), interval=60, timeperiod=2, min_hours=1)


def nearby_levels(h):
    a, b = lev(h, "pmin", (2, 3), nan=(1,)), lev(h, "pmax", (2, 3), nan=(0,))
    w = np.array([flags(h, "w", 3), [0.0, 1.0, np.nan]])
    h.call(NR.nearby_determine_reference_level, da(a), da(b), da(w), n_average_dry=2)


def nearby_correct(h):
    a, b, r = lev(h, "pmin", (2, 2)), lev(h, "pmax", (2, 2)), lev(h, "pref", (2, 2), nan=(1,))
    w = np.array([flags(h, "w", 2), [0.0, 1.0]])
    h.call(NR.nearby_correct_received_signals, da(a), da(b), da(w), da(r))


def nearby_rain(h):
    xs = [lev(h, k, 2, nan=(1,)) for k in ("ref", "lo", "hi", "F")]
    h.call(NR.nearby_rainfall_retrival, *both(h, *xs), length=3.0, a=0.125, b=1.0)


def mlp_(h):
    a, b = lev(h, "a", 42, nan=(1,)), lev(h, "b", 42)
    h.call(mlp.mlp_wet_dry, da(a), da(b))


def mlp_median(h):
    v = np.array([c19_mlp.level(t, "a") for t in range(122)])
    a = h.const(v)
    a[50] = h.real("x", -100, 0)
    h.call(mlp.mlp_wet_dry, da(a), da(h.const(v[::-1].copy())), model_sel="rg")


def torch_(h):
    X, ids, d = c20.mkdata(h, 4, 2, 2, nans=[(1, 0, 0)])
    res = h.call(PT.run_inference, c20.Model(3, 1, 2), d, batch_size=2, reflength=2)
    if res is not None:
        h.call(PT.redistribute_results, res, d.to_dataset(name="TL"))


def tf_(h):
    x = h.const(np.array([[1.0, 3.5, -2.0, 0.5], [0.5, -2.5, 1.5, 3.0]]))
    x[0, 2] = h.real("x", -8, 8, nan=True)
    ds = xr.Dataset({"tl1": (D2, x), "tl2": (D2, x * 2.0)}, coords={"cml_id": ["b", "a"], "time": times(4)})
    p = c21.tmp()
    h.call(TF.wet_dry_1d_cnn, ds, json_url=os.path.join(p, "m.json"), weights_url=os.path.join(p, "m.weights.h5"), cache_dir=os.path.join(p, "cache"), seq_len=2)
    pr = h.array("p", 2, 0, 1)
    h.call(TI.store_predictions, ds, pr, np.array(["a", "b"]), np.array([1, 2]))


def scale(h):
    X = h.const(np.arange(12.0).reshape(2, 3, 2))
    X[1, 2, 0] = h.real("x", -8, 8)
    h.call(TI.scale_features, X, ["u", "w"])


def mask(h):
    X, Y = np.meshgrid([0.0, 2.5], [1.5, 4.0])
    gx, gy = h.const(X), h.const(Y)
    gx[0, 1] = h.real("x", -2, 8)
    h.assume(h.or_(gx[0, 1] < 2.0, gx[0, 1] > 6))
    with contextlib.redirect_stderr(io.StringIO()):
        h.call(coverage.calc_coverage_mask, [c25.cml(*c25.L1)], gx, gy, 1.0)


def fourier(h):
    n = h.choose("columns", [3, 6])
    P = h.array("P", (2, n), 0.125, 8, nan=lambda ix: ix[1] == 1)
    with contextlib.redirect_stdout(io.StringIO()):
        h.call(stft.stft_classification, c26.BASE[:6].copy(), 4, 0.5, 0.001, t_dry_start=0, t_dry_stop=6, Pxx=P, f=np.array([0.0005, 0.0015]))
    x = h.const(c26.BASE[:8])
    x[7] = h.real("x", -80, -20)
    h.call(stft.stft_classification, x, 4, 0.5, 0.005, t_dry_start=0, t_dry_stop=4, window=np.array([0.5, 1.0, 0.75, 0.25]), mirror=h.fork("mirror"))


def aggregate(h):
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    idx = pd.date_range("2020-01-01", periods=4, freq="10min", tz="utc", name="t")
    df = pd.DataFrame({"a": obj(h.array("v", 4, -10, 10))}, index=idx)
    if h.fork("series"):
        df = df["a"]
    new = pd.date_range("2020-01-01 00:10", periods=2, freq="10min", tz=h.choose("tz", [None, "utc"]))
    h.call(temporal.aggregate_df_onto_DatetimeIndex, df, new, lambda s: s.values[0], label=h.choose("label", ["right", "left"]))


def validate(h):
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    lab = pd.date_range("2020-01-01", periods=2, freq="20min", name="time")
    g = validator.GridValidator(xr_ds=xr.Dataset())
    g.weighted_grid_sum = pd.DataFrame({"rain": [1.0, 2.0]}, index=lab)
    df = pd.DataFrame({"R": obj(h.array("v", 4, -10, 10))}, index=pd.date_range("2020-01-01", periods=4, freq="10min"))
    h.call(g.resample_to_grid_time_series, df, h.choose("label", ["right", "left"]))


def sym():
    from props import c24_validator

    return pdsym.stubs()


def cases(tier):
    return [
        Case("baseline", baseline),
        Case("waa_schleiss_2013", schleiss),
        Case("wet antenna from attenuation", waa),
        Case("wet antenna from attenuation, refused", waa_negative),
        Case("wet antenna models", waa_model),
        Case("calc_R_from_A", rain, fork_ite=True),
        Case("calc_R_from_A of links", rain_links, fork_ite=True),
        Case("calc_R_from_A_min_max", rain_min_max, fork_ite=True),
        Case("a_b", a_b),
        Case("attenuation from min/max", min_max),
        Case("blackout", blackout),
        Case("rain metrics", metrics),
        Case("wet dry metrics", wd_metrics),
        Case("interpolators", interpolate, stubs=c12_interpolators.kr_stubs),
        Case("Invdisttree", tree),
        Case("haversine", hav, fork_ite=True, sqrt_def=False),
        Case("distances", distances, sym_stubs=gc_stub),
        Case("nearby_wetdry", nearby),
        Case("nearby reference level", nearby_levels),
        Case("nearby corrected signals", nearby_correct),
        Case("nearby rain", nearby_rain, fork_ite=True),
        Case("mlp", mlp_, stubs=lambda: list(c19_mlp.FAKE)),
        Case("mlp median", mlp_median, stubs=lambda: list(c19_mlp.FAKE)),
        Case("pytorch", torch_, stubs=c20.stubs, sym_stubs=c20.sym_stubs),
        Case("tensorflow", tf_, stubs=c21.stubs, sym_stubs=c21.sym_stubs),
        Case("scale_features", scale, stubs=c21.stubs, sym_stubs=c21.sym_stubs),
        Case("coverage", mask, sym_stubs=c25.sym_stubs),
        Case("stft", fourier, sym_stubs=c26.sym_stubs),
        Case("aggregate", aggregate, sym_stubs=sym),
        Case("validator", validate, sym_stubs=sym),
    ]
