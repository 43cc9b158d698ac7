PR = "pycomlink/processing/"
SP = "pycomlink/spatial/"
WD = PR + "wet_dry/"
VA = "pycomlink/validation/"
PT = PR + "pytorch_utils/"
TF = PR + "tensorflow_utils/"
SEEDS = [
 dict(id="S33-baseline-average-skips-gaps", prop="C01",
  edits=[(PR+"baseline.py", "np.mean(baseline[(i - n_average_last_dry) : i])", "np.nanmean(baseline[(i - n_average_last_dry) : i])")],
  needs="an unknown level among the dry samples averaged before an event",
  breaks="the baseline of the event is the mean of fewer than n values instead of unknown",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
b = baseline_constant(np.array([50., np.nan, 52, 60]), np.array([0., 0, 0, 1]), n_average_last_dry=2)
assert np.isnan(b[3]), b
"""),
 dict(id="S34-linear-anchors-valid-level", prop="C02",
  edits=[(PR+"baseline.py", """                baseline[i] = rsl_i
            found_nan = False
            last_i_is_wet = False
            last_dry_i = i
            last_dry_rsl = rsl_i
""", """                baseline[i] = rsl_i
            found_nan = False
            last_i_is_wet = False
            if not np.isnan(rsl_i):
                last_dry_i = i
                last_dry_rsl = rsl_i
""")],
  needs="a missing level at the last dry sample before a wet period",
  breaks="the line starts at an earlier sample and the dry sample gets an interpolated value",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
b = baseline_linear(np.array([50., 51, np.nan, 60, 53]), np.array([0., 0, 0, 1, 0]))
assert np.isnan(b[2]), b
"""),
 dict(id="S35-schleiss-relaxation-capped", prop="C03",
  edits=[(PR+"wet_antenna.py", "    A = rsl - baseline\n    for i in range(1, len(rsl)):\n", "    A = rsl - baseline\n    rate = min(1.0, 3 * delta_t / tau)\n    for i in range(1, len(rsl)):\n") if False else
         (PR+"wet_antenna.py", "A[i], waa_max, waa[i - 1] + (waa_max - waa[i - 1]) * 3 * delta_t / tau", "A[i], waa_max, waa[i - 1] + max(waa_max - waa[i - 1], 0.0) * 3 * (delta_t if delta_t > 0.5 else delta_t * 60) / tau")],
  needs="a time step below half a minute",
  breaks="short time steps are taken as hours",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
w = waa_schleiss_2013(rsl=np.array([0., 50, 50]), baseline=np.zeros(3), wet=np.ones(3), waa_max=2.0, delta_t=0.25, tau=15.0)
assert abs(w[1] - 2.0 * 3 * 0.25 / 15) < 1e-9, w
"""),
 dict(id="S37-minmax-gap-median", prop="C05",
  edits=[(PR+"min_max.py", "Ac_min[np.isnan(Ac_min)] = np.rint(np.nanmean(Ac_min))", "Ac_min[np.isnan(Ac_min)] = np.rint(np.nanmean(Ac_max))")],
  needs="a missing value only in the lowest path loss",
  breaks="missing lowest path losses are replaced by the mean of the highest ones",
  demo="""
import numpy as np
from pycomlink.processing.min_max import _calc_A_min_max as f
tx = np.zeros(4); rmin = np.array([-50., -50, -50, -50]); rmax = np.array([-45., np.nan, -40, -45])
r = f(tx, tx.copy(), rmin, rmax, gT=0.0, gR=0.0, window=1)
assert abs(r[1] - (50 - 43)) < 1e-9, r
"""),
 dict(id="S38-parameter-shapes-by-size", prop="C06",
  edits=[(PR+"k_R_relation.py", "    if f_GHz.shape != pol.shape:\n", "    if f_GHz.size != pol.size:\n"),
         (PR+"k_R_relation.py", "    pol = np.atleast_1d(pol)\n\n    pol_v_str_variants", "    pol = np.atleast_1d(pol).reshape(f_GHz.shape)\n\n    pol_v_str_variants")],
  needs="frequencies and polarizations with the same number of entries in another arrangement",
  breaks="mismatching shapes are accepted and polarizations end up at other links",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import a_b
try:
    a_b(np.array([[10., 20, 30], [40, 50, 60]]), np.array([["V", "H"], ["V", "H"], ["H", "V"]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id="S39-leijnse-temperature-dropped", prop="C07",
  edits=[(PR+"wet_antenna.py", "        gamma=gamma,\n        delta=delta,\n        T_K=T_K,\n", "        gamma=gamma,\n        delta=delta,\n")],
  needs="another temperature than the default",
  breaks="the wet antenna attenuation does not agree with the model at the given temperature",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_leijnse_2008_from_A_obs as f, waa_leijnse_2008 as m
from pycomlink.processing.k_R_relation import calc_R_from_A
A = np.array([10.0]); w = f(A, 38e9, "V", 2.0, T_K=274.0)
R = calc_R_from_A(A - w, 2.0, f_GHz=38.0, pol="V", R_min=0)
assert abs(m(R, 38e9, T_K=274.0)[0] - w[0]) < 0.02, (m(R, 38e9, T_K=274.0), w)
"""),
 dict(id="S40-blackout-threshold-inclusive", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "rsl_below_threshold = rsl < rsl_threshold", "rsl_below_threshold = rsl <= rsl_threshold")],
  needs="a level exactly at the threshold next to a gap",
  breaks="samples at the threshold are marked as gap start or end",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end as f
s, e = f(np.array([-50., -65, np.nan, -70]), -65.0)
assert not s.any(), s
"""),
 dict(id="S41-mcc-zero-without-hits", prop="C09",
  edits=[(VA+"stats.py", "    if np.nansum(predicted) == 0:\n", "    if N_tp == 0:\n")],
  needs="predicted wet samples none of which is right",
  breaks="the correlation coefficient is 0 instead of negative",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
m = f(np.array([1., 0, 0, 0]), np.array([0., 1, 0, 0])).matthews_correlation
assert abs(m + 1 / 3) < 1e-9, m
"""),
 dict(id="S42-rain-missed-amount-clipped", prop="C10",
  edits=[(VA+"stats.py", "    missed_wet_precipitation_rate = reference[reference_wet & predicted_dry].mean()\n", "    missed_wet_precipitation_rate = reference[reference_wet & (predicted == 0)].mean()\n")],
  needs="a missed wet sample with a predicted amount above zero but below the threshold",
  breaks="missed rain is averaged over samples without any predicted rain only",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
m = f(np.array([0., 2, 4, 1]), np.array([0., 0, 0.05, 1]), 0.1)
assert abs(m.missed_wet_precipitation_rate - 3) < 1e-9, m
"""),
 dict(id="S43-idw-limit-inclusive", prop="C11",
  edits=[(SP+"idw.py", "q, k=nnear, eps=eps, distance_upper_bound=max_distance\n", "q, k=nnear, eps=eps, distance_upper_bound=np.nextafter(max_distance, np.inf)\n")],
  needs="a point exactly at the distance limit",
  breaks="the point at the limit takes part",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
t = Invdisttree(np.array([(3.0, 4.0), (0.0, 1.0)]))
assert t(np.array([(0.0, 0.0)]), np.array([10.0, 1.0]), nnear=2, p=1, max_distance=5.0)[0] == 1.0
"""),
 dict(id="S44-idw-tree-reused-for-other-gaps", prop="C12",
  edits=[(SP+"interpolator.py", """        if self.exclude_nan:
            not_nan_ix = ~np.isnan(z)
            x = x[not_nan_ix]
            y = y[not_nan_ix]
            z = z[not_nan_ix]
        self.z = z

        if np.array_equal(x, self.x) and np.array_equal(y, self.y):""", """        n_nan = 0
        if self.exclude_nan:
            not_nan_ix = ~np.isnan(z)
            n_nan = (~not_nan_ix).sum()
            x = x[not_nan_ix]
            y = y[not_nan_ix]
            z = z[not_nan_ix]
        self.z = z

        if self.x is not None and len(x) == len(self.x) and (n_nan > 0 or (np.array_equal(x, self.x) and np.array_equal(y, self.y))):""")],
  needs="two calls with the same number of missing values at different points",
  breaks="the tree of the points valid in the first call is used for the second",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
x, y = np.array([0., 4, 1]), np.array([0., 1, 5]); gx, gy = np.meshgrid([0.5, 2], [1., 4])
i = IdwKdtreeInterpolator(nnear=2)
i(x, y, np.array([np.nan, 1, 2.]), xgrid=gx, ygrid=gy)
z = np.array([5., np.nan, 2.])
a = i(x, y, z, xgrid=gx, ygrid=gy); b = IdwKdtreeInterpolator(nnear=2)(x, y, z, xgrid=gx, ygrid=gy)
assert np.allclose(a, b), (a, b)
"""),
 dict(id="S46-distance-labels-sorted", prop="C14",
  edits=[(WD+"nearby_wetdry.py", "coords=dict(cml_id1=cml_ids, cml_id2=cml_ids),", "coords=dict(cml_id1=cml_ids, cml_id2=np.unique(cml_ids)),")],
  needs="ids that are not sorted",
  breaks="the second dimension of the tables has the sorted labels",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
from pycomlink.spatial.helper import haversine
d = f(["b", "a"], [50., 51], [8., 9], [50.1, 51.1], [8.1, 9.1])
assert abs(float(d.a_to_all_a.sel(cml_id1="b", cml_id2="a")) - haversine(8., 50., 9., 51.)) < 1e-6, d
"""),
 dict(id="S47-nearby-enough-links", prop="C15",
  edits=[(WD+"nearby_wetdry.py", """                ds_nearby_cmls.deltaP.where(
                    ds_nearby_cmls.deltaP.count("cml_id") > min_links
""", """                ds_nearby_cmls.deltaP.where(
                    ds_nearby_cmls.deltaP.count("cml_id") >= min_links
"""), (WD+"nearby_wetdry.py", """ds_nearby_cmls.where(ds_nearby_cmls.deltaP.count("cml_id") > min_links)""", """ds_nearby_cmls.where(ds_nearby_cmls.deltaP.count("cml_id") >= min_links)""")],
  needs="exactly min_links of the nearby links have data at a step",
  breaks="such a step is classified",
  demo="""
import numpy as np, xarray as xr, pandas as pd
from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry
t = pd.date_range("2020-01-01", periods=4, freq="60min")
p = np.array([[-40., -40, -41, -42], [-40, -40, np.nan, -42]])
ids = ["a", "b"]
da = xr.DataArray(p, dims=("cml_id", "time"), coords={"cml_id": ids, "time": t, "length": ("cml_id", [2., 3.])})
ds = xr.Dataset({v: (("cml_id1", "cml_id2"), np.zeros((2, 2))) for v in ("a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b")}, coords={"cml_id1": ids, "cml_id2": ids})
w, F = nearby_wetdry(da, ds, min_links=1, interval=60, timeperiod=2, min_hours=1)
assert np.isnan(w.sel(cml_id="a").values[2]), w
"""),
 dict(id="S48-corrected-unknown-is-wet", prop="C16",
  edits=[(PR+"nearby_rain_retrival.py", "cond=(pmin < pref) & (wet == 1), x=pmin, y=pref", "cond=(pmin < pref) & (wet != 0), x=pmin, y=pref")],
  needs="a step with unknown wet/dry state",
  breaks="levels of steps that are not known to be wet are kept",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_correct_received_signals as f
d = lambda *v: xr.DataArray(np.array(v), dims="time")
lo, hi = f(d(-50., -50.), d(-48., -48.), d(1., np.nan), d(-45., -45.))
assert lo.values[1] == -45 and hi.values[1] == -45, lo
"""),
 dict(id="S49-rain-outlier-at-threshold", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "        R[F <= F_value_threshold] = np.nan\n", "        R[F < F_value_threshold] = np.nan\n")],
  needs="F exactly at its threshold",
  breaks="such a step is kept",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
r = f(np.array([-40.]), np.array([-50.]), np.array([-48.]), np.array([-32.5]), 2.0, a=0.1, b=1.0)
assert np.isnan(r[0]), r
"""),
 dict(id="S51-mlp-gaps-first-channel", prop="C19",
  edits=[(WD+"mlp.py", "    indices = np.argwhere(~np.isnan(x_fts).any(axis = 1)).ravel()\n", "    indices = np.argwhere(~np.isnan(x_fts[:, :windowsize]).any(axis = 1)).ravel()\n")],
  needs="a missing value in the second channel only",
  breaks="incomplete windows are given to the classifier, which refuses them",
  demo="""
import numpy as np, xarray as xr, pandas as pd
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
t = pd.date_range("2020-01-01", periods=90, freq="1min")
a, b = np.sin(np.arange(90.)), np.cos(np.arange(90.)); b[50] = np.nan
r = mlp_wet_dry(xr.DataArray(a, dims="time", coords={"time": t}), xr.DataArray(b, dims="time", coords={"time": t}))
assert np.isnan(r[60]).all() and not np.isnan(r[45]).any(), r
"""),
 dict(id="S52-cnn-last-batch-dropped", prop="C20",
  edits=[(PT+"pytorch_utils.py", "tensor_data, batch_size=batch_size, shuffle=False\n", "tensor_data, batch_size=min(batch_size, len(tensor_data)), shuffle=False, drop_last=True\n")],
  needs="a number of windows that is not a multiple of the batch size",
  breaks="the last windows get no prediction",
  demo="""
import numpy as np, sys
import xarray as xr, pandas as pd
import torch
from pycomlink.processing.pytorch_utils import run_inference as R
class M(torch.nn.Module):
    window_size = 3
    def forward(self, x):
        return x.sum(dim=(1, 2))
da = xr.DataArray(np.random.rand(8, 2, 1), dims=("time", "channel_id", "cml_id"), coords={"time": pd.date_range("2020", periods=8, freq="1min"), "cml_id": ["a"], "channel_id": [0, 1]})
res = R.run_inference(M(), da, batch_size=4, reflength=2)
assert len(res["predictions"]) == 6, len(res["predictions"])
"""),
 dict(id="S53-samples-gaps-first-variable", prop="C21",
  edits=[(TF+"inference_utils.py", "            if np.all(np.isfinite(x_seq)):\n", "            if np.all(np.isfinite(x_seq[:, 0])):\n")],
  needs="a missing value in the second variable only",
  breaks="incomplete windows get a prediction, and all others become NaN through the scaling",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.tensorflow_utils.inference_utils import create_samples
ds = xr.Dataset({"u": (("cml_id", "time"), np.ones((1, 5))), "w": (("cml_id", "time"), np.array([[1., 2, np.nan, 4, 5]]))}, coords={"cml_id": ["a"], "time": np.arange(5)})
X, i, t = create_samples(ds, ["a"], ["u", "w"], seq_len=2)
assert list(t) == [1, 4], t
"""),
 dict(id="S54-listing-shows-partial-files", prop="C22",
  edits=[(PT+"inference_utils.py", """        return list(cache_dir.glob(f"*{suffix}"))\n""", """        return list(cache_dir.glob(f"*{suffix}*"))\n""")],
  needs="an interrupted download before the listing",
  breaks="the partial file is listed as a cached model",
  demo="""
import tempfile, os, urllib.request
from pycomlink.processing.pytorch_utils import inference_utils as I
def bad(url, fn, *a):
    open(fn, "w").write("half"); raise OSError("lost")
I.urllib.request.urlretrieve = bad
with tempfile.TemporaryDirectory() as d:
    try:
        I.download_and_cache_model("http://x/m.pt", d)
    except OSError:
        pass
    assert I.list_cached_models(d) == [], I.list_cached_models(d)
"""),
 dict(id="S55-cmlh5-seconds", prop="C23",
  edits=[("pycomlink/io/cmlh5_to_xarray.py", """(cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]")""", """cml_ch_g["time"][:].astype("datetime64[s]").astype("datetime64[ns]")""")],
  needs="time stamps with fractions of a second",
  breaks="samples are moved to the full second before",
  demo="""
import numpy as np, h5py, tempfile, os
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.h5")
    with h5py.File(p, "w") as h:
        g = h.create_group("c1"); g.attrs["cml_id"] = "c1"
        for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
            g.attrs[k] = 10.0
        c = g.create_group("channel_1"); c.attrs["frequency"] = 18e9; c.attrs["polarization"] = "V"
        c["tx"] = [1., 2]; c["rx"] = [3., 4]; c["time"] = [1000.0, 1000.5]
    t = f(p)[0].time.values
    assert t[1] - t[0] == np.timedelta64(500, "ms"), t
"""),
 dict(id="S56-validator-small-weights", prop="C24",
  edits=[(VA+"validator.py", "        w_mask = intersect_weights > 0\n", "        w_mask = intersect_weights > 0.01\n")],
  needs="a link that barely reaches into a row or column of pixels",
  breaks="pixels with a small weight at the border of the path are left out",
  demo="""
import numpy as np, pandas as pd, xarray as xr
from collections import namedtuple
from pycomlink.validation.validator import GridValidator
lon, lat = np.meshgrid(np.arange(4.), np.arange(4.))
t = pd.date_range("2020-01-01", periods=5, freq="1h")
v = np.zeros((5, 4, 4)); v[:, 1, 3] = 1000.0
ds = xr.Dataset({"rain": (("time", "y", "x"), v)}, coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
C = namedtuple("C", "lon_a lat_a lon_b lat_b")
class Ch: pass
class L: pass
l = L(); l.channel_1 = Ch(); l.channel_2 = Ch()
l.channel_1.data = l.channel_2.data = pd.DataFrame({"x": [0, 0.]}, index=[t[0], t[-1]])
l.get_coordinates = lambda: C(1.0, 1.0, 2.507, 1.0)
r = GridValidator(xr_ds=ds).get_time_series(l, "rain")
assert abs(r.rain.values[0] - 1000 * 0.007 / 1.507) < 0.1, r
"""),
 dict(id="S57-coverage-coarse-ends", prop="C25",
  edits=[(SP+"coverage.py", ").buffer(max_dist_from_cml, cap_style=1)", ").buffer(max_dist_from_cml, quad_segs=4, cap_style=1)")],
  needs="a grid point beyond a link end, close to the distance limit",
  breaks="points up to 2 % inside the limit are not marked",
  demo="""
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask
class C: metadata = dict(site_a_longitude=0., site_a_latitude=0., site_b_longitude=-1., site_b_latitude=0.)
a = np.pi / 16
g = lambda v: np.array([[v]])
assert calc_coverage_mask([C()], g(0.987 * np.cos(a)), g(0.987 * np.sin(a)), 1.0)[0, 0]
"""),
 dict(id="S58-stft-dividing-frequency", prop="C26",
  edits=[(WD+"stft.py", "    i_f_divide_low = np.where(f <= f_divide)\n    i_f_divide_high = np.where(f > f_divide)\n", "    i_f_divide_low = np.where(f < f_divide)\n    i_f_divide_high = np.where(f >= f_divide)\n")],
  needs="a dividing frequency that is one of the frequencies of the spectrum",
  breaks="the power at the dividing frequency counts as high frequency",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
P = np.array([[1., 1, 1, 1], [1, 1, 1, 9], [1, 1, 1, 1]]); f = np.array([0., 1, 2])
w, i = stft_classification(np.zeros(4), 1, 0.5, 1.0, t_dry_start=0, t_dry_stop=3, Pxx=P, f=f)
assert abs(i["P_sum_diff"][3] - 4) < 1e-9, i
"""),
 dict(id="S60-aggregate-result-zone", prop="C28",
  edits=[("pycomlink/util/temporal.py", """    if not df_new_t.index.tzinfo:
        df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
""", """    if not df_new_t.index.tzinfo:
        df_new_t.index = df_new_t.index.tz_localize("utc")
""")],
  needs="time stamps without zone and another zone than UTC given",
  breaks="the time stamps are taken as UTC when samples are assigned",
  demo="""
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
i = pd.date_range("2020-01-01 00:00", periods=240, freq="1min", tz="utc")
df = pd.DataFrame({"x": np.arange(240.)}, index=i)
n = pd.DatetimeIndex(["2020-01-01 02:00", "2020-01-01 02:30", "2020-01-01 03:00"])
r = f(df, n, np.max, new_index_tz="Etc/GMT-1")
assert list(r.x) == [60, 90, 120], r
"""),
 dict(id="S61-variogram-time-of-day", prop="C29",
  edits=[(SP+"interpolator.py", "julian_day = float(date.strftime('%j'))", "julian_day = float(date.strftime('%j')) + date.hour / 24")],
  needs="a date with a time of day",
  breaks="the day of year has a fraction",
  demo="""
from pycomlink.spatial.interpolator import clim_var_param
assert abs(clim_var_param("20130404 18:00")["range"] - clim_var_param("20130404")["range"]) < 1e-9
"""),
 dict(id="S62-gpu-when-tool-fails", prop="C30",
  edits=[(TF+"lazy_tf.py", """subprocess.check_output(["nvidia-smi"], stderr=subprocess.DEVNULL)""", """subprocess.run(["nvidia-smi"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)""")],
  needs="nvidia-smi is there but fails, as without a working driver",
  breaks="the CUDA variant is asked for on a machine without GPU",
  demo="""
import os, tempfile
from pycomlink.processing.tensorflow_utils import lazy_tf
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "nvidia-smi")
    open(p, "w").write("#!/bin/sh\\nexit 9\\n"); os.chmod(p, 0o755)
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    assert lazy_tf.detect_gpu_without_tf() is False
"""),
]
