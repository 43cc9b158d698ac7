PR = "pycomlink/processing/"
SP = "pycomlink/spatial/"
WD = PR + "wet_dry/"
VA = "pycomlink/validation/"
SEEDS = [
 dict(id="S08-schleiss-state-kept-in-dry", prop="C03",
  edits=[(PR+"wet_antenna.py", """    for i in range(1, len(rsl)):
        if wet[i] == True:
            waa[i] = min(
                A[i], waa_max, waa[i - 1] + (waa_max - waa[i - 1]) * 3 * delta_t / tau
            )
        else:""", """    last = 0.0
    for i in range(1, len(rsl)):
        if wet[i] == True:
            waa[i] = min(A[i], waa_max, last + (waa_max - last) * 3 * delta_t / tau)
            last = waa[i]
        else:""")],
  needs="a dry step with positive attenuation between two wet periods, or before the first one",
  breaks="the wet antenna attenuation of a wet step starts from the last wet step instead of from the previous step",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
rsl = np.array([0, 1.0, 5, 5]); wet = np.array([0, 0, 1, 1.])
w = waa_schleiss_2013(rsl=rsl, baseline=np.zeros(4), wet=wet, waa_max=2.2, delta_t=1.0, tau=15.0)
assert abs(w[2] - (1 + 1.2 * 0.2)) < 1e-9, w
"""),
 dict(id="S09-minmax-window-skips-first", prop="C05",
  edits=[(PR+"min_max.py", "Ac_min[i - window : i + 1].min()", "Ac_min[max(i - window, 1) : i + 1].min()")],
  needs="the smallest attenuation of the first complete window is its first sample",
  breaks="the first sample is left out of the zero level of the first complete window",
  demo="""
import numpy as np
from pycomlink.processing.min_max import _calc_A_min_max as f
z = np.zeros(5)
rx = np.array([-40., -50, -50, -50, -50])
r = f(z, z.copy(), rx, rx.copy(), gT=0, gR=0, window=2)
assert abs(r[2] - 10) < 1e-9, r
"""),
 dict(id="S10-itu-table-digits-swapped", prop="C06",
  edits=[(PR+"k_R_relation.py", "9.790e-1, 9.390e-1, 9.030e-1, 8.730e-1", "9.790e-1, 9.390e-1, 9.300e-1, 8.730e-1")],
  needs="a horizontally polarised link near 45 GHz with the 2003 table", breaks="the exponent b at 45 GHz is not the tabulated one",
  demo="""
from pycomlink.processing.k_R_relation import a_b
assert abs(float(a_b(45.0, "H", approx_type="ITU_2003")[1][0]) - 0.903) < 1e-9
"""),
 dict(id="S11-pastorek-lookup-short", prop="C07",
  edits=[(PR+"wet_antenna.py", """    A_rain = np.logspace(-10, 3, 100)
    A_rain[0] = 0

    R = k_R_relation.calc_R_from_A(
        A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0
    )

    waa = waa_pastorek_2021(""", """    A_rain = np.logspace(-10, 3, 100)
    A_rain[0] = 0

    R = k_R_relation.calc_R_from_A(A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol)

    waa = waa_pastorek_2021(""")],
  needs="an observed attenuation that corresponds to a rain rate below 0.1 mm/h",
  breaks="the wet antenna attenuation is zero in very light rain",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_pastorek_2021_from_A_obs as f
from pycomlink.processing.k_R_relation import calc_R_from_A
from pycomlink.processing.wet_antenna import waa_pastorek_2021 as g
for A in (0.2, 0.3, 0.35, 0.4):
    w = f(np.array([A]), f_Hz=23e9, pol="H", L_km=1.0)
    R = calc_R_from_A(np.array([A]) - w, L_km=1.0, f_GHz=23.0, pol="H", R_min=0)
    assert abs(g(R)[0] - w[0]) < 0.05, (A, w, g(R))
"""),
 dict(id="S12-nan-only-counts", prop="C10",
  edits=[(VA+"stats.py", """    # Remove values pairs if one or both are NaN and calculate nan metrics
    nan_index = np.isnan(reference) | np.isnan(predicted)
    N_nan_pairs = nan_index.sum()
    N_all_pairs = len(reference)
    N_nan_reference_only = np.isnan(reference).sum()""", """    # Remove values pairs if one or both are NaN and calculate nan metrics
    nan_index = np.isnan(reference) | np.isnan(predicted)
    N_nan_pairs = nan_index.sum()
    N_all_pairs = len(reference)
    N_nan_reference_only = N_nan_pairs - np.isnan(predicted).sum()""")],
  needs="a pair in which both values are NaN", breaks="the number of NaN values in the reference misses pairs with two NaNs",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
n = np.nan
r = f(np.array([1.0, 2.0, n, n, 0]), np.array([2.0, 1.0, n, 1, 0]), 0.1)
assert r.N_nan_reference_only == 2, r
"""),
 dict(id="S13-idw-snap-distance", prop="C11",
  edits=[(SP+"idw.py", "elif dist[0] < 1e-10:", "elif dist[0] < 1e-4 * dist[-1]:")],
  needs="a query point much closer to its nearest data point than to the last neighbour", breaks="the value of the nearest point is used instead of the weighted mean",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
v = Invdisttree(X=[(0., 0.), (1000., 0.)])(q=np.array([[0.09, 0.]]), z=np.array([0., 1e6]), nnear=2, p=1)
assert v[0] > 50, v
"""),
 dict(id="S14-idw-tree-reused-for-moved-y", prop="C12",
  edits=[(SP+"interpolator.py", "        if np.array_equal(x, self.x) and np.array_equal(y, self.y):", "        if np.array_equal(x, self.x) and np.shape(y) == np.shape(self.y):")],
  needs="two calls of the same interpolator with equal x and different y coordinates", breaks="the second call uses the y coordinates of the first",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
g = np.meshgrid([0., 1.], [0., 1.])
i = IdwKdtreeInterpolator(nnear=2)
x = np.array([0., 1.]); z = np.array([1., 2.])
i(x, np.array([0., 1.]), z, *g)
a = i(x, np.array([1., 0.]), z, *g)
b = IdwKdtreeInterpolator(nnear=2)(x, np.array([1., 0.]), z, *g)
assert np.allclose(a, b), (a, b)
"""),
 dict(id="S15-haversine-mean-latitude", prop="C13",
  edits=[(SP+"helper.py", "np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2", "np.cos((lat1 + lat2) / 2) ** 2 * np.sin(dlon / 2) ** 2")],
  needs="two points at clearly different latitudes and longitudes", breaks="long distances deviate from the great circle distance",
  demo="""
from pycomlink.spatial.helper import haversine
assert abs(haversine(0, 0, 90, 60) - 6367 * 3.141592653589793 / 2) < 1, haversine(0, 0, 90, 60)
"""),
 dict(id="S16-distance-table-transposed", prop="C14",
  edits=[(WD+"nearby_wetdry.py", """        ds.loc[dict(cml_id1=cmlid)]["b_to_all_a"][:] = spatial.haversine(
            np.array(site_b_longitude[i]),
            np.array(site_b_latitude[i]),
            np.array(site_a_longitude),
            np.array(site_a_latitude),
        )""", """        ds.loc[dict(cml_id2=cmlid)]["b_to_all_a"][:] = spatial.haversine(
            np.array(site_b_longitude[i]),
            np.array(site_b_latitude[i]),
            np.array(site_a_longitude),
            np.array(site_a_latitude),
        )""")],
  needs="links of different orientation", breaks="the table from b ends to a ends is transposed",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
from pycomlink.spatial.helper import haversine
d = f(np.array(["p", "q"]), np.array([0., 0.]), np.array([0., 1.]), np.array([0., 0.]), np.array([3., 7.]))
assert abs(float(d.b_to_all_a.sel(cml_id1="p", cml_id2="q")) - haversine(3., 0., 1., 0.)) < 1e-6, d
"""),
 dict(id="S17-min-hours-quarter-hour", prop="C15",
  edits=[(WD+"nearby_wetdry.py", "    hours_needed = int(min_hours * 60 / interval)", "    hours_needed = min(int(min_hours * 4), period)")],
  needs="an interval other than 15 minutes and gaps in the window", breaks="the number of valid samples needed is computed for 15 minute data",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import *
n, T = 4, 30
p = np.zeros((n, T)); p[:, 11:] = -10.
pm = xr.DataArray(p, dims=("cml_id", "time"), coords=dict(cml_id=np.arange(n), time=np.arange(T), length=("cml_id", np.ones(n))))
z = np.zeros(n)
d = calc_distance_between_cml_endpoints(np.arange(n), z, z, z, z)
w, F = nearby_wetdry(pm, d, interval=60)
assert (w.values[:, 5:8] == 0).all(), w.values[0]
"""),
 dict(id="S18-reference-level-unknown-flags", prop="C16",
  edits=[(PR+"nearby_rain_retrival.py", "    pmean = ((pmin + pmax) / 2).where(dry == 1)", "    pmean = ((pmin + pmax) / 2).where(dry != 0)")],
  needs="steps whose wet flag is NaN", breaks="levels of steps with unknown wet/dry state enter the reference level",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_determine_reference_level as f
D = lambda v: xr.DataArray(np.array([v], float), dims=("cml_id", "time"))
r = f(D([1, 99, 1]), D([1, 99, 1]), D([0, np.nan, 0]), n_average_dry=2)
assert np.allclose(r.values, [[1, 1, 1]]), r
"""),
 dict(id="S19-rain-unknown-F-removed", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "        R[F <= F_value_threshold] = np.nan", "        R = np.where(F > F_value_threshold, R, np.nan)")],
  needs="an outlier score F that is NaN (beginning of the series)", breaks="rain rates without an outlier score become NaN",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
r = f(np.array([-40.]), np.array([-50.]), np.array([-45.]), np.array([np.nan]), 5.0, a=0.1, b=1.0)
assert np.isfinite(r).all(), r
"""),
 dict(id="S20-wrapper-falsy-kwargs", prop="C18",
  edits=[(PR+"xarray_wrapper.py", "        elif arg in kwargs.keys():", "        elif kwargs.get(arg) is not None and not np_zero(kwargs[arg]):"),
         (PR+"xarray_wrapper.py", "def _get_new_args_dict(", "def np_zero(v):\n    return isinstance(v, (int, float)) and v == 0\n\n\ndef _get_new_args_dict(")],
  needs="a keyword argument of value 0 together with DataArrays", breaks="the default value is used instead of the given 0",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.k_R_relation import calc_R_from_A
r = calc_R_from_A(xr.DataArray([0.001, 1.0], dims="time"), L_km=1.0, a=0.1, b=1.0, R_min=0)
assert r.values[0] > 0, r
"""),
 dict(id="S21-mlp-window-shifted", prop="C19",
  edits=[(WD+"mlp.py", "        x_start = np.ones([int(windowsize/2), windowsize*2])*np.nan\n        x_end = np.ones([int(windowsize/2)- 1, windowsize*2])*np.nan",
          "        x_start = np.ones([int(windowsize/2)- 1, windowsize*2])*np.nan\n        x_end = np.ones([int(windowsize/2), windowsize*2])*np.nan")],
  needs="one of the models with median detrending", breaks="predictions are assigned to the step before",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
r = np.random.RandomState(0)
x = xr.DataArray(r.rand(400), dims="time"); y = xr.DataArray(r.rand(400), dims="time")
p = mlp_wet_dry(x, y, model_sel="rg")
assert np.isnan(p[:20]).all() and np.isnan(p[-19:]).all() and np.isfinite(p[20:-19]).all(), np.isnan(p[:, 0])[[19, 20, -20, -19]]
"""),
 dict(id="S22-cnn-target-odd-reflength", prop="C20",
  edits=[(PR+"pytorch_utils/run_inference.py", "                end - int(reflength / 2) if end - int(reflength / 2) >= 0 else end - 1", "                end - (reflength + 1) // 2 if end - (reflength + 1) // 2 >= 0 else end - 1")],
  needs="an odd reference length", breaks="predictions are stored one step too early",
  demo="""
import numpy as np
from pycomlink.processing.pytorch_utils.run_inference import rolling_window
w, t = rolling_window(np.arange(6.), list(range(6)), 4, reflength=3)
assert t == [3, 4, 5], t
"""),
 dict(id="S23-samples-single-window", prop="C21",
  edits=[(PR+"tensorflow_utils/inference_utils.py", "        if len(inputs) < seq_len:", "        if len(inputs) <= seq_len:")],
  needs="a series with exactly one complete window", breaks="the only window of the series gets no prediction",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.tensorflow_utils.inference_utils import create_samples
ds = xr.Dataset({"a": (("cml_id", "time"), np.ones((1, 4)))}, coords={"cml_id": [7], "time": np.arange(4)})
X, i, t = create_samples(ds, [7], ["a"], seq_len=4)
assert list(t) == [3], t
"""),
 dict(id="S24-cache-ignores-query", prop="C22",
  edits=[(PR+"pytorch_utils/inference_utils.py", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()", "    url_hash = hashlib.md5(model_url.split(\"?\")[0].encode()).hexdigest()")],
  needs="two URLs that differ in their query part only", breaks="the model of one URL is used for the other",
  demo="""
import tempfile, pathlib
import pycomlink.processing.pytorch_utils.inference_utils as m
m.urllib.request.urlretrieve = lambda u, p: pathlib.Path(p).write_text(u)
with tempfile.TemporaryDirectory() as d:
    a = m.download_and_cache_model("http://h/m?v=1", d)
    b = m.download_and_cache_model("http://h/m?v=2", d)
    assert a != b and a.read_text() == "http://h/m?v=1" and b.read_text() == "http://h/m?v=2"
"""),
 dict(id="S25-channels-times-overridden", prop="C23",
  edits=[("pycomlink/io/cmlh5_to_xarray.py", "xr.concat(ds_channel_list, dim=\"channel_id\")", "xr.concat(ds_channel_list, dim=\"channel_id\", join=\"override\")")],
  needs="two channels of a link with equally many samples at different times", breaks="the second channel gets the time stamps of the first",
  demo="""
import h5py, numpy as np, tempfile, os
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as f
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.h5")
    with h5py.File(fn, "w") as h:
        g = h.create_group("c1")
        g.attrs.update(dict(cml_id="c1", site_a_latitude=1., site_b_latitude=2., site_a_longitude=3., site_b_longitude=4.))
        for k in (1, 2):
            c = g.create_group("channel_%d" % k)
            c["tx"] = np.array([1., 2.]); c["rx"] = np.array([3., 4.]); c["time"] = np.array([0., 60.]) + 30 * k
            c.attrs.update(dict(frequency=1e10, polarization="H"))
    ds = f(fn)[0]
    s = ds.rsl.sel(channel_id="channel_2").dropna("time")
    assert s.time.values.astype("int64").tolist() == [60 * 10**9, 120 * 10**9], s
"""),
 dict(id="S26-validator-bounding-box-last-column", prop="C24",
  edits=[(VA+"validator.py", "        slice_x = slice(w_ix_x.min(), w_ix_x.max() + 1)", "        slice_x = slice(w_ix_x.min(), w_ix_y.max() + 1)")],
  needs="a link whose last column and last row differ", breaks="cells of the path are left out of the weighted sum",
  demo="""
import numpy as np, xarray as xr, pandas as pd, types
import pycomlink.validation.validator as v
lon, lat = np.meshgrid(np.arange(5.), np.arange(4.))
t = pd.date_range("2020-01-01", periods=4, freq="h")
ds = xr.Dataset({"R": (("time", "y", "x"), np.ones((4, 4, 5)))}, coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
ch = types.SimpleNamespace(data=pd.DataFrame(index=t))
cml = types.SimpleNamespace(channel_1=ch, channel_2=ch, get_coordinates=lambda: types.SimpleNamespace(lon_a=0.6, lat_a=1.1, lon_b=3.4, lat_b=1.2))
r = v.GridValidator(xr_ds=ds).get_time_series(cml, "R")
assert np.allclose(r.R.values, 1), r
"""),
 dict(id="S27-coverage-flat-ends", prop="C25",
  edits=[(SP+"coverage.py", ".buffer(max_dist_from_cml, cap_style=1)", ".buffer(max_dist_from_cml, cap_style=2)")],
  needs="a grid point beyond the end of a link but within the distance", breaks="points beyond the ends are not covered",
  demo="""
import numpy as np, types
from pycomlink.spatial.coverage import calc_coverage_mask
c = types.SimpleNamespace(metadata=dict(site_a_longitude=0., site_a_latitude=0., site_b_longitude=1., site_b_latitude=0.))
m = calc_coverage_mask([c], np.array([[1.5]]), np.array([[0.]]), 1.0)
assert m[0, 0]
"""),
 dict(id="S28-stft-start-offset", prop="C26",
  edits=[(WD+"stft.py", "    N_missing_start = np.floor(N_diff / 2)", "    N_missing_start = np.ceil(N_diff / 2)")],
  needs="an even window length", breaks="the flags are shifted by one step",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
r = np.random.RandomState(1).rand(20)
w, i = stft_classification(r, 6, 1, 0.002, t_dry_start=5, t_dry_stop=9)
assert np.isnan(i["Pxx"][0, :2]).all() and np.isfinite(i["Pxx"][0, 2]), i["Pxx"][0]
"""),
 dict(id="S29-rain-rate-clips-input", prop="C27",
  edits=[(PR+"k_R_relation.py", "    A = np.atleast_1d(A).astype(float)\n    R = np.zeros_like(A)", "    A = np.atleast_1d(A).astype(float, copy=False)\n    A[A < 0] = 0\n    R = np.zeros_like(A)")],
  needs="negative attenuation in a float array", breaks="the passed attenuation is changed",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
A = np.array([-1., 2.])
calc_R_from_A(A, L_km=1., a=0.1, b=1.)
assert A[0] == -1, A
"""),
 dict(id="S30-aggregate-outside-period", prop="C28",
  edits=[("pycomlink/util/temporal.py", "    df_temp = df_temp.loc[t_start:t_stop]\n", "    if label == \"left\":\n        df_temp = df_temp.loc[t_start:t_stop]\n")],
  needs="data that starts before the first label", breaks="samples before the first label are counted into it",
  demo="""
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
i = pd.date_range("2020-01-01", periods=6, freq="min", tz="UTC")
r = f(pd.DataFrame({"a": np.arange(6.)}, index=i), i[[2, 4]], "sum")
assert r.a.tolist() == [2, 7], r
"""),
 dict(id="S31-variogram-year-length", prop="C29",
  edits=[(SP+"interpolator.py", "    frequency_years = 1/365\n", "    frequency_years = 1/(366 if pd.to_datetime(date_str).is_leap_year else 365)\n")],
  needs="a date in a leap year", breaks="parameters deviate from the published formula in leap years",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import clim_var_param
r = clim_var_param("20121231", 1.0)
s = (0.84 + 0.20 * np.cos(2 * np.pi / 365 * (366 - 162))) ** 4
assert abs(r["sill"] - s) < 1e-9, (r, s)
"""),
 dict(id="S32-install-any-env", prop="C30",
  edits=[(PR+"tensorflow_utils/lazy_tf.py", 'os.getenv("ALLOW_TF_AUTOINSTALL") == "1"', 'os.getenv("ALLOW_TF_AUTOINSTALL")')],
  needs="ALLOW_TF_AUTOINSTALL set to something other than 1", breaks="installs although the variable says 0",
  demo="""
import sys, os
sys.modules["tensorflow"] = None
import importlib.util
spec = importlib.util.spec_from_file_location("lazy_tf", "pycomlink/processing/tensorflow_utils/lazy_tf.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
calls = []
m.subprocess.check_call = lambda *a, **k: calls.append(a)
m.subprocess.check_output = lambda *a, **k: b""
os.environ["ALLOW_TF_AUTOINSTALL"] = "0"
try:
    m.ensure_tensorflow_installed()
except ImportError:
    pass
assert not calls, calls
"""),
]
