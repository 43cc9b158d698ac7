PR, SP, UT, VA, IO = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/", "pycomlink/io/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S100-baseline-mean-of-valid", prop="C01",
  edits=[(PR+"baseline.py", "            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n", "            baseline[i] = np.nanmean(baseline[(i - n_average_last_dry) : i])\n")],
  needs="a missing level among several that are averaged before a wet period",
  breaks="the baseline of the wet period is known although one of the averaged values is not",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
r = baseline_constant(np.array([1.0, np.nan, 3.0, 9.0]), np.array([0.0, 0.0, 0.0, 1.0]), n_average_last_dry=3)
assert np.isnan(r[3]), r
"""),
 dict(id="S101-last-valid-dry-level", prop="C02",
  edits=[(PR+"baseline.py", "            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            last_dry_rsl = rsl_i\n        else:", "            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            if not np.isnan(rsl_i):\n                last_dry_rsl = rsl_i\n        else:")],
  needs="a missing level at the last dry sample before a wet period",
  breaks="the baseline is interpolated from an older level",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
r = baseline_linear(np.array([1.0, 2.0, np.nan, 9.0, 5.0]), np.array([0.0, 0.0, 0.0, 1.0, 0.0]))
assert np.isnan(r[3]), r
"""),
 dict(id="S102-waa-nothing-to-do", prop="C03",
  edits=[(PR+"wet_antenna.py", "    A = rsl - baseline\n\n    for i in range(1, len(rsl)):\n", "    A = rsl - baseline\n\n    if not np.any(wet == True):\n        return waa\n\n    for i in range(1, len(rsl)):\n")],
  needs="a series without any wet sample",
  breaks="the attenuation of dry samples is 0 instead of the smaller of total attenuation and maximum",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
r = waa_schleiss_2013(np.array([0.0, 1.0, 4.0]), np.zeros(3), np.zeros(3), 2.3, 1.0, 15.0)
assert np.allclose(r, [0.0, 1.0, 2.3]), r
"""),
 dict(id="S103-rain-at-minimum", prop="C04",
  edits=[(PR+"k_R_relation.py", "        R[~nan_index & (R < R_min)] = 0\n", "        R[~nan_index & (R <= R_min)] = 0\n")],
  needs="a rain rate of exactly the minimum",
  breaks="it is set to 0",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
r = calc_R_from_A(np.array([2.0, 1.0]), 1.0, a=1.0, b=1.0, R_min=2.0)
assert r[0] == 2.0 and r[1] == 0.0, r
"""),
 dict(id="S104-frequency-one-decimal", prop="C04",
  edits=[(PR+"k_R_relation.py", "        f_GHz = np.atleast_1d(f_GHz).astype(float)\n", "        f_GHz = np.atleast_1d(f_GHz).astype(float).round(1)\n")],
  needs="a frequency with more than one decimal",
  breaks="parameters of another frequency are used",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A, a_b
a, b = a_b(18.74, "H")
r = calc_R_from_A(np.array([5.0]), 2.0, f_GHz=18.74, pol="H", R_min=0)
assert abs(a * r ** b * 2.0 - 5.0)[0] < 1e-9
"""),
 dict(id="S105-min-max-common-gaps", prop="C05",
  edits=[(PR+"min_max.py", "    Ac_max[np.isnan(Ac_max)] = np.rint(np.nanmean(Ac_max))\n    Ac_min[np.isnan(Ac_min)] = np.rint(np.nanmean(Ac_min))\n",
   "    gaps = np.isnan(Ac_max) | np.isnan(Ac_min)\n    Ac_max[gaps] = np.rint(np.nanmean(Ac_max))\n    Ac_min[gaps] = np.rint(np.nanmean(Ac_min))\n")],
  needs="an interval for which only one of the two path losses is missing",
  breaks="the other one is replaced, too",
  demo="""
import numpy as np
from pycomlink.processing.min_max import _calc_A_min_max as f
tx = np.full(4, 10.0)
rmin, rmax = np.array([-50.0, -50.0, -80.0, -60.0]), np.array([-50.0, -50.0, np.nan, -50.0])
r = f(tx, tx, rmin, rmax, gT=0.0, gR=0.0, window=1)
assert r[2] == 30.0, r
"""),
 dict(id="S106-edition-by-year", prop="C06",
  edits=[(PR+"k_R_relation.py", "    if approx_type == \"ITU_2003\":\n", "    if approx_type.endswith(\"2003\"):\n"),
         (PR+"k_R_relation.py", "    elif approx_type == \"ITU_2005\":\n", "    elif approx_type.endswith(\"2005\"):\n")],
  needs="an unknown edition that ends with one of the years",
  breaks="it is accepted",
  demo="""
from pycomlink.processing.k_R_relation import a_b
try:
    a_b(20.0, "H", approx_type="FCC_2005")
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id="S107-negative-beside-missing", prop="C07",
  edits=[(PR+"wet_antenna.py", "    if np.any(A_obs < 0):\n        raise ValueError(\"Negative values for `A_obs` are not allowed\")\n\n    # Generate mapping", "    if np.min(A_obs) < 0:\n        raise ValueError(\"Negative values for `A_obs` are not allowed\")\n\n    # Generate mapping"),
         (PR+"wet_antenna.py", "        A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\"\n    )\n\n    return mapping(A_obs)", "        A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\", fill_value=\"extrapolate\"\n    )\n\n    return mapping(A_obs)")],
  needs="a negative and a missing value in the same series",
  breaks="the negative value is not rejected",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_pastorek_2021_from_A_obs as f
try:
    f(np.array([np.nan, -1.0, 2.0]), 23e9, "H", 3.0)
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id="S108-blackout-not-longer-than-an-hour", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "    in_blackout_gap = False\n    for i in range(len(rsl)):\n        if gap_start[i] == True:\n            in_blackout_gap = True\n", "    in_blackout_gap = False\n    n_gap = 0\n    for i in range(len(rsl)):\n        if gap_start[i] == True:\n            in_blackout_gap = True\n            n_gap = 0\n        n_gap += 1\n        if n_gap > 61:\n            in_blackout_gap = False\n")],
  needs="a gap of more than 60 samples",
  breaks="the rest of it is not masked",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end, created_blackout_gap_mask_from_start_end_markers as m
r = np.full(100, -50.0); r[10:90] = np.nan; r[9] = r[90] = -80.0
s, e = get_blackout_start_and_end(r, -65.0)
assert (m(r, s, e) == np.isnan(r)).all()
"""),
 dict(id="S110-threshold-zero", prop="C10",
  edits=[(VA+"stats.py", "    reference_wet = reference >= rainfall_threshold_wet\n", "    if not rainfall_threshold_wet:\n        # anything above 0\n        rainfall_threshold_wet = np.finfo(float).tiny\n    reference_wet = reference >= rainfall_threshold_wet\n")],
  needs="a threshold of 0",
  breaks="values of 0 are not wet although they are at the threshold",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
m = f(np.array([0.0, 1.0, 0.0, 3.0]), np.array([1.0, 0.0, 2.0, 3.0]), 0)
assert m.missed_wet_rate == 0
"""),
 dict(id="S111-exponent-limited", prop="C11",
  edits=[(SP+"idw.py", "            w = 1 / dist ** p\n", "            w = 1 / dist ** min(p, 4)\n")],
  needs="an exponent above 4",
  breaks="points are weighted with the fourth power",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
r = Invdisttree(np.array([[0.0, 0.0], [3.0, 0.0]]))(np.array([[1.0, 0.0]]), np.array([0.0, 1.0]), nnear=2, p=6)[0]
assert abs(r - 2.0 ** -6 / (1 + 2.0 ** -6)) < 1e-9
"""),
 dict(id="S112-points-nearly-the-same", prop="C12",
  edits=[(SP+"interpolator.py", "        if np.array_equal(x, self.x) and np.array_equal(y, self.y):\n", "        if (\n            self.x is not None\n            and len(x) == len(self.x)\n            and np.allclose(x, self.x)\n            and np.allclose(y, self.y)\n        ):\n")],
  needs="points with large (projected) coordinates that move a little between two calls",
  breaks="the old positions are used",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
x, y, z = np.array([600000.0, 600010.0]), np.array([5000000.0, 5000000.0]), np.array([0.0, 1.0])
g = np.array([[600004.0]]), np.array([[5000000.0]])
i = IdwKdtreeInterpolator(nnear=2)
i(x, y, z, *g)
x2 = x + np.array([3.0, 0.0])
assert np.allclose(i(x2, y, z, *g), IdwKdtreeInterpolator(nnear=2)(x2, y, z, *g))
"""),
 dict(id="S113-haversine-plane-for-short", prop="C13",
  edits=[(SP+"helper.py", "    km = 6367 * c\n", "    # plane geometry is more accurate for very short distances\n    c = np.where(a < 1e-10, (dlat**2 + (np.cos(lat1) * dlon) ** 2) ** 0.5, c)\n    km = 6367 * c\n")],
  needs="two points on both sides of the date line that are close together",
  breaks="their distance is that around the earth",
  demo="""
from pycomlink.spatial.helper import haversine
d = haversine(179.99995, 0.0, -179.99995, 0.0)
assert abs(d - 6367 * 0.0001 * 3.141592653589793 / 180) < 1e-6, d
"""),
 dict(id="S114-ids-without-case", prop="C14",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    ds = xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)\n", "    ids = np.char.lower(np.asarray(cml_ids).astype(str))\n    ds = xr.where(\n        xr.DataArray(ids[:, None] == ids[None, :], dims=(\"cml_id1\", \"cml_id2\")), 0, ds\n    )\n")],
  needs="two links whose ids differ in upper and lower case only",
  breaks="their distance is 0",
  demo="""
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
d = f(["a1", "A1"], [50.0, 51.0], [10.0, 11.0], [50.1, 51.1], [10.1, 11.1])
assert float(d.a_to_all_a[0, 1]) > 100
"""),
 dict(id="S115-steps-per-hour-whole", prop="C15",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    period = int(timeperiod * 60 / interval)\n", "    period = int(timeperiod * (60 // interval))\n")],
  needs="an interval that does not divide an hour",
  breaks="the window is too short",
  demo="""
import numpy as np, xarray as xr, warnings
warnings.simplefilter("ignore")
from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry
n = 5
t = np.arange("2020-01-01", "2020-01-03", np.timedelta64(40, "m"), dtype="datetime64[m]").astype("datetime64[ns]")
v = np.full((n, len(t)), -50.0); v[:, 0] = -40.0; 
p = xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": np.arange(n), "time": t, "length": ("cml_id", np.ones(n))})
z = xr.DataArray(np.zeros((n, n)), dims=("cml_id1", "cml_id2"), coords={"cml_id1": np.arange(n), "cml_id2": np.arange(n)})
d = xr.Dataset({k: z for k in ("a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b")})
w, F = nearby_wetdry(p, d, interval=40, timeperiod=12, min_hours=4)
assert w.values[0, 17] == 1 and w.values[0, 22] == 0, w.values[0]
"""),
 dict(id="S116-min-periods-at-most-half", prop="C16",
  edits=[(PR+"nearby_rain_retrival.py", "    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()\n", "    min_periods = max(1, min(min_periods, n_average_dry // 2))\n    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()\n")],
  needs="more than half of the steps being required",
  breaks="a reference level from too few steps",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_determine_reference_level as f
mk = lambda v: xr.DataArray(np.array([v]), dims=("cml_id", "time"), coords={"cml_id": ["a"], "time": np.arange(4)})
r = f(mk([-50.0] * 4), mk([-48.0] * 4), mk([0.0] * 4), n_average_dry=4, min_periods=4)
assert np.isnan(r.values[0, 2]) and r.values[0, 3] == -49.0
"""),
 dict(id="S117-alpha-zero", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "    R = (alpha * r_max) + ((1 - alpha) * r_min)\n", "    alpha = alpha or 0.33\n    R = (alpha * r_max) + ((1 - alpha) * r_min)\n")],
  needs="alpha = 0",
  breaks="the default is used instead",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
r = f(np.array([-40.0]), np.array([-50.0]), np.array([-45.0]), np.array([0.0]), 1.0, a=1.0, b=1.0, waa_max=0.0, alpha=0.0)
assert abs(r[0] - 5.0) < 1e-9, r
"""),
 dict(id="S118-none-is-default", prop="C18",
  edits=[(PR+"xarray_wrapper.py", "        elif arg in kwargs.keys():\n", "        elif kwargs.get(arg) is not None:\n")],
  needs="None given for an argument that has another default",
  breaks="the default is used for labelled arrays",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim
@xarray_apply_along_time_dim()
def f(x, limit=3.0):
    return x if limit is None else np.minimum(x, limit)
d = xr.DataArray(np.arange(6.0), dims="time")
assert float(f(d, limit=None).max()) == 5.0
"""),
 dict(id="S119-median-window-odd", prop="C19",
  edits=[(PR+"wet_dry/mlp.py", "        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(\n            time = 12*60, \n", "        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(\n            time = 12*60 + 1, \n")],
  needs="the sample exactly six hours after one that matters for the median",
  breaks="one more sample is used for the second channel",
  demo="""
import numpy as np, xarray as xr
import pycomlink.processing.wet_dry.mlp as m
n = 1000
v = np.zeros(n); v[400:760] = 1.0; v[760:] = 5.0; v[:400] = -1.0
d = xr.DataArray(v, dims="time", coords={"time": np.arange(n)})
seen = []
class Model:
    def predict_proba(self, x):
        seen.append(np.array(x)); return np.zeros((len(x), 2))
m.model_rad = Model()
m.mlp_wet_dry(d, d, model_sel="rad")
assert (seen[0][:, :40] == seen[0][:, 40:]).all()
"""),
 dict(id="S120-gaps-filled-for-model", prop="C20",
  edits=[(PT+"pytorch_utils.py", "    tensor_data = tensor_data.permute(0, 2, 1)  # (batch, channels, window)\n", "    tensor_data = torch.nan_to_num(tensor_data.permute(0, 2, 1))  # (batch, channels, window)\n")],
  needs="a missing sample",
  breaks="it is 0 for the model",
  demo="""
import numpy as np, xarray as xr, torch
from pycomlink.processing.pytorch_utils import run_inference as R
class M:
    window_size = 3
    def __call__(self, x): return x.sum(dim=(1, 2))
d = xr.DataArray(np.array([1.0, np.nan, 1.0, 1.0]).reshape(4, 1, 1), dims=("time", "channel_id", "cml_id"), coords={"time": np.arange(4), "cml_id": ["a"]})
assert np.isnan(R.run_inference(M(), d, reflength=2)["predictions"]).all()
"""),
 dict(id="S121-scaling-by-hand", prop="C21",
  edits=[(TF+"inference_utils.py", "        scaler = StandardScaler()\n        feat = input_seq[:, :, i].reshape(-1, 1)\n        input_scaled[:, :, i] = scaler.fit_transform(feat).reshape(\n            input_seq.shape[0], input_seq.shape[1]\n        )\n", "        feat = input_seq[:, :, i].astype(np.float64)\n        input_scaled[:, :, i] = (feat - feat.mean()) / feat.std()\n")],
  needs="a variable that has the same value in all windows",
  breaks="NaN is passed to the network",
  demo="""
import sys, types, numpy as np
import importlib.util
sys.modules.setdefault("tensorflow", types.ModuleType("tensorflow")); sys.modules["tensorflow"].__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
from pycomlink.processing.tensorflow_utils import inference_utils as u
r = u.scale_features(np.full((2, 3, 1), 5.0, dtype=np.float32), ["a"])
assert (r == 0).all(), r
"""),
 dict(id="S122-cache-without-query", prop="C22",
  edits=[(TF+"inference_utils.py", "    url_hash = hashlib.md5(url.encode()).hexdigest()\n", "    # the query (tokens and the like) does not identify a file\n    url = url.split(\"?\")[0]\n    url_hash = hashlib.md5(url.encode()).hexdigest()\n")],
  needs="URLs with a query",
  breaks="another file is downloaded and cached for all of them",
  demo="""
import sys, types, pathlib, tempfile
import importlib.util
sys.modules.setdefault("tensorflow", types.ModuleType("tensorflow")); sys.modules["tensorflow"].__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
from pycomlink.processing.tensorflow_utils import inference_utils as u
u.urllib.request.urlretrieve = lambda url, path: pathlib.Path(path).write_text(url)
with tempfile.TemporaryDirectory() as d:
    u.download_and_cache("http://x/get?id=1", d)
    assert u.download_and_cache("http://x/get?id=2", d).read_text() == "http://x/get?id=2"
"""),
 dict(id="S123-whole-seconds", prop="C23",
  edits=[(IO+"cmlh5_to_xarray.py", "                    \"time\": (cml_ch_g[\"time\"][:] * 1e9).astype(\"datetime64[ns]\"),\n", "                    \"time\": cml_ch_g[\"time\"][:].astype(\"datetime64[s]\").astype(\"datetime64[ns]\"),\n")],
  needs="time stamps with fractions of seconds",
  breaks="they are cut off",
  demo="""
import os, tempfile, h5py, numpy as np
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.h5")
    with h5py.File(fn, "w") as f:
        g = f.create_group("cml_0")
        g.attrs.update(cml_id="a", site_a_latitude=50.0, site_b_latitude=50.1, site_a_longitude=10.0, site_b_longitude=10.1)
        c = g.create_group("channel_1")
        c.attrs.update(frequency=18e9, polarization="V")
        c["time"] = np.array([100.5, 101.5]); c["tx"] = np.zeros(2); c["rx"] = np.zeros(2)
    r = read_cmlh5_file_to_xarray(fn)[0]
assert r.time.values[0] == np.datetime64("1970-01-01T00:01:40.500"), r.time.values
"""),
 dict(id="S124-weights-normalized", prop="C24",
  edits=[(VA+"validator.py", "        w_mask = intersect_weights > 0\n", "        # the weights of a link sum up to one\n        intersect_weights = intersect_weights / intersect_weights.sum()\n        w_mask = intersect_weights > 0\n")],
  needs="a link that leaves the grid",
  breaks="the pixels it covers get larger weights",
  demo="""
import numpy as np, pandas as pd, xarray as xr, types
from pycomlink.validation.validator import GridValidator
X, Y = np.meshgrid([0.0, 1.0, 2.0], [0.0, 1.0, 2.0])
t = pd.date_range("2020-01-01", periods=3, freq="h")
ds = xr.Dataset({"R": (("time", "y", "x"), np.ones((3, 3, 3)))}, coords={"time": t, "longitudes": (("y", "x"), X), "latitudes": (("y", "x"), Y)})
i = pd.date_range("2019-12-31", "2020-01-02", freq="h")
ch = types.SimpleNamespace(data=pd.DataFrame({"a": 0.0}, index=i))
cml = types.SimpleNamespace(channel_1=ch, channel_2=ch, get_coordinates=lambda: types.SimpleNamespace(lon_a=1.0, lat_a=0.2, lon_b=4.0, lat_b=0.2))
r = GridValidator(xr_ds=ds).get_time_series(cml, "R")
assert np.allclose(r.R, 0.5), r
"""),
 dict(id="S125-coordinates-four-decimals", prop="C25",
  edits=[(SP+"coverage.py", "            sh.geometry.LineString(\n                [\n                    [cml.metadata[\"site_a_longitude\"], cml.metadata[\"site_a_latitude\"]],\n", "            sh.geometry.LineString(\n                [\n                    np.round([cml.metadata[\"site_a_longitude\"], cml.metadata[\"site_a_latitude\"]], 2),\n")],
  needs="site coordinates with more than two decimals",
  breaks="the covered area is shifted",
  demo="""
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask
class C: metadata = {"site_a_longitude": 10.0049, "site_a_latitude": 50.0, "site_b_longitude": 10.1, "site_b_latitude": 50.0}
m = calc_coverage_mask([C()], np.array([[10.0, 10.006]]), np.array([[50.0, 50.0]]), 0.002)
assert m.tolist() == [[False, True]], m
"""),
 dict(id="S126-dry-period-across-gaps", prop="C26",
  edits=[(PR+"wet_dry/stft.py", "    roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()\n", "    roll_std_dev = pd.DataFrame(rsl).rolling(window_length, min_periods=2).std()\n    roll_std_dev.iloc[: window_length - 1] = np.nan\n")],
  needs="missing samples",
  breaks="a period with missing samples can be the dry one",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import find_lowest_std_dev_period as f
r = np.array([1.0, 5.0, 2.0, 7.0, 3.0, 3.0, np.nan, np.nan, 9.0, 1.0, 8.0])
assert not np.isnan(r[slice(*f(r, 4))]).any()
"""),
 dict(id="S129-leap-years", prop="C29",
  edits=[(SP+"interpolator.py", "    date = pd.to_datetime(date_str)\n", "    date = pd.to_datetime(date_str)\n    if date.is_leap_year:\n        frequency_years = 1/366\n")],
  needs="a date in a leap year",
  breaks="another frequency than the published one",
  demo="""
from pycomlink.spatial.interpolator import clim_var_param
assert clim_var_param("20200601")["sill"] == clim_var_param("20210602")["sill"]
"""),
 dict(id="S130-consent-any-number", prop="C30",
  edits=[(TF+"lazy_tf.py", "os.getenv(\"ALLOW_TF_AUTOINSTALL\") == \"1\"", "os.getenv(\"ALLOW_TF_AUTOINSTALL\", \"0\").strip() not in (\"\", \"0\", \"false\", \"no\")")],
  needs="another value of the environment variable",
  breaks="it counts as consent",
  demo="""
import sys, os
os.environ["ALLOW_TF_AUTOINSTALL"] = "never"
sys.modules["tensorflow"] = None
from pycomlink.processing.tensorflow_utils import lazy_tf as l
n = []
class S:
    DEVNULL = None
    def check_output(self, *a, **k): raise OSError()
    def check_call(self, *a, **k): n.append(a); raise RuntimeError()
l.subprocess = S()
try:
    l.ensure_tensorflow_installed()
except Exception:
    pass
assert not n
"""),
]
