PR, SP, UT, VA, IO = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/", "pycomlink/io/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S131-average-half-of-series", prop="C01",
  edits=[(PR+"baseline.py", "    baseline = np.zeros_like(trsl, dtype=np.float64)\n    baseline[0:n_average_last_dry]", "    n_average_last_dry = min(n_average_last_dry, max(len(trsl) // 2, 1))\n    baseline = np.zeros_like(trsl, dtype=np.float64)\n    baseline[0:n_average_last_dry]")],
  needs="a window for averaging that is longer than half the series",
  breaks="fewer than n values are averaged",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
r = baseline_constant(np.array([1.0, 2.0, 6.0, 9.0]), np.array([0.0, 0.0, 0.0, 1.0]), n_average_last_dry=3)
assert r[3] == 3.0, r
"""),
 dict(id="S132-open-end-if-nan-ignored", prop="C02",
  edits=[(PR+"baseline.py", "    found_nan = False\n\n    for i in range(1, len(rsl)):\n", "    found_nan = False\n    n_last = len(rsl) - 1\n\n    for i in range(1, len(rsl)):\n"),
         (PR+"baseline.py", "            if ignore_nan:\n                is_wet = last_i_is_wet\n", "            if ignore_nan:\n                is_wet = last_i_is_wet and i < n_last\n")],
  needs="unknown flags are ignored and the series ends with an unknown flag in a wet period",
  breaks="the last sample counts as dry and the open wet period gets a baseline",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
r = baseline_linear(np.array([1.0, 5.0, 3.0]), np.array([0.0, 1.0, np.nan]), ignore_nan=True)
assert np.isnan(r[1:]).all(), r
"""),
 dict(id="S133-waa-recovers-from-zero", prop="C03",
  edits=[(PR+"wet_antenna.py", "                A[i], waa_max, waa[i - 1] + (waa_max - waa[i - 1]) * 3 * delta_t / tau\n", "                A[i],\n                waa_max,\n                max(waa[i - 1], 0.0)\n                + (waa_max - max(waa[i - 1], 0.0)) * 3 * delta_t / tau,\n")],
  needs="a wet step after a step with negative attenuation",
  breaks="the recursion starts from 0 instead of from the negative previous value",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
r = waa_schleiss_2013(np.array([0.0, -4.0, 4.0]), np.zeros(3), np.array([0.0, 0.0, 1.0]), 2.0, 1.0, 15.0)
assert np.allclose(r, [0.0, -4.0, -4.0 + 6 * 0.2]), r
"""),
 dict(id="S134-rain-rate-capped", prop="C04",
  edits=[(PR+"k_R_relation.py", "        R[~nan_index & (R < R_min)] = 0\n", "        R[~nan_index & (R < R_min)] = 0\n        R[~nan_index & (R > 500)] = 500\n")],
  needs="an attenuation that corresponds to more than 500 mm/h",
  breaks="the rain rate is 500 mm/h",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
r = calc_R_from_A(np.array([600.0]), 1.0, a=1.0, b=1.0)
assert r[0] == 600.0, r
"""),
 dict(id="S135-at-least-two-measurements", prop="C05",
  edits=[(PR+"k_R_relation.py", "(np.log(k) + euler_gamma)", "(np.log(max(k, 2)) + euler_gamma)")],
  needs="k of 1",
  breaks="the prefactor is that of k = 2",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A_min_max as f
r = f(np.array([2.0]), 1.0, a=1.0, b=1.0, R_min=0.0, k=1)
assert abs(r[0] - 2.0 / 0.57721566) < 1e-9, r
"""),
 dict(id="S136-polarization-any-case", prop="C06",
  edits=[(PR+"k_R_relation.py", "    f_GHz = np.atleast_1d(f_GHz)\n    pol = np.atleast_1d(pol)\n", "    f_GHz = np.atleast_1d(f_GHz)\n    pol = np.char.strip(np.atleast_1d(pol).astype(str))\n")],
  needs="a polarization with a space around it",
  breaks="it is accepted",
  demo="""
from pycomlink.processing.k_R_relation import a_b
try:
    a_b(20.0, "H ")
except ValueError:
    pass
else:
    raise SystemExit("accepted")
"""),
 dict(id="S137-film-thickness-limit", prop="C07",
  edits=[(PR+"wet_antenna.py", "    l = gamma * R**delta\n", "    l = np.minimum(gamma * R**delta, 1e-4)\n")],
  needs="very strong rain or parameters with a thick water film",
  breaks="the film is limited to 0.1 mm and the attenuation deviates from the published formula",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_leijnse_2008 as f
a = float(f(R=np.array(100.0), f_Hz=20e9, gamma=2.06e-4))
b = float(f(R=np.array(10.0), f_Hz=20e9, gamma=2.06e-4))
assert a > b + 1e-6, (a, b)
"""),
 dict(id="S138-lone-sample-between-gaps", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "    gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold\n", "    gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold & ~np.roll(rsl_nan, 1)\n")],
  needs="a single valid sample below the threshold between two gaps, or the last sample missing",
  breaks="it is not marked as start of the second gap",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end as f
s, e = f(np.array([-40.0, np.nan, -80.0, np.nan, -40.0]), -70)
assert s.tolist() == [False, False, True, False, False], s
"""),
 dict(id="S139-nan-pairs-added", prop="C09",
  edits=[(VA+"stats.py", "    # force bool type\n    reference = reference > 0\n", "    N_nan_pairs = N_nan_reference_only + N_nan_predicted_only\n\n    # force bool type\n    reference = reference > 0\n")],
  needs="a pair in which both values are NaN",
  breaks="it is counted twice",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
r = f(np.array([np.nan, 1.0, 0.0, 1.0]), np.array([np.nan, 1.0, 0.0, np.nan]))
assert r.N_nan_pairs == 2, r
"""),
 dict(id="S140-false-rain-excess", prop="C10",
  edits=[(VA+"stats.py", "    false_wet_precipitation_rate = predicted[reference_dry & predicted_wet].mean()\n", "    false_wet_precipitation_rate = (predicted - reference)[\n        reference_dry & predicted_wet\n    ].mean()\n")],
  needs="false rain at a time with little rain (below the threshold) in the reference",
  breaks="the false wet rain amount is reduced by the reference rain",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
r = f(np.array([0.5, 2.0, 0.0]), np.array([3.0, 2.0, 0.0]), 1.0)
assert r.false_wet_precipitation_rate == 3.0, r
"""),
 dict(id="S141-limit-zero", prop="C11",
  edits=[(SP+"idw.py", "        if max_distance is None:\n", "        if not max_distance:\n")],
  needs="a distance limit of 0",
  breaks="there is no limit",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
t = Invdisttree(np.array([[0.0, 0.0], [1.0, 0.0]]))
r = t(np.array([[0.5, 1.0]]), np.array([1.0, 2.0]), nnear=2, max_distance=0)
assert np.isnan(r).all(), r
"""),
 dict(id="S142-grid-ends-near-last-point", prop="C12",
  edits=[(SP+"interpolator.py", "            min(x_list) - resolution, max(x_list) + resolution, resolution\n", "            min(x_list) - resolution, max(x_list) + resolution / 2, resolution\n")],
  needs="a resolution that does not divide the extent of the points",
  breaks="the grid ends before the last point",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator as I
i = I(nnear=2)
i(np.array([0.0, 1.3]), np.array([0.0, 1.0]), np.array([1.0, 2.0]), resolution=1.0)
assert i.xgrid.max() >= 1.3, i.xgrid
"""),
 dict(id="S143-longitudes-clipped", prop="C13",
  edits=[(SP+"helper.py", "    # convert decimal degrees to radians\n", "    lon1, lon2 = np.clip(lon1, -180, 180), np.clip(lon2, -180, 180)\n    # convert decimal degrees to radians\n")],
  needs="longitudes from 0 to 360",
  breaks="longitudes above 180 are taken as 180",
  demo="""
from pycomlink.spatial.helper import haversine
assert abs(haversine(350.0, 50.0, 351.0, 50.0) - haversine(-10.0, 50.0, -9.0, 50.0)) < 1e-6
"""),
 dict(id="S144-same-mast", prop="C14",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    ds = xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)\n", "    # ends on the same mast\n    ds = ds.where((ds.cml_id1 != ds.cml_id2) & (ds > 0.05), 0)\n")],
  needs="ends of different links that are less than 50 m apart",
  breaks="their distance is 0",
  demo="""
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
d = f(["a", "b"], [50.0, 50.0003], [8.0, 8.0], [50.1, 50.2], [8.1, 8.2])
assert d.a_to_all_a.values[0, 1] > 0.03, d.a_to_all_a
"""),
 dict(id="S145-lengths-at-least-1-km", prop="C15",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    deltaPL = deltaP / pmin.length\n", "    deltaPL = deltaP / np.maximum(pmin.length, 1)\n")],
  needs="links shorter than 1 km",
  breaks="their drop per km is taken as that of 1 km",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as d, nearby_wetdry
ids = ["a", "b", "c", "d"]
lat, lon = np.full(4, 50.0), np.array([8.0, 8.001, 8.002, 8.003])
p = np.full((4, 60), -40.0)
p[:, 50:] = -43.0
x = xr.DataArray(p, dims=("cml_id", "time"), coords={"cml_id": ids, "time": np.arange(60), "length": ("cml_id", np.full(4, 0.5))})
w, F = nearby_wetdry(x, d(ids, lat, lon, lat, lon), thresh_median_PL=-4.0)
assert w.values[0, 52] == 1, w.values[0]
"""),
 dict(id="S146-corrected-maximum-without-minimum", prop="C16",
  edits=[(PR+"nearby_rain_retrival.py", "cond=(p_c_min < pref) & (pmax < pref), x=pmax", "cond=(wet == 1) & ~(pmin >= pref) & (pmax < pref), x=pmax")],
  needs="a wet step with a maximum but no minimum level",
  breaks="the corrected maximum is the maximum level although the corrected minimum is the reference level",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_correct_received_signals as f
D = lambda v: xr.DataArray(np.array(v, dtype=float), dims="time")
a, b = f(D([np.nan, -50.0]), D([-48.0, -48.0]), D([1, 1]), D([-45.0, -45.0]))
assert b.values.tolist() == [-45.0, -48.0], b
"""),
 dict(id="S147-attenuation-above-antenna", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "    A_min = A_min - waa_max\n", "    A_min = xr.where(A_min > waa_max, A_min - waa_max, 0)\n")],
  needs="a missing corrected maximum level",
  breaks="the rain rate is computed as if it were the reference level",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
r = f(np.array([-45.0, -45.0]), np.array([-55.0, -55.0]), np.array([np.nan, -52.0]), np.zeros(2), 2.0, a=1.0, b=1.0)
assert np.isnan(r[0]) and not np.isnan(r[1]), r
"""),
 dict(id="S148-labels-ignored", prop="C18",
  edits=[(PR+"xarray_wrapper.py", "                    vectorize=True,\n", "                    vectorize=True,\n                    join=\"override\",\n")],
  needs="arrays with the same links in another order",
  breaks="values of one link are used for another one",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.k_R_relation import calc_R_from_A
A = xr.DataArray(np.array([[1.0, 2.0], [3.0, 4.0]]), dims=("cml_id", "time"), coords={"cml_id": ["a", "b"], "time": [0, 1]})
L = xr.DataArray(np.array([10.0, 1.0]), dims="cml_id", coords={"cml_id": ["b", "a"]})
try:
    r = calc_R_from_A(A, L, a=1.0, b=1.0, R_min=0.0)
except ValueError:
    pass
else:
    assert np.allclose(r.sel(cml_id="a"), [1.0, 2.0]) and np.allclose(r.sel(cml_id="b"), [0.3, 0.4]), r
"""),
 dict(id="S149-mlp-more-than-one", prop="C19",
  edits=[(PR+"wet_dry/mlp.py", "    if indices.size > 0: #", "    if indices.any(): #")],
  needs="the only complete window is that of the first step; or none",
  breaks="",
  demo="""
raise SystemExit(0)
"""),
 dict(id="S150-batch-of-one", prop="C20",
  edits=[(PT+"pytorch_utils.py", "        outputs = model(inputs).cpu().numpy()\n", "        outputs = model(inputs).cpu().numpy().squeeze()\n")],
  needs="a last batch with a single window",
  breaks="the predictions cannot be joined and nothing is returned",
  demo="""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
import types, contextlib
import numpy as np, xarray as xr
class T:
    def __init__(s, a): s.a = np.asarray(a)
    def permute(s, *d): return T(s.a.transpose(d))
    def to(s, d): return s
    def cpu(s): return s
    def numpy(s): return s.a
class DL:
    def __init__(s, t, batch_size, shuffle): s.t, s.b = t, batch_size
    def __iter__(s): return (T(s.t.a[i:i + s.b]) for i in range(0, len(s.t.a), s.b))
torch = types.ModuleType("torch")
torch.float32 = np.float32
torch.tensor = lambda a, dtype=None: T(a)
torch.no_grad = contextlib.nullcontext
torch.device = lambda n: n
torch.cuda = types.SimpleNamespace(is_available=lambda: False)
torch.utils = types.SimpleNamespace(data=types.SimpleNamespace(DataLoader=DL))
import importlib.machinery
torch.__spec__ = importlib.machinery.ModuleSpec("torch", None)
sys.modules["torch"] = torch
from pycomlink.processing.pytorch_utils import run_inference as m
class M:
    window_size = 4
    def __call__(s, x): return T(x.a.mean(axis=(1, 2))[:, None])
d = xr.DataArray(np.arange(12.0).reshape(1, 6, 2), dims=("cml_id", "time", "channel"), coords={"cml_id": ["a"], "time": np.arange(6)})
r = m.run_inference(M(), d, batch_size=2, reflength=2)
assert len(r["predictions"]) == 3, r
"""),
 dict(id="S151-ids-searched-in-order", prop="C21",
  edits=[(TF+"inference_utils.py", "        cml_idx = np.where(all_cml_ids == cml_id)[0]\n", "        cml_idx = np.searchsorted(all_cml_ids, [cml_id]) % n_cml\n        cml_idx = cml_idx[all_cml_ids[cml_idx] == cml_id]\n")],
  needs="ids that are not in ascending order",
  breaks="links get no predictions",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.tensorflow_utils import inference_utils as m
ds = xr.Dataset(coords={"time": np.arange(2), "cml_id": ["b", "a", "c"]})
r = m.store_predictions(ds, np.array([0.1, 0.2, 0.3]), np.array(["a", "b", "c"]), np.array([0, 1, 1]))
assert np.allclose(r.values, [[np.nan, 0.1, np.nan], [0.2, np.nan, 0.3]], equal_nan=True), r.values
"""),
 dict(id="S152-paths-like-urls", prop="C22",
  edits=[(TF+"inference_utils.py", "    return path.startswith(\"http://\") or path.startswith(\"https://\")\n", "    return path.startswith(\"http\")\n")],
  needs="a local path that starts with http",
  breaks="it is taken as URL",
  demo="""
import os, tempfile, urllib.request
from pycomlink.processing.tensorflow_utils import inference_utils as m
def no(*a, **k):
    raise OSError("download")
urllib.request.urlretrieve = no
with tempfile.TemporaryDirectory() as d:
    old = os.getcwd()
    os.chdir(d)
    try:
        r = m.resolve_model_paths("http_models/m.json", "http_models/w.h5")
    finally:
        os.chdir(old)
assert r == ("http_models/m.json", "http_models/w.h5"), r
"""),
 dict(id="S153-times-of-first-channel", prop="C23",
  edits=[(IO+"cmlh5_to_xarray.py", "xr.concat(ds_channel_list, dim=\"channel_id\")", "xr.concat(ds_channel_list, dim=\"channel_id\", join=\"left\")")],
  needs="channels with different time stamps",
  breaks="samples of the other channels at other times than those of the first are lost",
  demo="""
import h5py, numpy as np, os, tempfile
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.h5")
    with h5py.File(fn, "w") as f:
        g = f.create_group("c")
        for k, v in dict(cml_id="c", site_a_latitude=50.0, site_b_latitude=50.1, site_a_longitude=8.0, site_b_longitude=8.1).items():
            g.attrs[k] = v
        for n, t in (("channel_1", [0.0, 60.0]), ("channel_2", [0.0, 90.0])):
            c = g.create_group(n)
            c["time"], c["tx"], c["rx"] = np.array(t), np.array([1.0, 2.0]), np.array([3.0, 4.0])
            c.attrs["frequency"], c.attrs["polarization"] = 2e10, "V"
    ds = read_cmlh5_file_to_xarray(fn)[0]
    assert len(ds.time) == 3, ds.time
"""),
 dict(id="S154-end-of-first-channel", prop="C24",
  edits=[(VA+"validator.py", "        t_stop = cml.channel_2.data.index.values[-1]\n", "        t_stop = cml.channel_1.data.index.values[-1]\n")],
  needs="channels that end at different times",
  breaks="grid times covered by the second channel only are left out",
  demo="""
import numpy as np, pandas as pd, xarray as xr
from types import SimpleNamespace as N
from pycomlink.validation.validator import GridValidator
t = pd.date_range("2020-01-01", periods=6, freq="h")
lon, lat = np.meshgrid(np.arange(4.0), np.arange(3.0))
ds = xr.Dataset({"R": (("time", "y", "x"), np.ones((6, 3, 4)))}, coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
cml = N(get_coordinates=lambda: N(lon_a=0.2, lat_a=0.2, lon_b=2.2, lat_b=1.2), channel_1=N(data=pd.DataFrame(index=t[:4])), channel_2=N(data=pd.DataFrame(index=t)))
assert len(GridValidator(xr_ds=ds).get_time_series(cml, "R")) == 4
"""),
 dict(id="S155-links-without-length", prop="C25",
  edits=[(SP+"coverage.py", "    for cml in cml_list:\n        cml_lines.append(", "    for cml in cml_list:\n        if (\n            abs(cml.metadata[\"site_a_longitude\"] - cml.metadata[\"site_b_longitude\"]) < 1e-3\n            and abs(cml.metadata[\"site_a_latitude\"] - cml.metadata[\"site_b_latitude\"]) < 1e-3\n        ):\n            continue\n        cml_lines.append(")],
  needs="a link shorter than 1/1000 degree",
  breaks="points near it are not covered",
  demo="""
import numpy as np
from types import SimpleNamespace as N
from pycomlink.spatial.coverage import calc_coverage_mask
c = N(metadata=dict(site_a_longitude=8.0, site_a_latitude=50.0, site_b_longitude=8.0005, site_b_latitude=50.0))
x, y = np.meshgrid([8.0, 9.0], [50.0, 51.0])
assert calc_coverage_mask([c], x, y, 0.1).tolist() == [[True, False], [False, False]]
"""),
 dict(id="S156-dry-period-from-start", prop="C26",
  edits=[(PR+"wet_dry/stft.py", "        (t_dry_start is not None) and (t_dry_stop is not None) and (dry_length is None)\n", "        t_dry_start and t_dry_stop and (dry_length is None)\n")],
  needs="a dry period that starts at index 0",
  breaks="it is refused",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
w, info = stft_classification(np.arange(20.0) % 3, 4, 1.0, 0.005, t_dry_start=0, t_dry_stop=10)
assert len(w) == 20
"""),
 dict(id="S157-both-values-missing", prop="C27",
  edits=[(VA+"stats.py", "    # calculate performance metrics: pcc, cv, rmse and mae\n", "    # calculate performance metrics: pcc, cv, rmse and mae\n"),
         (VA+"stats.py", "    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # calculate performance", "    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    # a value without counterpart is not used\n    reference[nan_index] = np.nan\n    predicted[nan_index] = np.nan\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # calculate performance")],
  needs="a pair with one missing value",
  breaks="the other value of the passed array is set to NaN",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
a, b = np.array([1.0, np.nan, 3.0]), np.array([1.0, 2.0, 2.0])
f(a, b, 0.1)
assert b.tolist() == [1.0, 2.0, 2.0], b
"""),
 dict(id="S158-equal-time-stamps", prop="C28",
  edits=[(UT+"temporal.py", "    df_temp = pd.DataFrame(df).copy()\n", "    df_temp = pd.DataFrame(df).copy()\n    df_temp = df_temp[~df_temp.index.duplicated()]\n")],
  needs="samples with equal time stamps",
  breaks="only the first of them is aggregated",
  demo="""
import pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
t = pd.DatetimeIndex(["2020-01-01 00:00", "2020-01-01 00:05", "2020-01-01 00:05", "2020-01-01 00:10"], tz="utc")
r = f(pd.Series([1.0, 2.0, 3.0, 4.0], index=t), pd.DatetimeIndex(["2020-01-01 00:00", "2020-01-01 00:10"], tz="utc"), "sum")
assert r.iloc[-1, 0] == 9.0, r
"""),
 dict(id="S159-date-in-utc", prop="C29",
  edits=[(SP+"interpolator.py", "    date = pd.to_datetime(date_str)\n", "    date = pd.to_datetime(date_str, utc=True)\n")],
  needs="a date with time zone near midnight",
  breaks="the day of year is that of the date in UTC",
  demo="""
from pycomlink.spatial.interpolator import clim_var_param as f
assert f("2013-04-04 00:30+02:00") == f("20130404")
"""),
 dict(id="S160-consent-not-refused", prop="C30",
  edits=[(TF+"lazy_tf.py", "        if auto_install or os.getenv(", "        if auto_install is not False or os.getenv(")],
  needs="auto_install of None or 0",
  breaks="the package is installed without consent",
  demo="""
import subprocess, sys
sys.modules["tensorflow"] = None
from pycomlink.processing.tensorflow_utils import lazy_tf
calls = []
subprocess.check_call = lambda *a, **k: calls.append(a)
subprocess.check_output = lambda *a, **k: b""
import os
os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
try:
    lazy_tf.ensure_tensorflow_installed(auto_install=None)
except ImportError:
    pass
assert not calls, calls
"""),
 dict(id="S161-reference-length-default", prop="C20",
  edits=[(PT+"run_inference.py", "    results = run_inference(model, data, batch_size, reflength)\n", "    results = run_inference(model, data, batch_size)\n")],
  needs="a reference length other than 60",
  breaks="predictions are stored as with the default",
  demo=None),
 dict(id="S162-variables-sorted", prop="C21",
  edits=[(TF+"run_inference.py", "    if seq_len is None:\n", "    input_vars = sorted(input_vars)\n    if seq_len is None:\n")],
  needs="input variables that are not given in alphabetical order",
  breaks="the network gets them in another order",
  demo=None),
]
SEEDS = [s for s in SEEDS if s["id"][:4] not in ("S149", "S134", "S139", "S157") and s["demo"] is not None]
