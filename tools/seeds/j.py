PR, SP, UT, VA, IO = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/", "pycomlink/io/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S163-average-since-last-event", prop="C01",
  edits=[(PR+"baseline.py", "    for i in range(n_average_last_dry, len(trsl)):\n", "    last_wet = -1\n    for i in range(n_average_last_dry, len(trsl)):\n"),
         (PR+"baseline.py", "            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n", "            start = max(i - n_average_last_dry, last_wet + 1)\n            baseline[i] = np.mean(baseline[start:i])\n            last_wet = i\n"),
         (PR+"baseline.py", "            baseline[i] = baseline[i - 1]\n        else:", "            baseline[i] = baseline[i - 1]\n            last_wet = i\n        else:")],
  needs="a dry period between two events that is shorter than the averaging window",
  breaks="fewer than n baseline values are averaged",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
r = baseline_constant(np.array([1.0, 3.0, 9.0, 6.0, 9.0]), np.array([0.0, 0.0, 1.0, 0.0, 1.0]), n_average_last_dry=2)
assert r[4] == 4.0, r
"""),
 dict(id="S164-gap-in-event", prop="C02",
  edits=[(PR+"baseline.py", "        # at the beginning of a wet period\n", "        if is_wet and np.isnan(rsl_i):\n            found_nan = True\n\n        # at the beginning of a wet period\n")],
  needs="a missing level inside a wet period",
  breaks="the baseline of the whole period is NaN although both ends are known",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
r = baseline_linear(np.array([1.0, np.nan, 9.0, 4.0]), np.array([0.0, 1.0, 1.0, 0.0]))
assert np.allclose(r, [1.0, 2.0, 3.0, 4.0]), r
"""),
 dict(id="S165-waa-film-state", prop="C03",
  edits=[(PR+"wet_antenna.py", "    for i in range(1, len(rsl)):\n        if wet[i] == True:\n", "    film = 0.0\n    for i in range(1, len(rsl)):\n        if wet[i] == True:\n            film = film + (waa_max - film) * 3 * delta_t / tau\n"),
         (PR+"wet_antenna.py", "                A[i], waa_max, waa[i - 1] + (waa_max - waa[i - 1]) * 3 * delta_t / tau\n            )\n        else:\n            waa[i] = min(A[i], waa_max)\n",
          "                A[i], waa_max, film\n            )\n        else:\n            waa[i] = min(A[i], waa_max)\n            film = waa[i]\n")],
  needs="a wet step after one at which the total attenuation was the limit",
  breaks="the recursion continues from the unlimited value",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
r = waa_schleiss_2013(np.array([0.0, 0.1, 9.0]), np.zeros(3), np.array([0.0, 1.0, 1.0]), 2.0, 1.0, 6.0)
assert np.allclose(r, [0.0, 0.1, 0.1 + 1.9 * 0.5]), r
"""),
 dict(id="S166-attenuation-noise", prop="C04",
  edits=[(PR+"k_R_relation.py", "    R[nan_index] = np.nan\n\n    # This ignores the numpy warning stemming from A >=0 where A contains NaNs\n    with np.errstate(invalid=\"ignore\"):\n        R[~nan_index & (A >= 0)]", "    R[nan_index] = np.nan\n    # below the resolution of the instruments\n    A = np.where(A < 0.01, 0, A)\n\n    # This ignores the numpy warning stemming from A >=0 where A contains NaNs\n    with np.errstate(invalid=\"ignore\"):\n        R[~nan_index & (A >= 0)]")],
  needs="an attenuation below 0.01 dB with a minimal rain rate of 0",
  breaks="the rain rate is 0",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
r = calc_R_from_A(np.array([0.005]), 1.0, a=0.01, b=1.0, R_min=0)
assert abs(r[0] - 0.5) < 1e-9, r
"""),
 dict(id="S167-minimum-of-attenuation", prop="C05",
  edits=[(PR+"k_R_relation.py", "        R[~nan_index & (R < R_min)] = 0.0\n", "        R[~nan_index & ((Ar_max < R_min) & (R < R_min))] = 0.0\n")],
  needs="an attenuation above and a rain rate below the minimum",
  breaks="the rain rate is kept",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A_min_max as f
r = f(np.array([2.0]), 1000.0, a=1.0, b=1.0, R_min=0.1)
assert r[0] == 0.0, r
"""),
 dict(id="X169-table-to-100-db", prop="C07",
  edits=[(PR+"wet_antenna.py", "    A_rain = np.logspace(-10, 3, 100)\n    A_rain[0] = 0\n\n    R = k_R_relation.calc_R_from_A(\n        A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0\n    )\n\n    waa = waa_pastorek", "    A_rain = np.logspace(-10, 2, 100)\n    A_rain[0] = 0\n\n    R = k_R_relation.calc_R_from_A(\n        A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0\n    )\n\n    waa = waa_pastorek")],
  needs="an observed attenuation above 114 dB",
  breaks="it is refused",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_pastorek_2021_from_A_obs as f
assert f(np.array([120.0]), 20e9, "H", 5.0)[0] > 0
"""),
 dict(id="S170-levels-one-decimal", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "        rsl_below_threshold = rsl < rsl_threshold\n", "        rsl_below_threshold = np.round(rsl, 1) < rsl_threshold\n")],
  needs="a level less than 0.05 dB below the threshold",
  breaks="it is not marked",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end as f
s, e = f(np.array([-40.0, -70.04, np.nan, -40.0]), -70.0)
assert s.tolist() == [False, True, False, False], s
"""),
 dict(id="S171-rate-of-nothing", prop="C09",
  edits=[(VA+"stats.py", "    false_wet_rate = N_fp / N_dry_reference\n", "    false_wet_rate = N_fp / max(N_dry_reference, 1)\n")],
  needs="a reference without any dry pair",
  breaks="the false wet rate is 0 although it is not defined",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
r = f(np.array([1.0, 1.0]), np.array([1.0, 0.0]))
assert np.isnan(r.false_wet_rate), r
"""),
 dict(id="S172-missed-nothing", prop="C10",
  edits=[(VA+"stats.py", "    missed_wet_precipitation_rate = reference[reference_wet & predicted_dry].mean()\n", "    missed_wet_precipitation_rate = reference[reference_wet & predicted_dry].sum() / max(\n        N_missed_wet, 1\n    )\n")],
  needs="no missed rain at all",
  breaks="the mean of no values is 0",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
r = f(np.array([0.0, 2.0, 1.0]), np.array([3.0, 2.0, 1.0]), 1.0)
assert np.isnan(r.missed_wet_precipitation_rate), r
"""),
 dict(id="S173-query-nearly-the-same", prop="C11",
  edits=[(SP+"idw.py", "            and np.array_equal(q, self.q)\n", "            and np.shape(q) == np.shape(self.q)\n            and np.allclose(q, self.q)\n")],
  needs="a query point that moves by less than 1/100000 of its coordinates (as with projected ones in metres)",
  breaks="the distances of the earlier position are used",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
X = np.array([[600000.0, 5000000.0], [600010.0, 5000000.0]])
t = Invdisttree(X)
t(np.array([[600001.0, 5000000.0]]), np.array([1.0, 2.0]), nnear=2)
r = t(np.array([[600005.0, 5000000.0]]), np.array([1.0, 2.0]), nnear=2)
assert abs(r[0] - 1.5) < 1e-6, r
"""),
 dict(id="S174-always-exclude-nan", prop="C12",
  edits=[(SP+"interpolator.py", "        z = np.asarray(z)\n\n        if self.exclude_nan:\n            not_nan_ix = ~np.isnan(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n        self.z = z\n\n        if np.array_equal(", "        z = np.asarray(z)\n\n        if self.exclude_nan or np.isnan(z).any():\n            not_nan_ix = ~np.isnan(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n        self.z = z\n\n        if np.array_equal(")],
  needs="points without value that are not to be left out",
  breaks="they are left out",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator as I
g = np.array([[0.25]])
r = I(nnear=2, exclude_nan=False)(np.array([0.0, 1.0]), np.array([0.0, 0.0]), np.array([1.0, np.nan]), xgrid=g, ygrid=g)
assert np.isnan(r).all(), r
"""),
 dict(id="S176-sites-as-float32", prop="C14",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    n_cmls = len(cml_ids)\n", "    n_cmls = len(cml_ids)\n    site_b_longitude = np.asarray(site_b_longitude, dtype=\"float32\")\n")],
  needs="far eastern or western longitudes and ends close to each other",
  breaks="distances are wrong by some metres",
  demo="""
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as f
from pycomlink.spatial.helper import haversine
d = f(["a", "b"], [0.0, 0.0], [170.0, 170.1], [0.0, 0.0], [170.12345678, 170.12355678])
assert abs(d.b_to_all_b.values[0, 1] - haversine(170.12345678, 0.0, 170.12355678, 0.0)) < 1e-6
"""),
 dict(id="S177-F-of-partial-window", prop="C15",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(\n                skipna=True\n            ) * (interval / 60)\n", "            F.loc[dict(cml_id=cmlid)] = F_val.rolling(\n                time=period, min_periods=max(hours_needed, 1)\n            ).sum(skipna=True) * (interval / 60)\n")],
  needs="a window with some unknown steps",
  breaks="F is the sum over a part of the window only",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as d, nearby_wetdry
ids = ["a", "b", "c", "d"]
lat, lon = np.full(4, 50.0), np.array([8.0, 8.001, 8.002, 8.003])
p = np.full((4, 12), -40.0)
p[0, 8] = np.nan
x = xr.DataArray(p, dims=("cml_id", "time"), coords={"cml_id": ids, "time": np.arange(12), "length": ("cml_id", np.full(4, 2.0))})
w, F = nearby_wetdry(x, d(ids, lat, lon, lat, lon), interval=60, timeperiod=4, min_hours=2)
assert np.isnan(F.values[0, 9]), F.values[0]
"""),
 dict(id="S181-mlp-more-than-one", prop="C19",
  edits=[(PR+"wet_dry/mlp.py", "    if indices.size > 0: #", "    if indices.size > 1: #")],
  needs="a series with a single complete window",
  breaks="it gets no prediction",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
x = xr.DataArray(np.arange(41.0) % 3, dims="time")
r = mlp_wet_dry(x, x, "rad_online")
assert not np.isnan(r[-1]).any(), r
"""),
 dict(id="S182-first-unknown-ends", prop="C20",
  edits=[(PT+"run_inference.py", "            # Skip if the time or cml_id is not found in the original data\n            continue\n", "            # Skip if the time or cml_id is not found in the original data\n            break\n")],
  needs="a result for an id or time that is not in the data, followed by others",
  breaks="the following results are not stored",
  demo="""
import sys, types, importlib.machinery
import numpy as np, xarray as xr
torch = types.ModuleType("torch")
torch.__spec__ = importlib.machinery.ModuleSpec("torch", None)
sys.modules["torch"] = torch
from pycomlink.processing.pytorch_utils import run_inference as m
ds = xr.Dataset({"TL": (("time", "cml_id"), np.zeros((2, 1)))}, coords={"time": [0, 1], "cml_id": ["a"]})
r = m.redistribute_results({"predictions": np.array([[0.1], [0.2]]), "cml_ids": np.array(["x", "a"]), "times": np.array([0, 1])}, ds)
assert r.predictions.values[1, 0] == 0.2, r
"""),
 dict(id="S183-half-precision", prop="C21",
  edits=[(TF+"inference_utils.py", "    return np.ravel(y_prob).astype(np.float32)\n", "    return np.ravel(y_prob).astype(np.float16).astype(np.float32)\n")],
  needs="probabilities with more than three digits",
  breaks="they are rounded",
  demo="""
import numpy as np
from types import SimpleNamespace as N
from pycomlink.processing.tensorflow_utils import inference_utils as m
r = m.run_inference(N(predict=lambda x, **k: np.array([[0.123456]])), np.zeros((1, 2, 1)))
assert abs(r[0] - 0.123456) < 1e-6, r
"""),
 dict(id="S184-short-hash", prop="C22",
  edits=[(PT+"inference_utils.py", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()[:4]\n")],
  needs="two of several hundred URLs whose hashes start alike",
  breaks="the second one gets the file of the first one",
  demo="""
import sys, types, importlib.machinery, tempfile, urllib.request, hashlib
torch = types.ModuleType("torch")
torch.__spec__ = importlib.machinery.ModuleSpec("torch", None)
sys.modules["torch"] = torch
from pycomlink.processing.pytorch_utils import inference_utils as m
def get(u, fn):
    open(fn, "w").write(u)
urllib.request.urlretrieve = get
with tempfile.TemporaryDirectory() as d:
    for i in range(1500):
        u = "https://example.org/m%d.pt" % i
        assert open(m.download_and_cache_model(u, d)).read() == u
"""),
 dict(id="S185-frequency-in-mhz", prop="C23",
  edits=[(IO+"cmlh5_to_xarray.py", "cml_ch_g.attrs[\"frequency\"] / 1e9", "cml_ch_g.attrs[\"frequency\"] // 1e6 / 1e3")],
  needs="a frequency that is not a whole number of MHz",
  breaks="it is cut off",
  demo="""
import h5py, numpy as np, os, tempfile
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.h5")
    with h5py.File(fn, "w") as f:
        g = f.create_group("c")
        for k, v in dict(cml_id="c", site_a_latitude=50.0, site_b_latitude=50.1, site_a_longitude=8.0, site_b_longitude=8.1).items():
            g.attrs[k] = v
        c = g.create_group("channel_1")
        c["time"], c["tx"], c["rx"] = np.array([0.0, 60.0]), np.array([1.0, 2.0]), np.array([3.0, 4.0])
        c.attrs["frequency"], c.attrs["polarization"] = 18.7005e9, "V"
    assert abs(read_cmlh5_file_to_xarray(fn)[0].frequency.values.ravel()[0] - 18.7005) < 1e-9
"""),
 dict(id="S186-gaps-beside-path", prop="C24",
  edits=[(VA+"validator.py", "            .sum(dim=[\"x\", \"y\"])\n", "            .sum(dim=[\"x\", \"y\"], skipna=False)\n")],
  needs="a missing pixel that is not crossed by the link but close to it",
  breaks="the weighted sum is NaN",
  demo="""
import numpy as np, pandas as pd, xarray as xr
from types import SimpleNamespace as N
from pycomlink.validation.validator import GridValidator
t = pd.date_range("2020-01-01", periods=4, freq="h")
lon, lat = np.meshgrid(np.arange(4.0), np.arange(4.0))
v = np.ones((4, 4, 4))
v[:, 0, 3] = np.nan
ds = xr.Dataset({"R": (("time", "y", "x"), v)}, coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
c = N(data=pd.DataFrame(index=t))
cml = N(get_coordinates=lambda: N(lon_a=0.0, lat_a=0.1, lon_b=3.0, lat_b=3.1), channel_1=c, channel_2=c)
assert not GridValidator(xr_ds=ds).get_time_series(cml, "R")["R"].isna().any()
"""),
 dict(id="S187-grid-memory-order", prop="C25",
  edits=[(SP+"coverage.py", "        tqdm(xgrid.ravel(), desc=\"Building grid points\"), ygrid.ravel()\n", "        tqdm(xgrid.ravel(order=\"K\"), desc=\"Building grid points\"), ygrid.ravel(order=\"K\")\n")],
  needs="a transposed grid (column by column in memory)",
  breaks="the mask is that of another order of the points",
  demo="""
import numpy as np
from types import SimpleNamespace as N
from pycomlink.spatial.coverage import calc_coverage_mask
c = N(metadata=dict(site_a_longitude=8.0, site_a_latitude=50.0, site_b_longitude=8.0, site_b_latitude=52.0))
x, y = np.meshgrid([8.0, 9.0], [50.0, 51.0, 52.0])
a = calc_coverage_mask([c], x.T, y.T, 0.1)
assert (a == (x.T == 8.0)).all(), a
"""),
 dict(id="S188-power-at-threshold", prop="C26",
  edits=[(PR+"wet_dry/stft.py", "P_sum_diff[~nan_index] > threshold", "P_sum_diff[~nan_index] >= threshold")],
  needs="a difference of exactly the threshold, as for a constant spectrum with a threshold of 0",
  breaks="the step is wet",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
P = np.ones((4, 6))
w, i = stft_classification(np.zeros(10), 4, 0.0, 1.5, t_dry_start=2, t_dry_stop=8, Pxx=P, f=np.arange(4.0))
assert not w.any(), w
"""),
 dict(id="X190-negative-set-to-zero", prop="C27",
  edits=[(PR+"k_R_relation.py", "    A = np.atleast_1d(A).astype(float)\n    R = np.zeros_like(A)\n", "    A = np.atleast_1d(A).astype(float, copy=False)\n    R = np.zeros_like(A)\n    A[A < 0] = 0\n")],
  needs="negative attenuation in a float array",
  breaks="it is set to 0 in the passed array",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
A = np.array([-1.0, 2.0])
calc_R_from_A(A, 1.0, a=1.0, b=1.0)
assert A[0] == -1.0, A
"""),
 dict(id="S191-durations-to-one-day", prop="C29",
  edits=[(SP+"interpolator.py", "    # Set frequency (1 day expressed in years):\n", "    # fitted for durations up to one day\n    time_scale_hours = min(time_scale_hours, 24)\n    # Set frequency (1 day expressed in years):\n")],
  needs="a duration of more than a day",
  breaks="the parameters are those of one day",
  demo="""
from pycomlink.spatial.interpolator import clim_var_param as f
assert f("20130404", 48)["sill"] < f("20130404", 24)["sill"]
"""),
 dict(id="S192-broken-is-missing", prop="C30",
  edits=[(TF+"lazy_tf.py", "    except ImportError as e:\n", "    except Exception as e:\n")],
  needs="a tensorflow that is there but fails on import with something else than ImportError",
  breaks="it is installed again",
  demo=None),
]
SEEDS = [s for s in SEEDS if s["demo"] is not None]
