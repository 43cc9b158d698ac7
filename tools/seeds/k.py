PR, SP, UT, VA, IO = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/", "pycomlink/io/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S200-baseline-in-weeks", prop="C01",
  edits=[(PR+"baseline.py", "    return _numba_baseline_constant(\n        trsl=np.asarray(trsl, dtype=np.float64),\n        wet=np.asarray(wet, dtype=np.float64),\n        n_average_last_dry=n_average_last_dry,\n    )\n",
   "    trsl = np.asarray(trsl, dtype=np.float64)\n    wet = np.asarray(wet, dtype=np.float64)\n    # one week of minutes at a time\n    parts = [\n        _numba_baseline_constant(\n            trsl[i : i + 10080], wet[i : i + 10080], n_average_last_dry\n        )\n        for i in range(0, max(len(trsl), 1), 10080)\n    ]\n    return np.concatenate(parts)\n")],
  needs="a series of more than 10080 steps with rain at the end of a block",
  breaks="the baseline starts anew from the level during rain",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
x = np.full(10100, 50.0); w = np.zeros(10100)
x[10070:10090] = 60.0; w[10070:10090] = 1.0
assert baseline_constant(x, w)[10080] == 50.0
"""),
 dict(id="S201-events-longer-than-a-day", prop="C02",
  edits=[(PR+"baseline.py", "            if found_nan:\n                baseline[last_dry_i : i + 1] = np.nan\n", "            if found_nan or i - last_dry_i > 1440:\n                baseline[last_dry_i : i + 1] = np.nan\n")],
  needs="a wet period of more than 1440 steps",
  breaks="its baseline is NaN",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
x = np.linspace(50.0, 60.0, 1500); w = np.ones(1500); w[0] = w[-1] = 0.0
assert np.allclose(baseline_linear(x, w), x)
"""),
 dict(id="S202-film-renewed-daily", prop="C03",
  edits=[(PR+"wet_antenna.py", "    for i in range(1, len(rsl)):\n        if wet[i] == True:\n            waa[i] = min(\n                A[i], waa_max, waa[i - 1] + (waa_max - waa[i - 1]) * 3 * delta_t / tau\n            )\n",
   "    last = 0.0\n    for i in range(1, len(rsl)):\n        if i % 2880 == 0:\n            last = 0.0\n        else:\n            last = waa[i - 1]\n        if wet[i] == True:\n            waa[i] = min(\n                A[i], waa_max, last + (waa_max - last) * 3 * delta_t / tau\n            )\n")],
  needs="rain at step 2880",
  breaks="the wet antenna attenuation starts from zero again",
  demo="""
import numpy as np
from pycomlink.processing.wet_antenna import waa_schleiss_2013
r = waa_schleiss_2013(np.full(3000, 60.0), np.full(3000, 50.0), np.ones(3000), 2.3, 1.0, 15.0)
assert abs(r[2880] - 2.3) < 1e-6, r[2880]
"""),
 dict(id="S203-long-outage", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "    in_blackout_gap = False\n    for i in range(len(rsl)):\n", "    in_blackout_gap = False\n    n_gap = 0\n    for i in range(len(rsl)):\n        n_gap = n_gap + 1 if np.isnan(rsl[i]) else 0\n        if n_gap > 1440:\n            in_blackout_gap = False\n")],
  needs="a blackout of more than 1440 samples",
  breaks="only its first 1440 samples are masked",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end as g, created_blackout_gap_mask_from_start_end_markers as m
x = np.full(2000, np.nan); x[0] = x[-1] = -75.0
assert m(x, *g(x, -65.0)).sum() == 1998
"""),
 dict(id="S204-nearby-default-table", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)", "a, b = a_b(f_GHz, pol=pol)")],
  needs="the other ITU table",
  breaks="it is ignored",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
x = [np.array([v]) for v in (-50.0, -70.0, -60.0, 0.0)]
k = dict(length=3.0, f_GHz=23.0, pol="V")
assert f(*x, a_b_approximation="ITU_2003", **k) != f(*x, a_b_approximation="ITU_2005", **k)
"""),
 dict(id="S205-mlp-blocks", prop="C19",
  edits=[(PR+"wet_dry/mlp.py", "        mlp_pred[indices] = model.predict_proba(x_fts[indices])   \n", "        block = 1024\n        for k in range(0, indices.size, block):\n            part = indices[k : k + block - 1] if indices.size - k > block else indices[k:]\n            mlp_pred[part] = model.predict_proba(x_fts[part])\n")],
  needs="more than 1024 complete windows",
  breaks="the last one of every block is missing",
  demo="""
import numpy as np, xarray as xr, pandas as pd
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
t = pd.date_range("2020-01-01", periods=1500, freq="min")
x = xr.DataArray(np.random.default_rng(0).normal(50, 1, 1500), dims="time", coords={"time": t})
r = mlp_wet_dry(x, x, "rg_online")
assert not np.isnan(r[40:]).any()
"""),
 dict(id="S206-ids-like-the-first", prop="C20",
  edits=[(PT+"run_inference.py", '        "cml_id": np.concatenate([sample["cml_id"] for sample in samples]),\n', '        "cml_id": np.concatenate([sample["cml_id"] for sample in samples]).astype(\n            samples[0]["cml_id"].dtype\n        ),\n')],
  needs="ids longer than the first one",
  breaks="they are cut, their predictions are lost or stored for another link",
  demo="""
import numpy as np, xarray as xr, types
from pycomlink.processing.pytorch_utils import run_inference as R
x = xr.DataArray(np.arange(24.0).reshape(2, 6, 2), dims=("cml_id", "time", "channel"), coords={"cml_id": ["a", "ab"], "time": np.arange(6)})
r = R.batchify_windows(x, 4, 2)
assert set(r["cml_id"].tolist()) == {"a", "ab"}, r["cml_id"]
"""),
 dict(id="S207-long-ids", prop="C21",
  edits=[(TF+"inference_utils.py", "    return np.array(X, dtype=np.float32), np.array(ids), np.array(time_idx)\n", '    ids = np.array(ids)\n    if ids.dtype.kind == "U":\n        ids = ids.astype("U12")\n    return np.array(X, dtype=np.float32), ids, np.array(time_idx)\n')],
  needs="ids of more than twelve characters",
  breaks="they are cut, their predictions are lost or stored for another link",
  demo="""
import numpy as np, xarray as xr
import pycomlink.processing.tensorflow_utils.inference_utils as U
ds = xr.Dataset({"tl1": (("cml_id", "time"), np.ones((1, 4)))}, coords={"cml_id": ["provider_a_link_17"], "time": np.arange(4)})
X, ids, t = U.create_samples(ds, ds.cml_id.values, ["tl1"], seq_len=3)
assert set(ids.tolist()) == {"provider_a_link_17"}, ids
"""),
 dict(id="S209-polarization-letter", prop="C23",
  edits=[(IO+"cmlh5_to_xarray.py", 'cml_ch_g.attrs["polarization"],', 'cml_ch_g.attrs["polarization"].upper()[:1],')],
  needs="a polarization given as a word or in small letters",
  breaks="another text than in the file",
  demo="""
import h5py, os, tempfile
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.h5")
    with h5py.File(p, "w") as h:
        g = h.create_group("cml_0")
        for k, v in dict(cml_id="a", site_a_latitude=1.0, site_b_latitude=1.1, site_a_longitude=1.0, site_b_longitude=1.1).items(): g.attrs[k] = v
        c = g.create_group("channel_1"); c.attrs["frequency"] = 2e10; c.attrs["polarization"] = "Horizontal"
        for k in ("tx", "rx", "time"): c[k] = [1.0, 2.0]
    assert str(f(p)[0].polarization.values.ravel()[0]) == "Horizontal"
"""),
 dict(id="S210-within-an-hour-of-the-grid-time", prop="C24",
  edits=[(VA+"validator.py", "        df_truth_t = df_truth_t.reindex(df.index, method=method)\n", '        df_truth_t = df_truth_t.reindex(\n            df.index, method=method, tolerance=pd.Timedelta("1h")\n        )\n')],
  needs="grid times more than an hour apart",
  breaks="samples more than an hour away from the grid time are left out of the mean",
  demo="""
import numpy as np, pandas as pd
from pycomlink.validation.validator import GridValidator
g = GridValidator()
i = pd.date_range("2020-01-01", periods=4, freq="3h", name="time")
g.weighted_grid_sum = pd.DataFrame({"R": 1.0}, index=i)
df = pd.DataFrame({"R": np.arange(10.0)}, index=pd.date_range("2020-01-01", periods=10, freq="h"))
assert g.resample_to_grid_time_series(df, "right").R.tolist() == [0.0, 2.0, 5.0, 8.0]
"""),
 dict(id="S211-within-a-day", prop="C28",
  edits=[(UT+"temporal.py", "    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method)\n", '    df_new_t = df_new_t.reindex(\n        df_temp.index, method=fill_method, tolerance=pd.Timedelta("1D")\n    )\n')],
  needs="new time stamps more than a day apart",
  breaks="samples more than a day away are left out",
  demo="""
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
df = pd.DataFrame({"R": np.ones(8)}, index=pd.date_range("2020-01-01", periods=8, freq="D", tz="utc"))
r = f(df, pd.date_range("2020-01-01", periods=2, freq="7D"), "sum")
assert r.R.tolist() == [1.0, 7.0], r
"""),
 dict(id="S212-values-as-float32", prop="C12",
  edits=[(SP+"interpolator.py", '        z = z.astype("float")\n', '        z = z.astype("float32")\n')],
  needs="values with more than seven digits",
  breaks="they are rounded",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator as I
g = np.array([[0.0, 1.0]])
r = I(nnear=2)(np.array([0.0, 1.0]), np.array([0.0, 0.0]), np.array([16777217.0, 2.0]), xgrid=g, ygrid=g * 0)
assert r[0, 0] == 16777217.0, r
"""),
 dict(id="S213-neighbours-at-most-64", prop="C11",
  edits=[(SP+"idw.py", "                q, k=nnear, eps=eps, distance_upper_bound=max_distance\n", "                q, k=min(nnear, 64), eps=eps, distance_upper_bound=max_distance\n")],
  needs="more than 64 requested neighbours",
  breaks="only 64 are used",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
a = np.arange(100) * 2 * np.pi / 100
X = np.c_[np.cos(a), np.sin(a)] * (1 + np.arange(100)[:, None] / 1000)
z = np.arange(100.0)
r = Invdisttree(X)(np.array([[0.0, 0.0]]), z, nnear=100)
d = np.hypot(*X.T)
assert np.allclose(r, (z / d).sum() / (1 / d).sum()), r
"""),
 dict(id="S214-common-times-only", prop="C18",
  edits=[(PR+"xarray_wrapper.py", "                    vectorize=True,\n", '                    vectorize=True,\n                    join="inner",\n')],
  needs="arguments with different time stamps or links",
  breaks="the others are silently left out",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.baseline import baseline_constant
x = xr.DataArray([1.0, 2.0, 3.0], dims="time", coords={"time": [0, 1, 2]})
w = xr.DataArray([0.0, 0.0], dims="time", coords={"time": [0, 1]})
try: r = baseline_constant(x, w)
except ValueError: pass
else: raise SystemExit(1)
"""),
 dict(id="S215-wet-from-float16", prop="C09",
  edits=[(VA+"stats.py", "    reference = reference > 0\n    predicted = predicted > 0\n", '    reference = reference.astype("float16") > 0\n    predicted = predicted.astype("float16") > 0\n')],
  needs="positive values below 1e-8",
  breaks="they count as dry",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
assert f(np.array([1e-9, 0.0]), np.array([1.0, 0.0])).N_wet_reference == 1
"""),
 dict(id="S216-own-median-in-place", prop="C27",
  edits=[(PR+"wet_dry/mlp.py", "        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(\n            time = 12*60, \n            min_periods=2 * 60, \n            center = True\n        ).median().data\n",
   "        trsl2 =  trsl_channel_2\n        trsl2 -= trsl_channel_2.rolling(\n            time = 12*60, \n            min_periods=2 * 60, \n            center = True\n        ).median().data\n")],
  needs="the models rad or rg",
  breaks="the second channel passed in loses its median",
  demo="""
import numpy as np, xarray as xr, pandas as pd
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
t = pd.date_range("2020-01-01", periods=200, freq="min")
mk = lambda: xr.DataArray(np.linspace(50, 51, 200), dims="time", coords={"time": t})
x = mk()
mlp_wet_dry(mk(), x, "rad")
assert float(x[0]) == 50.0, x
"""),
]
