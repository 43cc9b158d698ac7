PR, SP, UT, VA = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S78-idw-whole-exponents", prop="C11",
  edits=[(SP+"idw.py", "            p=p,\n        )\n\n        return interpol", "            p=max(1, int(p)),\n        )\n\n        return interpol")],
  needs="an exponent that is not a whole number",
  breaks="the exponent is cut off",
  demo="""
import numpy as np
from pycomlink.spatial.idw import Invdisttree
t = Invdisttree(np.array([[0.0, 0.0], [3.0, 0.0]]))
r = t(np.array([[1.0, 0.0]]), np.array([0.0, 1.0]), nnear=2, p=1.5)[0]
e = 2 ** -1.5 / (1 + 2 ** -1.5)
assert abs(r - e) < 1e-9, (r, e)
"""),
 dict(id="S79-idw-query-compared-by-corners", prop="C12",
  edits=[(SP+"idw.py", "            and np.array_equal(q, self.q)\n", "            and self.q is not None\n            and q.shape == self.q.shape\n            and np.array_equal(q[[0, -1]], self.q[[0, -1]])\n")],
  needs="two grids of the same shape and the same first and last point",
  breaks="distances of the earlier grid are used",
  demo="""
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
x, y, z = np.array([0.0, 4.0, 9.0]), np.array([0.0, 3.0, 1.0]), np.array([1.0, 5.0, 2.0])
g1 = np.array([[0.0, 2.0, 8.0]]), np.zeros((1, 3))
g2 = np.array([[0.0, 6.0, 8.0]]), np.zeros((1, 3))
i = IdwKdtreeInterpolator(nnear=2)
i(x, y, z, *g1)
assert np.allclose(i(x, y, z, *g2), IdwKdtreeInterpolator(nnear=2)(x, y, z, *g2))
"""),
 dict(id="S81-distances-of-rounded-sites", prop="C14",
  edits=[(PR+"wet_dry/nearby_wetdry.py", "    n_cmls = len(cml_ids)\n", "    n_cmls = len(cml_ids)\n    # sites on the same mast differ by a few metres only\n    site_b_latitude = np.round(site_b_latitude, 2)\n")],
  needs="latitudes with more than two decimals",
  breaks="distances to b ends are wrong by up to 500 m",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as c
from pycomlink.spatial.helper import haversine
d = c(["a", "b"], [50.0, 50.1], [10.0, 10.1], [50.004, 50.104], [10.0, 10.2])
assert abs(float(d.a_to_all_b[0, 1]) - haversine(10.0, 50.0, 10.2, 50.104)) < 1e-6
"""),
 dict(id="S82-counts-of-32-bit", prop="C09",
  edits=[(VA+"stats.py", "    N_tp = ((reference == True) & (predicted == True)).sum()\n", "    N_tp = ((reference == True) & (predicted == True)).sum(dtype=np.int32)\n"),
         (VA+"stats.py", "    N_tn = ((reference == False) & (predicted == False)).sum()\n", "    N_tn = ((reference == False) & (predicted == False)).sum(dtype=np.int32)\n")],
  needs="more than about 90000 pairs",
  breaks="the product of the counts overflows and the Matthews coefficient is wrong",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as c
r = np.zeros(120000); r[:60000] = 1
m = c(r, r.copy())
assert abs(m.matthews_correlation - 1) < 1e-9, m.matthews_correlation
"""),
 dict(id="S83-reference-level-from-one-level", prop="C16",
  edits=[(PR+"nearby_rain_retrival.py", "    pmean = ((pmin + pmax) / 2).where(dry == 1)\n", "    pmean = xr.concat([pmin, pmax], dim=\"level\").mean(\"level\").where(dry == 1)\n    pmean = pmean.transpose(*pmin.dims)\n")],
  needs="a dry step that has only one of the two levels",
  breaks="the single level counts for the reference level",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_determine_reference_level as f
mk = lambda v: xr.DataArray(np.array([v]), dims=("cml_id", "time"), coords={"cml_id": ["a"], "time": np.arange(3)})
r = f(mk([-50.0, -52.0, -50.0]), mk([-48.0, np.nan, -48.0]), mk([0.0, 0.0, 0.0]), n_average_dry=1)
assert np.isnan(r.values[0, 1]), r.values
"""),
 dict(id="S84-rain-threshold-zero", prop="C17",
  edits=[(PR+"nearby_rain_retrival.py", "    if F_value_threshold is not None:\n", "    if F_value_threshold:\n")],
  needs="an outlier threshold of 0",
  breaks="outliers are not removed",
  demo="""
import numpy as np
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as f
r = f(np.array([-40.0]), np.array([-50.0]), np.array([-45.0]), np.array([-1.0]), 2.0, a=0.1, b=1.0, F_value_threshold=0)
assert np.isnan(r[0])
"""),
 dict(id="S85-mlp-median-of-few-samples", prop="C19",
  edits=[(PR+"wet_dry/mlp.py", """        # Detrending channel 2 using rolling median   
        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(
            time = 12*60, 
            min_periods=2 * 60, 
            center = True
        ).median().data
""", """        # Detrending channel 2 using rolling median   
        trsl2 =  trsl_channel_2 - trsl_channel_2.rolling(
            time = 12*60, 
            min_periods=2 * 60, 
            center = True
        ).median().ffill("time").data
""")],
  needs="a long gap in the second channel",
  breaks="steps after a gap are classified with the median of before the gap",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry
import pycomlink.processing.wet_dry.mlp as m
n = 1500
a = np.sin(np.arange(n)); b = np.cos(np.arange(n))
b[300:1400] = np.nan
mk = lambda v: xr.DataArray(v, dims="time", coords={"time": np.arange(n)})
class Model:
    def predict_proba(self, x): return np.zeros((len(x), 2))
m.model_rad = Model()
r = mlp_wet_dry(mk(a), mk(b), model_sel="rad")
assert np.isnan(r[1440:1460]).all(), r[1440:1460]
"""),
 dict(id="S86-predictions-next-time-step", prop="C20",
  edits=[(PT+"run_inference.py", "            time_idx = np.where(ref_times == pred_time)[0][0]\n", "            time_idx = np.searchsorted(ref_times.values, pred_time)\n")],
  needs="a prediction for a time that is not in the data",
  breaks="it is stored at the next time step",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.pytorch_utils.run_inference import redistribute_results
t = np.array(["2020-01-01T00:00", "2020-01-01T02:00"], dtype="datetime64[ns]")
ds = xr.Dataset({"x": (("time", "cml_id"), np.zeros((2, 1)))}, coords={"time": t, "cml_id": ["a"]})
r = redistribute_results({"predictions": np.array([[0.5]]), "cml_ids": np.array(["a"]), "times": np.array(["2020-01-01T01:00"], dtype="datetime64[ns]")}, ds)
assert np.isnan(r.predictions.values).all()
"""),
 dict(id="S87-cache-ignores-case", prop="C22",
  edits=[(PT+"inference_utils.py", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.lower().encode()).hexdigest()\n")],
  needs="two URLs that differ in upper and lower case only",
  breaks="the second one gets the file of the first one",
  demo="""
import tempfile, pathlib, urllib.request
from pycomlink.processing.pytorch_utils import inference_utils as u
def get(url, path): pathlib.Path(path).write_text(url)
u.urllib.request.urlretrieve = get
with tempfile.TemporaryDirectory() as d:
    u.download_and_cache_model("http://x/Model.pt", d)
    assert u.download_and_cache_model("http://x/model.pt", d).read_text() == "http://x/model.pt"
"""),
 dict(id="S88-coverage-of-thinned-links", prop="C25",
  edits=[(SP+"coverage.py", "    cml_multi_line = ops.unary_union(cml_lines)\n", "    # a coarser outline is enough and much faster\n    cml_multi_line = ops.unary_union(cml_lines).simplify(max_dist_from_cml / 10)\n")],
  needs="a grid point close to the edge of the covered area beyond a link end",
  breaks="points within the distance are not marked or points beyond it are",
  demo="""
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask
class C: metadata = {"site_a_longitude": 0.0, "site_a_latitude": 0.0, "site_b_longitude": 10.0, "site_b_latitude": 0.0}
w = np.linspace(0.5, 1.5, 41) * np.pi
m = calc_coverage_mask([C()], 0.97 * np.cos(w)[None], 0.97 * np.sin(w)[None], 1.0)
assert m.all(), m
"""),
 dict(id="S89-aggregate-complete-rows", prop="C28",
  edits=[(UT+"temporal.py", "    df_temp = pd.DataFrame(df).copy()\n", "    df_temp = pd.DataFrame(df).dropna()\n")],
  needs="a table with a missing value in one of several columns",
  breaks="the sample is left out in the other columns, too",
  demo="""
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as f
i = pd.date_range("2020-01-01 00:10", periods=6, freq="10min", tz="utc")
df = pd.DataFrame({"a": np.arange(6.0), "b": [0.0, 1.0, 2.0, np.nan, 4.0, 5.0]}, index=i)
r = f(df, pd.date_range("2020-01-01 00:30", periods=2, freq="30min"), np.sum)
assert r.a.iloc[1] == 12.0, r
"""),
 dict(id="S91-consent-remembered", prop="C30",
  edits=[(TF+"lazy_tf.py", "tf = None\n\ndef detect", "tf = None\nallowed = False\n\ndef detect"),
         (TF+"lazy_tf.py", """        pkg = "tensorflow[and-cuda]" if has_gpu else "tensorflow"
        if auto_install or""", """        pkg = "tensorflow[and-cuda]" if has_gpu else "tensorflow"
        global allowed
        allowed = allowed or auto_install
        if allowed or""")],
  needs="a failed installation with consent, followed by a call without it",
  breaks="the second call installs again without consent",
  demo="""
import sys, os
os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
sys.modules["tensorflow"] = None
from pycomlink.processing.tensorflow_utils import lazy_tf as l
n = []
class S:
    DEVNULL = None
    def check_output(self, *a, **k): raise OSError()
    def check_call(self, *a, **k):
        n.append(a)
        raise RuntimeError("no network")
l.subprocess = S()
for a in (True, False):
    try:
        l.ensure_tensorflow_installed(auto_install=a)
    except Exception:
        pass
assert len(n) == 1, n
"""),
 dict(id="S92-resample-adds-column", prop="C27",
  edits=[(VA+"validator.py", "        df_temp = df.copy()\n", "        df_temp = df\n")],
  needs="resampling to the grid times",
  breaks="a column is added to the passed table",
  demo="""
import numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
g = GridValidator(xr_ds=xr.Dataset())
i = pd.date_range("2020-01-01", periods=3, freq="h", name="time")
g.weighted_grid_sum = pd.DataFrame({"r": [1.0, 2.0, 3.0]}, index=i)
df = pd.DataFrame({"R": [1.0, 2.0, 3.0]}, index=i)
g.resample_to_grid_time_series(df, "right")
assert list(df.columns) == ["R"]
"""),
 dict(id="S97-stft-window-of-mirrored-steps", prop="C26",
  edits=[(PR+"wet_dry/stft.py", "                rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window\n", "                rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=np.hamming(NFFT)\n")],
  needs="mirroring together with a window function of its own",
  breaks="the last steps use another window function",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
r = np.random.RandomState(0).rand(40)
w, i = stft_classification(r, 8, 1.0, 0.002, t_dry_start=5, t_dry_stop=20, window=np.ones(8), mirror=True)
from matplotlib.mlab import specgram
h = np.concatenate((r[36:40], r[36:40][::-1]))
e = specgram(h, NFFT=8, Fs=1/60.0, noverlap=7, window=np.ones(8))[0][:, 0]
assert np.allclose(i["Pxx"][:, -1], e)
"""),
]
