PR, SP, UT, VA = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/", "pycomlink/validation/"
TF = PR + "tensorflow_utils/"
PT = PR + "pytorch_utils/"
SEEDS = [
 dict(id="S67-leijnse-table-kept-per-link", prop="C07",
  edits=[(PR+"wet_antenna.py", """    L_km = float(L_km)

    # Generate mapping from A_obs to WAA
    A_rain = np.logspace(-10, 3, 100)
""", """    L_km = float(L_km)

    # the mapping is expensive, keep it for the next series of the same link
    key = (float(f_Hz), str(pol), L_km)
    if key in _LEIJNSE_MAPPINGS:
        return _LEIJNSE_MAPPINGS[key](A_obs)

    # Generate mapping from A_obs to WAA
    A_rain = np.logspace(-10, 3, 100)
"""), (PR+"wet_antenna.py", """        A_obs_theoretical, waa, assume_sorted=True, kind="linear"
    )
    return mapping(A_obs)


def waa_leijnse_2008(
""", """        A_obs_theoretical, waa, assume_sorted=True, kind="linear"
    )
    _LEIJNSE_MAPPINGS[key] = mapping
    return mapping(A_obs)


_LEIJNSE_MAPPINGS = {}


def waa_leijnse_2008(
""")],
  needs="two calls for the same link with different parameters of the water film",
  breaks="the second call uses the table of the first one",
  demo="""
import numpy as np
from pycomlink.processing import wet_antenna as w
A = np.array([0.5, 3.0])
one = w.waa_leijnse_2008_from_A_obs(A, 15e9, "V", 4.0)
two = w.waa_leijnse_2008_from_A_obs(A, 15e9, "V", 4.0, gamma=1e-5)
assert (abs(two - one) > 0.01 * one).all(), (one, two)
"""),
 dict(id="S69-scaler-kept-per-variable", prop="C21",
  edits=[(TF+"inference_utils.py", """    for i in range(len(input_vars)):
        scaler = StandardScaler()
        feat = input_seq[:, :, i].reshape(-1, 1)
        input_scaled[:, :, i] = scaler.fit_transform(feat).reshape(
            input_seq.shape[0], input_seq.shape[1]
        )
""", """    for i, var in enumerate(input_vars):
        feat = input_seq[:, :, i].reshape(-1, 1)
        if var not in _SCALERS:
            _SCALERS[var] = StandardScaler().fit(feat)
        input_scaled[:, :, i] = _SCALERS[var].transform(feat).reshape(
            input_seq.shape[0], input_seq.shape[1]
        )
"""), (TF+"inference_utils.py", "def is_url(path):\n", "_SCALERS = {}\n\n\ndef is_url(path):\n")],
  needs="a second data set in the same process",
  breaks="it is scaled with mean and standard deviation of the first one",
  demo="""
import numpy as np
from pycomlink.processing.tensorflow_utils.inference_utils import scale_features
x = np.arange(12.0).reshape(2, 3, 2)
a = scale_features(x, ["p", "q"])
b = scale_features(x * 3 + 5, ["p", "q"])
assert np.allclose(a, b, atol=1e-5)
"""),
 dict(id="S70-intersection-weights-kept", prop="C24",
  edits=[(VA+"validator.py", """        self.cml = cml
        cml_coords = cml.get_coordinates()

        # get intersect weights
        self.intersect_weights = plg""", """        # the weights do not change as long as it is the same link
        cml_coords = cml.get_coordinates()
        last = getattr(self, "cml", None)
        if last is not None and (
            last.get_coordinates().lon_a,
            last.get_coordinates().lat_a,
        ) == (cml_coords.lon_a, cml_coords.lat_a):
            return self.intersect_weights
        self.cml = cml

        # get intersect weights
        self.intersect_weights = plg""")],
  needs="two links that share site a, compared one after the other with the same validator",
  breaks="the second link gets the pixels of the first one",
  demo="""
from collections import namedtuple
import numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
C = namedtuple("C", "lon_a lon_b lat_a lat_b")
class Ch:
    def __init__(self, d): self.data = d
class Cml:
    def __init__(self, c):
        t = pd.date_range("2020-01-01", periods=9, freq="h")
        self.c, self.channel_1, self.channel_2 = c, Ch(pd.DataFrame({"x": 0.0}, index=t)), Ch(pd.DataFrame({"x": 0.0}, index=t))
    def get_coordinates(self): return self.c
x, y = np.meshgrid(np.arange(4.0), np.arange(4.0))
t = pd.date_range("2020-01-01 02:00", periods=3, freq="h")
ds = xr.Dataset({"r": (("time", "y", "x"), np.arange(48.0).reshape(3, 4, 4))}, coords={"time": t, "longitudes": (("y", "x"), x), "latitudes": (("y", "x"), y)})
one, two = Cml(C(0.1, 2.9, 0.1, 0.2)), Cml(C(0.1, 0.2, 0.1, 2.9))
v = GridValidator(xr_ds=ds)
v.get_time_series(one, "r")
got = v.get_time_series(two, "r")["r"].values
exp = GridValidator(xr_ds=ds).get_time_series(two, "r")["r"].values
assert np.allclose(got, exp), (got, exp)
"""),
 dict(id="S71-dry-period-nearly-lowest", prop="C26",
  edits=[(PR+"wet_dry/stft.py", "    i_last = np.where(roll_std_dev == np.nanmin(roll_std_dev))[0][0]\n",
   "    # rounding must not decide between equal periods\n    i_last = np.where(np.isclose(roll_std_dev, np.nanmin(roll_std_dev), rtol=1e-2))[0][0]\n")],
  needs="an earlier period whose standard deviation is higher by less than a percent",
  breaks="the dry period is not the one with the lowest standard deviation",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import find_lowest_std_dev_period
r = np.array([0.0, 10.05, 0.0, 50.0, -90.0, 200.0, 0.0, 10.0, 0.0])
assert find_lowest_std_dev_period(r, 3) == (6, 9), find_lowest_std_dev_period(r, 3)
"""),
 dict(id="S72-constant-baseline-all-dry", prop="C01",
  edits=[(PR+"baseline.py", """    return _numba_baseline_constant(
        trsl=np.asarray(trsl, dtype=np.float64),
""", """    if not np.any(np.asarray(wet, dtype=np.float64) > 0):
        # no wet period, nothing to bridge
        return np.array(trsl, dtype=np.float64)

    return _numba_baseline_constant(
        trsl=np.asarray(trsl, dtype=np.float64),
""")],
  needs="a series without any wet sample in which a flag is unknown",
  breaks="the sample with unknown flag gets the level instead of NaN",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
assert np.isnan(baseline_constant(np.array([1.0, 2.0, 3.0]), np.array([0.0, np.nan, 0.0]))[1])
"""),
 dict(id="S73-linear-first-sample-state", prop="C02",
  edits=[(PR+"baseline.py", "    last_i_is_wet = False\n    found_nan = False\n\n    for i", "    last_i_is_wet = wet[0] == 1\n    found_nan = False\n\n    for i")],
  needs="a series that starts wet with an unknown second flag, unknown flags ignored",
  breaks="the second sample counts as wet although the first one counts as dry",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
b = baseline_linear(np.array([1.0, 5.0, 3.0]), np.array([1.0, np.nan, 0.0]), ignore_nan=True)
assert b[1] == 5.0, b
"""),
 dict(id="S76-quantization-rounded", prop="C05",
  edits=[(PR+"min_max.py", "    Ac_max = tx_max - rx_min - (gT + gR) / 2\n    Ac_min = tx_min - rx_max + (gT + gR) / 2\n", "    bias = round((gT + gR) / 2, 1)\n    Ac_max = tx_max - rx_min - bias\n    Ac_min = tx_min - rx_max + bias\n")],
  needs="a quantization finer than 0.2 dB",
  breaks="half the sum of the quantizations is rounded",
  demo="""
import numpy as np
from pycomlink.processing.min_max import _calc_A_min_max
z = np.zeros(4)
r = _calc_A_min_max(z, z + 5, z - 40, z - 39, gT=0.25, gR=0.25, window=2)
assert abs(r[3] - (45 - 0.25 - (39 + 0.25))) < 1e-9, r
"""),
 dict(id="S77-parameters-sorted-frequencies", prop="C06",
  edits=[(PR+"k_R_relation.py", "    a_v = interp_a_v(f_GHz)\n    b_v = interp_b_v(f_GHz)\n", "    # neighboring links mostly share their frequency\n    f_unique, ix = np.unique(f_GHz, return_index=True)\n    ix = np.searchsorted(f_unique, f_GHz - 1e-3)\n    a_v = interp_a_v(f_unique)[ix]\n    b_v = interp_b_v(f_unique)[ix]\n")],
  needs="two vertically polarised links whose frequencies differ by less than 1 MHz",
  breaks="the higher one gets the parameters of the lower one",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import a_b
f = np.array([10.0, 10.0009])
a, b = a_b(f, "V")
assert a[1] > a[0], a
"""),
]
