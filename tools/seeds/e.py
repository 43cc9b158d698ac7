PR, SP, UT = "pycomlink/processing/", "pycomlink/spatial/", "pycomlink/util/"
SEEDS = [
 dict(id="S63-dry-series-shortcut", prop="C04",
  edits=[(PR+"k_R_relation.py", """    R = np.zeros_like(A)

    nan_index = np.isnan(A)
    R[nan_index] = np.nan
""", """    R = np.zeros_like(A)

    if not (A > 0).any():
        # nothing to convert
        return R

    nan_index = np.isnan(A)
    R[nan_index] = np.nan
""")],
  needs="a series without any positive attenuation which has a missing value",
  breaks="the missing value becomes a rain rate of 0",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
assert np.isnan(calc_R_from_A(np.array([0.0, np.nan, -1.0]), 2.0, f_GHz=15.0, pol="V")[1])
"""),
 dict(id="S64-haversine-flat-for-short-distances", prop="C13",
  edits=[(SP+"helper.py", "    km = 6367 * c\n", "    # the formula is badly conditioned for short distances\n    c = np.where(a < 1e-11, np.hypot(dlat, dlon), c)\n    km = 6367 * c\n")],
  needs="two points less than 40 m apart, away from the equator",
  breaks="their east-west distance ignores the latitude",
  demo="""
import numpy as np
from pycomlink.spatial.helper import haversine
d = haversine(10.0, 60.0, 10.0002, 60.0)
assert abs(d - 6367 * np.radians(0.0002) * 0.5) < 1e-6, d
"""),
 dict(id="S65-wrapper-single-time-step", prop="C18",
  edits=[(PR+"xarray_wrapper.py", 'if "time" in arg.dims:', 'if arg.sizes.get("time", 0) > 1:')],
  needs="labelled arrays with exactly one time step",
  breaks="the function gets the whole two-dimensional array instead of one series per link",
  demo="""
import numpy as np, xarray as xr
from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim
seen = []
@xarray_apply_along_time_dim()
def f(x):
    seen.append(np.shape(x))
    return x + x.sum()
x = xr.DataArray(np.array([[1.0], [2.0]]), dims=("cml_id", "time"))
r = f(x)
assert seen[-1] == (1,) and list(np.ravel(r)) == [2.0, 4.0], (seen, r)
"""),
 dict(id="S66-stft-normalizes-supplied-spectrum", prop="C27",
  edits=[(PR+"wet_dry/stft.py", """    else:
        N_missing_end = N_diff - N_missing_start
""", """    elif N_diff == 0:
        Pxx_extended = Pxx
    else:
        N_missing_end = N_diff - N_missing_start
"""), (PR+"wet_dry/stft.py", """    P_norm = Pxx_extended / np.array([P_dry_mean]).T
""", """    P_norm = Pxx_extended
    P_norm /= np.array([P_dry_mean]).T
""")],
  needs="a supplied spectrogram with one column for every sample",
  breaks="the supplied spectrogram is overwritten with the normalized one",
  demo="""
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification
P = np.array([[1.0, 2.0, 4.0, 8.0], [3.0, 1.0, 2.0, 6.0]]); Q = P.copy()
stft_classification(np.array([-50.0, -51.0, -52.0, -50.5]), 4, 0.5, 0.001, t_dry_start=0, t_dry_stop=2, Pxx=P, f=np.array([0.0005, 0.0015]))
assert (P == Q).all(), P
"""),
 dict(id="S67-baseline-long-event", prop="C01",
  edits=[(PR+"baseline.py", "N_EDIT", "N_EDIT")], needs="", breaks="", demo=""),
]
SEEDS.pop()
