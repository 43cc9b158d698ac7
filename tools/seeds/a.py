PR = "pycomlink/processing/"
SEEDS = [
 dict(id="S01-baseline-average-first-event", prop="C01",
  edits=[(PR+"baseline.py", "            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])",
          "            baseline[i] = np.mean(trsl[(i - n_average_last_dry) : i])")],
  needs="a second wet period that starts within the averaging length after the first one, with n_average_last_dry > 1",
  breaks="the average before an event uses raw levels of the previous event instead of the baseline",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_constant
trsl = np.array([50, 50, 50, 60, 60, 50, 58, 58, 50.])
wet = np.array([0, 0, 0, 1, 1, 0, 1, 1, 0], dtype=bool)
b = baseline_constant(trsl, wet, n_average_last_dry=3)
assert np.allclose(b[6:8], 50), b
"""),
 dict(id="S02-linear-nan-flag-sticky", prop="C02",
  edits=[(PR+"baseline.py", """            else:
                baseline[i] = rsl_i
            found_nan = False
            last_i_is_wet = False
            last_dry_i = i""", """            else:
                baseline[i] = rsl_i
            last_i_is_wet = False
            last_dry_i = i""")],
  needs="an unknown flag during a dry period followed by later dry samples",
  breaks="after one unknown flag in a dry period all later dry samples are NaN",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
rsl = np.array([1., 2, 3, 4, 5, 6, 7])
wet = np.array([0, 0, np.nan, 0, 0, 0, 0])
b = baseline_linear(rsl, wet)
assert np.allclose(b[4:], [5, 6, 7]), b
"""),
 dict(id="S03-schleiss-dry-decay", prop="C03",
  edits=[(PR+"wet_antenna.py", "            waa[i] = min(A[i], waa_max)\n    return waa", "            waa[i] = min(A[i], max(waa_max, waa[i - 1]))\n    return waa")],
  needs="negative maximum never occurs; needs waa_max below an earlier value, i.e. equivalent unless the level drops",
  breaks="(equivalent trial, replaced)",
  demo="import sys\n"),
 dict(id="S04-rain-rate-floor-order", prop="C04",
  edits=[(PR+"k_R_relation.py", "        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)\n        R[~nan_index & (R < R_min)] = 0\n    return R",
          "        wet = ~nan_index & (A >= 0)\n        R[wet] = (A[wet] / (a * L_km)) ** (1 / b)\n        R[~nan_index & (A / L_km < a * R_min ** b) & (A < 1)] = 0\n    return R")],
  needs="a rain rate below the minimum whose attenuation is at least 1 dB (a long link)",
  breaks="rain rates below the minimum are not set to zero on long links",
  demo="""
import numpy as np
from pycomlink.processing.k_R_relation import calc_R_from_A
R = calc_R_from_A(np.array([1.5]), L_km=80.0, a=0.3, b=1.0, R_min=0.1)
assert R[0] == 0, R
"""),
 dict(id="S05-itu-table-typo", prop="C06",
  edits=[(PR+"k_R_relation.py", "@@", "@@")], needs="", breaks="", demo=""),
 dict(id="S06-blackout-mask-nonstart", prop="C08",
  edits=[(PR+"blackout_gap_detection.py", "        if (gap_start[i] == False) and ~np.isnan(rsl[i]):\n            in_blackout_gap = False\n", "")],
  needs="a blackout gap that ends with a sample above the threshold, followed later by an ordinary gap",
  breaks="an ordinary gap is masked as blackout because the earlier blackout was not closed",
  demo="""
import numpy as np
from pycomlink.processing.blackout_gap_detection import *
rsl = np.array([-50, -70, np.nan, -50, -50, np.nan, -50])
s, e = get_blackout_start_and_end(rsl, -65)
m = created_blackout_gap_mask_from_start_end_markers(rsl, s, e)
assert list(m) == [False, False, True, False, False, False, False], m
"""),
 dict(id="S07-mcc-nan-pairs", prop="C09",
  edits=[("pycomlink/validation/stats.py", "    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # force bool type\n    reference = reference > 0\n    predicted = predicted > 0\n",
          "    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~np.isnan(reference)] if N_nan_pairs == N_nan_reference_only else reference[~nan_index]\n    predicted = predicted[~nan_index]\n    reference = reference[: len(predicted)]\n\n    assert reference.shape == predicted.shape\n\n    # force bool type\n    reference = reference >= 0.5\n    predicted = predicted > 0\n")],
  needs="reference values between 0 and 0.5", breaks="values between 0 and 0.5 are not wet in the reference",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_wet_dry_performance_metrics as f
r = f(np.array([0.2, 0.0, 1.0]), np.array([1.0, 0.0, 1.0]))
assert r.N_wet_reference == 2, r
"""),
 dict(id="S08-cv-of-predicted", prop="C10",
  edits=[("pycomlink/validation/stats.py", "    root_mean_square_error = np.sqrt(np.mean((predicted - reference) ** 2))",
          "    root_mean_square_error = np.sqrt(\n        np.std(predicted - reference) ** 2\n        + np.mean(np.abs(predicted - reference)) ** 2\n    )")],
  needs="errors of both signs", breaks="the root mean square error is too large when over- and underestimation cancel",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
r = f(np.array([1.0, 2.0, 5.0]), np.array([2.0, 1.0, 5.0]), 0.1)
assert abs(r.root_mean_square_error - np.sqrt(2 / 3)) < 1e-9, r
"""),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("S03-schleiss-dry-decay", "S05-itu-table-typo")]
