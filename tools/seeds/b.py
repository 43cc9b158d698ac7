PR = "pycomlink/processing/"
SEEDS = [
 dict(id="S02-linear-unknown-flag-sticky", prop="C02",
  edits=[(PR+"baseline.py", """                    last_dry_rsl, rsl_i, i - last_dry_i + 1
                )
            found_nan = False
""", """                    last_dry_rsl, rsl_i, i - last_dry_i + 1
                )
""")],
  needs="a wet period with an unknown flag, followed by a complete wet period",
  breaks="every wet period after one with an unknown flag is NaN",
  demo="""
import numpy as np
from pycomlink.processing.baseline import baseline_linear
rsl = np.array([1., 2, 3, 4, 5, 6, 7, 9])
wet = np.array([0, 1, np.nan, 0, 1, 0, 1, 0])
b = baseline_linear(rsl, wet)
assert np.allclose(b[4:], [5 - 1 + 1, 6, 7.5, 9]), b
"""),
 dict(id="S05-leijnse-lookup-range", prop="C07",
  edits=[(PR+"wet_antenna.py", "        A_rain_max = np.nanmax(A_obs)", "        A_rain_max = np.nanmedian(A_obs)")],
  needs="attenuation far above the typical value of the series", breaks="the lookup table does not cover the largest attenuation",
  demo=""),
 dict(id="S08-mae-of-wet", prop="C10",
  edits=[("pycomlink/validation/stats.py", "    missed_wet_precipitation_rate = reference[reference_wet & predicted_dry].mean()",
          "    missed_wet_precipitation_rate = (\n        reference[reference_wet & predicted_dry]\n        - predicted[reference_wet & predicted_dry]\n    ).mean()")],
  needs="a missed wet pair with a non-zero predicted value below the threshold", breaks="the missed rain amount is reduced by the predicted amount",
  demo="""
import numpy as np
from pycomlink.validation.stats import calc_rain_error_performance_metrics as f
r = f(np.array([1.0, 2.0, 5.0]), np.array([0.25, 2.0, 5.0]), 0.5)
assert abs(r.missed_wet_precipitation_rate - 1.0) < 1e-9, r
"""),
]
SEEDS=[s for s in SEEDS if s["demo"]]
