"""Property records; `python3 tools/meta.py` writes properties.jsonl and MANIFEST.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = "pycomlink/processing/"

P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": list(over), "text": " ".join(qtext.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or ["return values of the public functions named under mechanism"],
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Constant baseline holds the last dry average through every wet period",
    """For every level series and wet/dry pattern, the constant baseline equals the level at dry samples (and at the first
    samples that the averaging window needs), and at every wet sample it equals the mean of the last n baseline values before
    that wet period started, unchanged until the period ends. A sample whose wet flag is unknown (NaN) gets NaN, and so do the
    wet samples that follow it until the next dry sample. Every series of a multi-dimensional labelled array is treated on its own.""",
    "all levels (also NaN), all wet/dry/NaN patterns, all averaging lengths",
    "the tests compare one recorded link with stored numbers and have no test with NaN flags",
    [PR + "baseline.py", PR + "xarray_wrapper.py"],
    [("baseline_constant", PR + "baseline.py"), ("_numba_baseline_constant", PR + "baseline.py")],
)
prop(
    "C02",
    "Linear baseline interpolates exactly between the dry samples around an event",
    """For every level series and wet/dry pattern, the linear baseline equals the level at dry samples and lies on the straight
    line between the last dry sample before and the first dry sample after each wet period. With unknown flags inside a period
    the whole period is NaN, unless unknown flags are ignored, in which case a sample with unknown flag counts like the sample before it;
    a wet period that does not end inside the series is NaN. The first sample counts as dry.""",
    "all levels, all wet/dry/NaN patterns, both treatments of unknown flags",
    "the tests use one recorded link and one fixed pattern; the interplay of events, unknown flags and the ends of the series is a space of histories",
    [PR + "baseline.py", PR + "xarray_wrapper.py"],
    [("baseline_linear", PR + "baseline.py"), ("_numba_baseline_linear", PR + "baseline.py")],
)
prop(
    "C03",
    "Dynamic wet antenna attenuation follows the Schleiss recursion and its limits",
    """The dynamic wet antenna attenuation is 0 at the first sample; at a wet sample it is the smallest of the total attenuation, the
    maximum, and the previous value plus its distance to the maximum times 3*dt/tau, and at any other sample it is the smaller of
    total attenuation and maximum. It therefore never exceeds the total attenuation nor the maximum, and
    depends only on the current and earlier samples of the same series.""",
    "all level, baseline and flag series, all parameter values",
    "the tests run one recorded series with one parameter set; a recursion has to hold after every history of wet and dry samples",
    [PR + "wet_antenna.py", PR + "xarray_wrapper.py"],
    [("waa_schleiss_2013", PR + "wet_antenna.py"), ("_numba_waa_schleiss_2013", PR + "wet_antenna.py")],
)
prop(
    "C04",
    "Rain rate is the inverted k-R power law, zero for negative attenuation, NaN kept",
    """For every attenuation and link the rain rate solves A = a*R^b*L, with a and b given or taken from frequency and polarization;
    negative attenuation and any rain rate below the minimum give 0, and NaN attenuation gives NaN. The result grows monotonically with the attenuation, is never negative,
    and every sample and link of an array is computed on its own.""",
    "all attenuations, lengths, parameters, minimum rain rates and array layouts",
    "the tests compare a few attenuation values with stored rain rates for two links",
    [PR + "k_R_relation.py", PR + "xarray_wrapper.py"],
    [("calc_R_from_A", PR + "k_R_relation.py"), ("a_b", PR + "k_R_relation.py")],
)
prop(
    "C05",
    "Attenuation and rain rate from min/max data follow their defining formulas",
    """Attenuation from minimum/maximum levels is the highest possible path loss of an interval minus the smallest value that the lowest
    possible path loss takes in the window ending there, each reduced or raised by half the sum of the quantizations, never negative,
    and NaN until the window is complete; missing path losses are replaced by the rounded mean of the valid ones. The rain rate from such
    attenuation inverts the power law with the prefactor multiplied by (ln k + 0.57721566)^b; negative gives 0, NaN stays NaN, and rates below the minimum are 0.""",
    "all signal levels, missing samples, quantizations, window lengths and parameters",
    "there is no test of the attenuation and one of the rain rate with stored numbers",
    [PR + "min_max.py", PR + "k_R_relation.py"],
    [("_calc_A_min_max", PR + "min_max.py"), ("calc_R_from_A_min_max", PR + "k_R_relation.py")],
)
prop(
    "C06",
    "Power law parameters match the ITU tables for every frequency and polarization",
    """For every frequency from 1 to 100 GHz, either polarization and either ITU edition, the power law parameters are finite, agree with the published values at the
    tabulated frequencies and lie between neighbouring published values elsewhere; frequencies outside that range, unknown
    polarizations, unknown editions and mismatching shapes are rejected with ValueError. In an array every link gets the parameters of its own frequency and polarization, in
    order and with its coordinates.""",
    "all frequencies, polarizations, editions and arrays of links",
    "tests look at a handful of frequencies; a wrong table entry or a swapped polarization between them goes unseen",
    [PR + "k_R_relation.py"],
    [("a_b", PR + "k_R_relation.py"), ("ITU_table_2003/2005", PR + "k_R_relation.py")],
)
prop(
    "C07",
    "Wet antenna attenuation from observed attenuation is bounded and consistent",
    """For every observed attenuation the wet antenna attenuation derived from it is between 0 and the observed value, 0 at 0, non-decreasing,
    NaN for NaN, and such that the model (Leijnse or Pastorek) applied to the rain rate of the remaining attenuation gives it back; negative attenuation is
    rejected with ValueError. The models themselves give 0 without rain and match their published formula for all parameter values, the Pastorek value staying
    below its maximum and growing with rain rate. Each link of an array uses its own frequency, polarization and length.""",
    "all observed attenuations and rain rates; listed links for the Leijnse physics",
    "tests compare a few values for two links with stored numbers",
    [PR + "wet_antenna.py", PR + "k_R_relation.py", PR + "xarray_wrapper.py"],
    [("waa_leijnse_2008_from_A_obs", PR + "wet_antenna.py"), ("waa_pastorek_2021_from_A_obs", PR + "wet_antenna.py"),
     ("waa_pastorek_2021", PR + "wet_antenna.py"), ("waa_leijnse_2008", PR + "wet_antenna.py")],
)
prop(
    "C08",
    "Blackout gaps are exactly the NaN runs entered from below the threshold",
    """A gap start is marked exactly at valid samples below the threshold that are directly followed by a missing sample, a gap end exactly
    at valid samples below the threshold directly preceded by one, and nothing is marked across the ends of the series. The blackout
    mask never covers a valid sample and covers a run of missing samples completely if the sample before it is a gap start, and not at all if it is not
    (unless that sample is also a gap end). Series of an array do not influence each other.""",
    "all level series with missing samples, all thresholds, any marker pattern on valid samples",
    "tests use two hand written series",
    [PR + "blackout_gap_detection.py", PR + "xarray_wrapper.py"],
    [("get_blackout_start_and_end", PR + "blackout_gap_detection.py"),
     ("created_blackout_gap_mask_from_start_end_markers", PR + "blackout_gap_detection.py")],
)
prop(
    "C09",
    "Wet/dry metrics equal their confusion-matrix definitions on valid pairs",
    """For every pair of wet/dry series the reported rates, counts and the Matthews correlation coefficient equal their definitions
    over exactly the pairs in which neither value is NaN; the numbers of all, wet, dry, true, false and missed pairs and of the NaNs on
    each side are exact. The coefficient lies in [-1,1] and is 0 when nothing is predicted wet. A rate without any pair to refer to is NaN.""",
    "all pairs of wet/dry/NaN series",
    "tests use one pair of arrays",
    ["pycomlink/validation/stats.py"],
    [("calc_wet_dry_performance_metrics", "pycomlink/validation/stats.py")],
)
prop(
    "C10",
    "Rainfall error metrics equal their definitions on valid pairs",
    """For every pair of rainfall series the correlation, coefficient of variation, root mean square and mean absolute error, sums, means,
    and the false/missed wet rates and rain amounts equal their definitions over exactly the pairs in which neither value is NaN, a value being
    wet if it is at or above the given threshold. The counts of all pairs, NaN pairs and NaNs on each side are exact, rates and means
    over no pairs are NaN, and series of different shape are rejected.""",
    "all pairs of rainfall series with NaNs, all thresholds",
    "tests use one pair of arrays and no value at the threshold",
    ["pycomlink/validation/stats.py"],
    [("calc_rain_error_performance_metrics", "pycomlink/validation/stats.py")],
)

NA = []


def na(id, reason):
    NA.append({"property": id, "reason": " ".join(reason.split())})


TECH = "symbolic execution of the Python source, obligations decided by z3 over all inputs within bounds, counterexamples replayed on the real code"


def attrs(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.lower().startswith(pid.lower() + "_"):
            t = ast.parse(open(os.path.join(HERE, "props", f)).read())
            out = {}
            for n in t.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
                    try:
                        out[n.targets[0].id] = ast.literal_eval(n.value)
                    except ValueError:
                        pass
            return out
    return None


def main():
    from importlib import import_module
    import sys

    sys.path.insert(0, os.path.join(HERE, "tools"))
    try:
        import_module("meta2")
    except ModuleNotFoundError:
        pass
    m = sys.modules.get("meta", sys.modules["__main__"])
    recs, nas = m.P, m.NA
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in recs:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    nid = {x["property"] for x in nas}
    for p in recs:
        if p["id"] in nid:
            continue
        a = attrs(p["id"])
        if a is None:
            raise SystemExit("no check for " + p["id"])
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": TECH,
                "level": "model_checking",
                "level_note": "Bounded: %s. Outside: %s. Trusted: z3, exact-real arithmetic instead of floating point (tolerance 1e-6), the numpy/xarray/pandas "
                "models in symx/ (validated per path against the real libraries)%s." % (
                    a.get("BOUNDS", ""), a.get("OUTSIDE", "nothing else"), ("; stubs: " + "; ".join(a["STUBS"])) if a.get("STUBS") else ""),
                "evidence_file": "evidence/%s.json" % p["id"],
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": nas,
        "notes": "Commits in /repo are repairs of genuine defects only (see known_findings.json); no hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys

    sys.modules["meta"] = sys.modules["__main__"]
    main()
