"""Rainfall performance metrics."""
import numpy as np

from pycomlink.validation import stats as S
from symx.harness import Case
from props.util import total

FUNCTIONS = ["validation.stats.calc_rain_error_performance_metrics"]
BOUNDS = "3-4 pairs of rain amounts in [0,50] with NaN on either side at any position, symbolic wet threshold in [0,10]"
OUTSIDE = "longer arrays; ratios with an empty denominator; rounding"
BUDGET = {"quick": 300, "thorough": 2400}


def near(h, a, b, t=1e-6):
    return h.and_(a <= b + t, a >= b - t)


def sqrt(x):
    import symx.core as core
    from symx import funcs

    return core.lower(funcs.sqrt(core.lift(x))) if core.is_sym(x) else np.sqrt(x)


def mean(xs):
    return total(xs) / float(len(xs))


def run(h, T, nan_ref, nan_pre, thr=None):
    ref = h.array("ref", T, 0, 50, nan=lambda ix: ix[0] in nan_ref)
    pre = h.array("pre", T, 0, 50, nan=lambda ix: ix[0] in nan_pre)
    if thr is None:
        thr = h.real("thr", 0, 10)
    r = h.call(S.calc_rain_error_performance_metrics, ref, pre, thr)
    x, y = [], []
    nr = np_ = 0
    for i in range(T):
        a, b = bool(h.isnan(ref[i])), bool(h.isnan(pre[i]))
        nr += a
        np_ += b
        if not (a or b):
            x.append(ref[i])
            y.append(pre[i])
    h.eq(r.N_all_pairs, T, "N_all_pairs")
    h.eq(r.N_nan_pairs, T - len(x), "N_nan_pairs")
    h.eq(r.N_nan_reference_only, nr, "N_nan_reference_only")
    h.eq(r.N_nan_predicted_only, np_, "N_nan_predicted_only")
    h.eq(r.rainfall_threshold_wet, thr, "rainfall_threshold_wet")
    return r, x, y, thr


def totals(T, nan_ref, nan_pre):
    """Sums, means, absolute error and the wet/dry part."""

    def fn(h):
        r, x, y, thr = run(h, T, nan_ref, nan_pre)
        n = len(x)
        if n == 0:
            return
        h.eq(r.R_sum_reference, total(x), "R_sum_reference")
        h.eq(r.R_sum_predicted, total(y), "R_sum_predicted")
        h.eq(r.R_mean_reference, mean(x), "R_mean_reference")
        h.eq(r.R_mean_predicted, mean(y), "R_mean_predicted")
        h.eq(r.mean_absolute_error, mean([h.ite(b >= a, b - a, a - b) for a, b in zip(x, y)]), "mean_absolute_error")
        wr = [bool(a >= thr) for a in x]
        wp = [bool(b >= thr) for b in y]
        dry = [i for i in range(n) if not wr[i]]
        wet = [i for i in range(n) if wr[i]]
        fw = [i for i in dry if wp[i]]
        mw = [i for i in wet if not wp[i]]
        h.eq(r.false_wet_rate, len(fw) / len(dry) if dry else np.nan, "false_wet_rate")
        h.eq(r.missed_wet_rate, len(mw) / len(wet) if wet else np.nan, "missed_wet_rate")
        h.eq(r.false_wet_precipitation_rate, mean([y[i] for i in fw]) if fw else np.nan, "false_wet_precipitation_rate")
        h.eq(r.missed_wet_precipitation_rate, mean([x[i] for i in mw]) if mw else np.nan, "missed_wet_precipitation_rate")

    return fn


def errors(T, nan_ref=(), nan_pre=()):
    """Root mean square error and coefficient of variation."""

    def fn(h):
        r, x, y, thr = run(h, T, nan_ref, nan_pre, 99.0)
        n = len(x)
        if n == 0:
            return
        d = [b - a for a, b in zip(x, y)]
        ms = mean([v * v for v in d])
        h.eq(r.root_mean_square_error, sqrt(ms), "root_mean_square_error")
        m = mean(d)
        var = mean([(v - m) * (v - m) for v in d])
        mr = mean(x)
        if bool(mr > 0):
            h.eq(r.coefficient_of_variation, sqrt(var) / mr, "coefficient_of_variation")

    return fn


def pearson(T, nan_ref=(), nan_pre=()):
    def fn(h):
        r, x, y, thr = run(h, T, nan_ref, nan_pre, 99.0)
        n = len(x)
        if n < 2:
            return
        mx, my = mean(x), mean(y)
        sxy = total([(a - mx) * (b - my) for a, b in zip(x, y)])
        sxx = sqrt(total([(a - mx) * (a - mx) for a in x]))
        syy = sqrt(total([(b - my) * (b - my) for b in y]))
        if bool(sxx > 1e-3) and bool(syy > 1e-3):
            h.eq(r.pearson_correlation, sxy / (sxx * syy), "pearson_correlation")

    return fn


def linear(h):
    """A predicted series that is an increasing (decreasing) linear function of the reference has correlation 1 (-1)."""
    ref = h.array("ref", 3, 0, 50)
    a = h.choose("a", [0.5, 1.0, 2.0, -1.0])
    b = h.real("b", 0, 20)
    h.assume(h.or_(ref[0] > ref[1] + 1, ref[1] > ref[2] + 1))
    pre = h.mk([a * v + b for v in ref])
    r = h.call(S.calc_rain_error_performance_metrics, ref, pre, 0.1)
    h.eq(r.pearson_correlation, 1.0 if a > 0 else -1.0, "correlation of a linear relation", tol=1e-6, ctol=1e-6)


def very_many(h):
    many(h, 5000)


def many(h, n=400):
    """long series, mostly fixed"""
    x = [(i * 37 % 101) / 8.0 for i in range(n)]
    y = [(i * 53 % 103) / 8.0 + 0.25 * a for i, a in enumerate(x)]
    x[11], y[13] = np.nan, np.nan
    x[200] = h.real("ref200", 0, 50)
    y[301] = h.real("pre301", 0, 50, nan=True)
    r = h.call(S.calc_rain_error_performance_metrics, h.mk(x), h.mk(y), 2.0)
    gone = bool(h.isnan(y[301]))
    ok = [i for i in range(n) if i not in (11, 13) and not (gone and i == 301)]
    X, Y = [x[i] for i in ok], [y[i] for i in ok]
    h.eq(r.N_all_pairs, n, "N_all_pairs")
    h.eq(r.N_nan_pairs, n - len(ok), "N_nan_pairs")
    h.eq(r.N_nan_reference_only, 1, "N_nan_reference_only")
    h.eq(r.N_nan_predicted_only, 2 if gone else 1, "N_nan_predicted_only")
    h.eq(r.R_sum_reference, total(X), "R_sum_reference")
    h.eq(r.R_sum_predicted, total(Y), "R_sum_predicted")
    h.eq(r.R_mean_reference, mean(X), "R_mean_reference")
    h.eq(r.mean_absolute_error, mean([h.ite(b >= a, b - a, a - b) for a, b in zip(X, Y)]), "mean_absolute_error")
    wr, wp = [bool(a >= 2.0) for a in X], [bool(b >= 2.0) for b in Y]
    fw = [b for b, p, q in zip(Y, wr, wp) if q and not p]
    mw = [a for a, p, q in zip(X, wr, wp) if p and not q]
    h.eq(r.false_wet_rate, len(fw) / (len(ok) - sum(wr)), "false_wet_rate")
    h.eq(r.missed_wet_rate, len(mw) / sum(wr), "missed_wet_rate")
    h.eq(r.false_wet_precipitation_rate, mean(fw), "false_wet_precipitation_rate")
    h.eq(r.missed_wet_precipitation_rate, mean(mw), "missed_wet_precipitation_rate")


def mismatch(h):
    a, b = h.choose("shapes", [(2, 3), (3, 2)])
    h.raises(AssertionError, S.calc_rain_error_performance_metrics, h.array("ref", a), h.array("pre", b), 0.1, label="shape mismatch rejected")


def cases(tier):
    q = tier == "quick"
    return [
        Case("totals", totals(3, (0, 1), (1, 2)), sqrt_def=False),
        Case("totals without gaps", totals(4 if q else 5, (), ()), sqrt_def=False),
        Case("errors", errors(3, (0,), (2,)), sqrt_def=False),
        Case("errors without gaps", errors(4 if q else 5), sqrt_def=False),
        Case("correlation", pearson(3, (0,), (1,)), sqrt_def=False),
        Case("correlation without gaps", pearson(4 if q else 6), sqrt_def=False),
        Case("correlation of linear data", linear),
        Case("many pairs", many, bounds="400 pairs, 2 symbolic", sqrt_def=False),
        Case("very many pairs", very_many, bounds="5000 pairs, 2 symbolic", sqrt_def=False, history=False),
        Case("shapes", mismatch),
    ]
