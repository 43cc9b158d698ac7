"""Wet/dry performance metrics."""
import numpy as np

from pycomlink.validation import stats as S
from symx.harness import Case
from props.util import NAN, total

FUNCTIONS = ["validation.stats.calc_wet_dry_performance_metrics", "validation.stats.calc_wet_error_rates"]
BOUNDS = "6 (quick) / 9 (thorough) pairs, each side wet/dry symbolic; 4 pairs with NaN on either side at any position; real valued flags"
OUTSIDE = "longer arrays; the correlation when a margin other than the predicted wet count is zero"
BUDGET = {"quick": 240, "thorough": 2400}


def cnt(h, xs):
    return total([h.ite(x, 1, 0) for x in xs])


def common(h, r, ref, pre, n_all, n_nan, n_ref, n_pre, given=None):
    """ref, pre: lists of booleans (possibly symbolic) of the valid pairs"""
    n = len(ref)
    tp = cnt(h, [h.and_(a, b) for a, b in zip(ref, pre)]) if n else 0
    tn = cnt(h, [h.and_(h.not_(a), h.not_(b)) for a, b in zip(ref, pre)]) if n else 0
    fp = cnt(h, [h.and_(h.not_(a), b) for a, b in zip(ref, pre)]) if n else 0
    fn = cnt(h, [h.and_(a, h.not_(b)) for a, b in zip(ref, pre)]) if n else 0
    tp, tn, fp, fn = given or (tp, tn, fp, fn)
    wet, dry = tp + fn, tn + fp
    for name, v in (("N_true_wet", tp), ("N_true_dry", tn), ("N_false_wet", fp), ("N_missed_wet", fn),
                    ("N_wet_reference", wet), ("N_dry_reference", dry), ("N_all_pairs", n_all), ("N_nan_pairs", n_nan),
                    ("N_nan_reference_only", n_ref), ("N_nan_predicted_only", n_pre)):
        h.eq(getattr(r, name), v, name)
    for name, num, den in (("true_wet_rate", tp, wet), ("missed_wet_rate", fn, wet), ("true_dry_rate", tn, dry), ("false_wet_rate", fp, dry)):
        got = getattr(r, name)
        if not isinstance(den, (int, float)) or den:
            h.true(h.or_(den == 0, near(h, got * den, num)), name)
        else:
            h.true(h.isnan(got), name + " of nothing is NaN")
    if given:
        return
    mcc = r.matthews_correlation
    a, b, c, d = tp + fp, tp + fn, tn + fp, tn + fn
    num = tp * tn - fp * fn
    full = h.and_(a > 0, b > 0, c > 0, d > 0)
    if isinstance(full, (bool, np.bool_)) and not full:
        pass
    else:
        h.true(h.implies(full, h.and_(near(h, mcc * mcc * (a * b * c * d), num * num, 1e-5), mcc * num >= -1e-9,
                                      mcc <= 1 + 1e-6, mcc >= -1 - 1e-6)), "matthews_correlation")
    h.true(h.implies(a == 0, near(h, mcc, 0)), "correlation 0 without predicted wet")
    return tp, tn, fp, fn


def near(h, a, b, t=1e-6):
    return h.and_(a <= b + t, a >= b - t)


def counts(T):
    def fn(h):
        ref = h.array("ref", T, dtype=bool)
        pre = h.array("pre", T, dtype=bool)
        r = h.call(S.calc_wet_dry_performance_metrics, ref, pre)
        # one path per table of counts keeps the arithmetic concrete
        import symx.core as core

        if h.symbolic:
            for v in (r.N_true_wet, r.N_true_dry, r.N_false_wet):
                core.concretize_int(core.lift(v)) if core.is_sym(v) else v
        common_c(h, r, ref, pre, T)

    return fn


def common_c(h, r, ref, pre, T):
    """Counts as terms; rates and correlation with the concrete counts of the path."""
    import symx.core as core

    ref, pre = list(ref), list(pre)
    terms = {
        "N_true_wet": cnt(h, [h.and_(a, b) for a, b in zip(ref, pre)]),
        "N_true_dry": cnt(h, [h.and_(h.not_(a), h.not_(b)) for a, b in zip(ref, pre)]),
        "N_false_wet": cnt(h, [h.and_(h.not_(a), b) for a, b in zip(ref, pre)]),
        "N_missed_wet": cnt(h, [h.and_(a, h.not_(b)) for a, b in zip(ref, pre)]),
    }
    terms["N_wet_reference"] = terms["N_true_wet"] + terms["N_missed_wet"]
    terms["N_dry_reference"] = terms["N_true_dry"] + terms["N_false_wet"]
    for k, v in terms.items():
        h.eq(getattr(r, k), v, k)
    c = {k: (core.concretize_int(core.lift(v)) if core.is_sym(v) else int(v)) for k, v in terms.items()}
    tp, tn, fp, fn, wet, dry = (c[k] for k in ("N_true_wet", "N_true_dry", "N_false_wet", "N_missed_wet", "N_wet_reference", "N_dry_reference"))
    for name, num, den in (("true_wet_rate", tp, wet), ("missed_wet_rate", fn, wet), ("true_dry_rate", tn, dry), ("false_wet_rate", fp, dry)):
        if den:
            h.eq(getattr(r, name), num / den, name)
        else:
            h.true(h.isnan(getattr(r, name)), name + " of nothing is NaN")
    a, b, cc, d = tp + fp, tp + fn, tn + fp, tn + fn
    if a == 0:
        h.eq(r.matthews_correlation, 0, "correlation 0 without predicted wet")
    elif a * b * cc * d:
        h.eq(r.matthews_correlation, (tp * tn - fp * fn) / np.sqrt(float(a * b * cc * d)), "matthews_correlation", tol=1e-6)
    h.eq(r.N_all_pairs, T, "N_all_pairs")
    h.eq(r.N_nan_pairs, 0, "N_nan_pairs")
    h.eq(r.N_nan_reference_only, 0, "N_nan_reference_only")
    h.eq(r.N_nan_predicted_only, 0, "N_nan_predicted_only")


def withnan(T):
    def fn(h):
        opts = [0.0, 1.0, NAN]
        ref = [h.choose("ref%d" % i, opts) for i in range(T)]
        pre = [h.choose("pre%d" % i, opts) for i in range(T)]
        A, B = h.const(np.array(ref)), h.const(np.array(pre))
        h.snap(A, "reference")
        h.snap(B, "predicted")
        r = h.call(S.calc_wet_dry_performance_metrics, A, B)
        ok = [(a == 1, b == 1) for a, b in zip(ref, pre) if a == a and b == b]
        common(h, r, [a for a, b in ok], [b for a, b in ok], T, T - len(ok), sum(a != a for a in ref), sum(b != b for b in pre))

    return fn


def reals(h):
    """Any positive value counts as wet."""
    T = 3
    ref = h.array("ref", T, -2, 5, nan=lambda ix: ix[0] == 0)
    pre = h.array("pre", T, -2, 5, nan=lambda ix: ix[0] == 1)
    r = h.call(S.calc_wet_dry_performance_metrics, ref, pre)
    rs, ps = [], []
    nn = nr = np_ = 0
    for i in range(T):
        a, b = bool(h.isnan(ref[i])), bool(h.isnan(pre[i]))
        nr += a
        np_ += b
        if a or b:
            nn += 1
            continue
        rs.append(bool(ref[i] > 0))
        ps.append(bool(pre[i] > 0))
    common(h, r, rs, ps, T, nn, nr, np_)


def mismatch(h):
    a, b = h.choose("shapes", [(2, 3), (3, 2), (1, 4)])
    h.raises(AssertionError, S.calc_wet_dry_performance_metrics, h.array("ref", a, dtype=bool), h.array("pre", b, dtype=bool), label="shape mismatch rejected")


def many(h):
    """large counts (fixed flags): nothing overflows or saturates"""
    n = h.choose("pairs", [300, 70000, 200000])
    i = np.arange(n)
    ref, pre = (i * 37 % 101) < 50, (i * 53 % 103) < h.choose("wet of 103", [50, 90])
    kind = h.choose("type", ["bool", "float", "int"])
    A, B = (ref, pre) if kind == "bool" else (ref.astype(float), pre.astype(float)) if kind == "float" else (ref.astype("int8"), pre.astype("int8"))
    r = h.call(S.calc_wet_dry_performance_metrics, A, B)
    tp, tn, fp, fn = [int(x.sum()) for x in (ref & pre, ~ref & ~pre, ~ref & pre, ref & ~pre)]
    common(h, r, [], [], n, 0, 0, 0, (tp, tn, fp, fn))
    mcc = (tp * tn - fp * fn) / (float(tp + fp) * float(tp + fn) * float(tn + fp) * float(tn + fn)) ** 0.5
    h.eq(r.matthews_correlation, mcc, "matthews_correlation", tol=1e-6)


def old_rates(h):
    """the deprecated calc_wet_error_rates"""
    n = 4
    t, p = h.array("truth", n, dtype=bool), h.array("pred", n, dtype=bool)
    nt = cnt(h, list(t))
    h.assume(h.and_(nt > 0, nt < n))
    r = h.call(S.calc_wet_error_rates, t, p)
    h.eq(r.false, cnt(h, [h.and_(y, h.not_(x)) for x, y in zip(t, p)]) / (n - nt), "false wet rate")
    h.eq(r.missed, cnt(h, [h.and_(x, h.not_(y)) for x, y in zip(t, p)]) / nt, "missed wet rate")


def cases(tier):
    q = tier == "quick"
    return [
        Case("counts", counts(6 if q else 9)),
        Case("missing values", withnan(3 if q else 4)),
        Case("real values", reals),
        Case("shapes", mismatch),
        Case("many pairs", many, bounds="fixed flags, up to 200000 pairs"),
        Case("deprecated rates", old_rates),
    ]
