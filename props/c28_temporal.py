"""Aggregation of time series onto other time stamps."""
import numpy as np
import pandas as pd

from pycomlink.util import temporal as T
from symx.harness import Case
from props import pdsym
from props.util import total

FUNCTIONS = ["util.temporal.aggregate_df_onto_DatetimeIndex"]
BOUNDS = ("samples with symbolic values at every subset of up to 7 positions (on, between and outside of the new time stamps), 2-4 new time stamps, both labels, "
          "1-2 columns or a Series, naive or zoned new time stamps, any callable or mean")
OUTSIDE = "longer series; time stamps in ambiguous hours of a time zone"
STUBS = ["symbolic mode: pandas groupby mean of symbolic values (props/pdsym.py)"]
BUDGET = {"quick": 200, "thorough": 1200}
T0 = pd.Timestamp("2020-06-01 00:00", tz="utc")


def expected(offs, labs, label):
    """label -> positions of the samples"""
    lo, hi = max(min(offs), min(labs)), min(max(offs), max(labs))
    keep = [m for m in labs if lo <= m <= hi]
    out = {}
    for i, o in enumerate(offs):
        if not lo <= o <= hi:
            continue
        c = [m for m in keep if (m >= o if label == "right" else m <= o)]
        if c:
            out.setdefault(min(c) if label == "right" else max(c), []).append(i)
    return out


def weird(s):
    """depends on the order of the samples"""
    v = list(s.values)
    return total([(k + 1.0) * x for k, x in enumerate(v)])


def at(offs, tz="utc"):
    i = pd.DatetimeIndex([T0 + pd.Timedelta(minutes=o) for o in offs])
    return i.tz_convert(tz)


def grouping(labs, positions, label, kind="frame", method="callable"):
    def fn(h):
        offs = [p for k, p in enumerate(positions) if h.fork("sample at %d" % p)]
        if len(offs) < 2:
            return
        n = len(offs)
        a, b = h.array("a", n, -10, 10), h.array("b", n, -10, 10)
        obj = pdsym.objarr if h.symbolic else (lambda x: x)
        idx = at(offs)
        idx.name = "t"
        df = pd.Series(obj(a), index=idx, name="a") if kind == "series" else pd.DataFrame({"a": obj(a), "b": obj(b)}, index=idx)
        new = at(labs)
        if kind == "naive":
            new = new.tz_localize(None)
        exp = expected(offs, labs, label)
        args = (df, new, weird if method == "callable" else np.mean)
        r, exc = h.attempt(T.aggregate_df_onto_DatetimeIndex, *args, label=label)
        if exc is not None and not exp:
            return  # nothing to aggregate
        h.true(exc is None, "no exception (%r)" % (exc,))
        if exc is not None:
            return
        h.equal_obj(r.index.name, "t", "name of the index")
        got = {int((t - T0).total_seconds() // 60): i for i, t in enumerate(r.index)}
        h.equal_obj(sorted(got), sorted(exp), "time stamps with samples")
        h.equal_obj(list(r.columns), ["a"] if kind == "series" else ["a", "b"], "columns")
        for m, ix in exp.items():
            for c, v in (("a", a), ("b", b)):
                if c in r.columns and m in got:
                    xs = [v[i] for i in ix]
                    e = weird(pd.Series(xs, dtype=object)) if method == "callable" else total(xs) / len(xs)
                    h.eq(r[c].values[got[m]], e, "%s aggregated at %d" % (c, m))

    return fn


def verylong(h):
    long(h, 4000)


def long(h, n=100):
    """many samples and labels, mostly fixed values"""
    offs = [3 * i + (i * i % 3) for i in range(n)]
    labs = list(range(7, 3 * n - 10, 10))
    v = [(i * 37 % 101) / 8.0 for i in range(n)]
    for i in (0, n // 2, n - 1):
        v[i] = h.real("v%d" % i, -10, 10)
    label = h.choose("label", ["right", "left"])
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    r = h.call(T.aggregate_df_onto_DatetimeIndex, pd.DataFrame({"a": obj(h.mk(v))}, index=at(offs)), at(labs), weird, label=label)
    exp = expected(offs, labs, label)
    got = {int((t - T0).total_seconds() // 60): i for i, t in enumerate(r.index)}
    h.equal_obj(sorted(got), sorted(exp), "time stamps with samples")
    for m, ix in exp.items():
        if m in got:
            h.eq(r["a"].values[got[m]], weird(pd.Series([v[i] for i in ix], dtype=object)), "aggregated at %d" % m)


def known(s):
    """depends on which samples are missing and on the order of the others"""
    return total([1000.0] + [(k + 1.0) * x for k, x in enumerate(s.values) if not (isinstance(x, float) and x != x)])


def gaps(h):
    """missing values belong to their period like others, column by column"""
    offs, labs = [0, 5, 10, 15, 20, 25, 30, 35], [10, 20, 35]
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    cols = {}
    for c, miss in (("a", h.choose("missing in a", [(), (3,), (0, 4), (3, 4)])), ("b", h.choose("missing in b", [(3,), (7,), (5, 6, 7), tuple(range(8))]))):
        v = [h.real("%s%d" % (c, i), -10, 10) for i in range(8)]
        for i in miss:
            v[i] = np.nan
        cols[c] = v
    df = pd.DataFrame({c: obj(h.mk(v)) for c, v in cols.items()}, index=at(offs))
    label = h.choose("label", ["right", "left"])
    r = h.call(T.aggregate_df_onto_DatetimeIndex, df, at(labs), known, label=label)
    exp = expected(offs, labs, label)
    got = {int((t - T0).total_seconds() // 60): i for i, t in enumerate(r.index)}
    h.equal_obj(sorted(got), sorted(exp), "time stamps with samples")
    for m, ix in exp.items():
        for c, v in cols.items():
            if m in got:
                h.eq(r[c].values[got[m]], known(pd.Series([v[i] for i in ix], dtype=object)), "%s aggregated at %d" % (c, m))


def equal_stamps(h):
    """several samples with the same time stamp all count"""
    offs, labs = [0, 5, 5, 10, 10, 10, 15, 20, 20], [5, 10, 20]
    v = h.array("v", len(offs), -10, 10)
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    label = h.choose("label", ["right", "left"])
    r = h.call(T.aggregate_df_onto_DatetimeIndex, pd.DataFrame({"a": obj(v)}, index=at(offs)), at(labs), weird, label=label)
    exp = expected(offs, labs, label)
    got = {int((t - T0).total_seconds() // 60): i for i, t in enumerate(r.index)}
    h.equal_obj(sorted(got), sorted(exp), "time stamps with samples")
    for m, ix in exp.items():
        if m in got:
            h.eq(r["a"].values[got[m]], weird(pd.Series([v[i] for i in ix], dtype=object)), "aggregated at %d" % m)


def zones(h):
    """the labels denote the same instants whatever the time zones"""
    offs, labs = [0, 10, 20, 30, 40, 60], [20, 60]
    v = h.array("v", 6, -10, 10)
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    dtz = h.choose("data zone", ["utc", "Europe/Berlin", "Asia/Kolkata"])
    ntz = h.choose("label zone", ["utc", "Europe/Berlin", "America/New_York"])
    df = pd.DataFrame({"a": obj(v)}, index=at(offs, dtz))
    new = at(labs, ntz)
    kw = {}
    if h.fork("naive"):
        new = new.tz_localize(None)
        if ntz != "utc" or h.fork("give zone"):
            kw["new_index_tz"] = ntz
    elif h.fork("ignored zone"):
        kw["new_index_tz"] = "Asia/Tokyo"
    label = h.choose("label", ["right", "left"])
    r = h.call(T.aggregate_df_onto_DatetimeIndex, df, new, weird, label=label, **kw)
    exp = expected(offs, labs, label)
    h.true(r.index.tz is not None, "time zone known")
    got = {int((t - T0).total_seconds() // 60): i for i, t in enumerate(r.index)}
    h.equal_obj(sorted(got), sorted(exp), "instants")
    for m, ix in exp.items():
        if m in got:
            h.eq(r["a"].values[got[m]], weird(pd.Series([v[i] for i in ix], dtype=object)), "aggregated at %d" % m)


def default_label(h):
    v = h.array("v", 4, -10, 10)
    obj = pdsym.objarr if h.symbolic else (lambda x: x)
    df = pd.DataFrame({"a": obj(v)}, index=at([0, 10, 20, 30]))
    r = h.call(T.aggregate_df_onto_DatetimeIndex, df, at([10, 30]), weird)
    h.equal_obj(len(r), 2, "two time stamps")
    h.eq(list(r["a"].values), [v[1], v[2] + 2 * v[3]], "label right by default")
    h.equal_obj(list(df.columns), ["a"], "input unchanged")


def bad_label(h):
    df = pd.DataFrame({"a": [1.0, 2.0]}, index=at([0, 10]))
    _, exc = h.attempt(T.aggregate_df_onto_DatetimeIndex, df, at([0, 10]), np.mean, h.choose("label", ["", "center", None, "Right"]))
    h.true(isinstance(exc, NotImplementedError), "unknown label rejected")


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f: Case(n, f, sym_stubs=pdsym.stubs)
    cs = [
        mk("right", grouping([10, 20, 30], [5, 10, 12, 20, 25, 30, 35], "right")),
        mk("left", grouping([10, 20, 30], [5, 10, 12, 20, 25, 30, 35], "left")),
        mk("right mean", grouping([10, 20, 30], [0, 9, 10, 11, 29, 31], "right", "naive", "mean")),
        mk("left mean", grouping([10, 20, 30], [0, 9, 10, 11, 29, 31], "left", "naive", "mean")),
        mk("series right", grouping([0, 7, 30], [-5, 0, 3, 7, 8], "right", "series")),
        mk("series left", grouping([0, 7, 30], [-5, 0, 3, 7, 8], "left", "series")),
        mk("far apart right", grouping([0, 20160, 527040], [0, 1, 5000, 20160, 30000, 500000, 527040], "right")),
        mk("far apart left", grouping([0, 20160, 527040], [0, 1, 5000, 20160, 30000, 500000, 527040], "left")),
        mk("long", long),
        mk("very long", verylong),
        mk("gaps", gaps),
        mk("time zones", zones),
        mk("equal time stamps", equal_stamps),
        mk("default label", default_label),
        mk("label", bad_label),
    ]
    if not q:
        cs += [mk("long " + l, grouping([10, 11, 20, 40], [1, 5, 10, 11, 12, 20, 33, 40, 41], l)) for l in ("right", "left")]
    return cs
