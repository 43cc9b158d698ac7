"""Climatological variogram parameters."""
import datetime

import numpy as np
import pandas as pd

from pycomlink.spatial import interpolator as P
from symx.harness import Case
from props.util import cos

FUNCTIONS = ["spatial.interpolator.clim_var_param"]
BOUNDS = "every day of a leap year and of a common year (four representative days in the quick tier of the symbolic case), symbolic duration between 0.01 and 480 hours; dates as strings in two formats and as time stamps"
OUTSIDE = "accuracy of the floating point power and cosine functions"
BUDGET = {"quick": 200, "thorough": 1200}


def formula(day, D):
    w = 2 * float(np.pi) * (1 / 365)
    r = (15.51 * D ** 0.09 + 2.06 * D ** -0.12 * cos(w * (day - 7.37 * D ** 0.22))) ** 4
    s = (0.84 * D ** -0.25 + 0.20 * D ** -0.37 * cos(w * (day - 162 * D ** -0.03))) ** 4
    return {"sill": s, "range": r / 1000, "nugget": 0.1 * s}


def check(h, r, day, D):
    h.equal_obj(sorted(r), ["nugget", "range", "sill"], "keys")
    e = formula(day, D)
    for k in e:
        h.eq(r[k], e[k], k, tol=1e-6, ctol=1e-6)


def symbolic(days):
    def fn(h):
        d = h.choose("date", days)
        D = h.real("hours", 0.01, 480)
        r = h.call(P.clim_var_param, d, D)
        check(h, r, float(pd.Timestamp(d).dayofyear), D)

    return fn


def every(year, hours=(0.25,)):
    def fn(h):
        k = h.int("day", 1, 365)
        n = pd.Timestamp("%d-12-31" % year).dayofyear
        import symx.core as core

        day = int(core.concretize_int(core.lift(k))) if h.symbolic else int(k)
        h.assume(np.bool_(day <= n))
        t = pd.Timestamp("%d-01-01" % year) + pd.Timedelta(days=day - 1)
        D = h.choose("hours", list(hours))
        arg = [t.strftime("%Y%m%d"), t.strftime("%Y-%m-%d 13:00"), t][day % 3]
        r = h.call(P.clim_var_param, arg, D)
        check(h, r, float(day), D)

    return fn


def defaults(h):
    r = h.call(P.clim_var_param)
    check(h, r, 94.0, 0.25)
    h.true(np.bool_(r["sill"] > 0 and r["range"] > 0 and r["nugget"] < r["sill"]), "usable as a variogram")


FORMS = [
    ("2013-04-04", 94), ("2013-04-04T23:59:59.9", 94), ("4 April 2013", 94), ("20130404 0030", 94), (datetime.date(2013, 4, 4), 94), (datetime.datetime(2013, 4, 4, 23, 59), 94),
    (np.datetime64("2013-04-04"), 94), (pd.Timestamp("2013-04-04 00:30", tz="Europe/Amsterdam"), 94), (pd.Timestamp("2013-04-04 23:30", tz="America/New_York"), 94),
    ("2013-04-04 00:30+02:00", 94), ("2013-04-04 23:30-05:00", 94), (pd.Timestamp("2012-12-31 23:59:59.999999999"), 366), ("20121231", 366), ("20130101", 1), ("19000301", 60), ("20000301", 61), ("21000228", 59),
]


def forms(h):
    """the day of year is that of the given date, in whatever form and time zone it is given"""
    k = h.choose("form", list(range(len(FORMS))))
    D = h.choose("hours", [0.25, 48])
    r = h.call(P.clim_var_param, FORMS[k][0], D)
    check(h, r, float(FORMS[k][1]), D)


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("durations", symbolic(["20130404", "20200229", "2019-12-31", "20201231"])),
        Case("days", every(2019)),
        Case("forms of the date", forms, bounds="17 dates"),
        Case("defaults", defaults),
    ]
    if not q:
        cs += [Case("days of a leap year", every(2020, (0.25, 24))), Case("durations of all months", symbolic(["2021%02d%02d" % (m, 3 * m - 2) for m in range(1, 11)]))]
    return cs
