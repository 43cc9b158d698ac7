"""Dynamic wet antenna attenuation (Schleiss 2013)."""
import numpy as np
import xarray as xr

from pycomlink.processing import wet_antenna as W
from symx.harness import Case
from props.util import level, long_flags, times

FUNCTIONS = ["processing.wet_antenna.waa_schleiss_2013", "processing.wet_antenna._numba_waa_schleiss_2013",
             "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("series of 6 (quick) / 9 (thorough) steps with level and baseline in [-100,100] (NaN in some samples), wet symbolic, "
          "maximum in [0,20] symbolic, four concrete time step/time constant pairs; series of 1-2 steps; 160 steps with 3 symbolic levels and 2 symbolic flags; 4 steps with all parameters symbolic; 2x3 DataArrays")
OUTSIDE = "longer series; wet samples directly after a sample without attenuation (NaN)"
BUDGET = {"quick": 200, "thorough": 2400}


def mn(h, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = h.ite(x < r, x, r)
    return r


def spec(h, r, A, wet, wmax, dt, tau, nanpos=()):
    T = len(A)
    h.eq(r[0], 0.0, "first sample")
    prev = 0.0
    for i in range(1, T):
        a = A[i]
        if i in nanpos:
            v = h.ite(h.isnan(a), np.nan, 0.0)  # only NaN-ness stated below
        step = prev + (wmax - prev) * 3 * dt / tau
        v = h.ite(wet[i], mn(h, a, wmax, step), mn(h, a, wmax))
        if i in nanpos:
            h.true(h.implies(h.isnan(a), h.isnan(r[i])), "no attenuation, no estimate [%d]" % i)
            h.true(h.or_(h.isnan(a), near(h, r[i], v)), "estimate[%d]" % i)
        elif i - 1 in nanpos:
            un = h.and_(h.isnan(A[i - 1]), wet[i])
            h.true(h.or_(un, near(h, r[i], v)), "estimate[%d]" % i)
            v = h.ite(un, r[i], v)
        else:
            h.eq(r[i], v, "estimate[%d]" % i)
        h.true(h.or_(h.isnan(r[i]), h.and_(r[i] <= wmax + 1e-6, r[i] <= a + 1e-6)), "bounded by attenuation and maximum [%d]" % i)
        prev = v
    return


def near(h, a, b):
    return h.and_(a <= b + 1e-6, a >= b - 1e-6)


def case(T, dt, tau, nanpos):
    def fn(h):
        rsl = h.array("rsl", T, nan=lambda ix: ix[0] in nanpos)
        base = h.array("base", T)
        wet = h.array("wet", T, dtype=bool)
        wmax = h.real("wmax", 0, 20)
        r = h.call(W.waa_schleiss_2013, rsl, base, wet, wmax, dt, tau)
        h.observe("waa", r)
        A = [rsl[i] - base[i] for i in range(T)]
        spec(h, r, A, list(wet), wmax, dt, tau, nanpos)

    return fn


def symparams(T):
    def fn(h):
        rsl = h.array("rsl", T)
        base = h.array("base", T)
        wet = h.array("wet", T, dtype=bool)
        wmax = h.real("wmax", 0, 20)
        dt = h.real("dt", 0.125, 10)
        tau = h.real("tau", 1, 100)
        r = h.call(W.waa_schleiss_2013, rsl=rsl, baseline=base, wet=wet, waa_max=wmax, delta_t=dt, tau=tau)
        h.observe("waa", r)
        spec(h, r, [rsl[i] - base[i] for i in range(T)], list(wet), wmax, dt, tau)

    return fn


def nonneg(T):
    """No negative estimate for non-negative attenuation when the relaxation does not overshoot."""

    def fn(h):
        A = h.array("A", T, 0, 50)
        wet = h.array("wet", T, dtype=bool)
        wmax = h.real("wmax", 0, 20)
        r = h.call(W.waa_schleiss_2013, A, h.const(np.zeros(T)), wet, wmax, 1, 15)
        h.observe("waa", r)
        h.le(0.0, r, "not negative")
        for i in range(2, T):
            c = h.and_(wet[i], wet[i - 1])
            h.true(h.implies(c, r[i] - r[i - 1] <= wmax * 0.2 + 1e-6), "growth limited [%d]" % i)

    return fn


def dacase(h):
    rsl = h.array("rsl", (2, 3))
    base = h.array("base", (2, 3))
    wet = h.array("wet", (2, 3), dtype=bool)
    co = {"channel_id": ["a", "b"], "time": times(3)}
    d = ("channel_id", "time")
    r = h.call(W.waa_schleiss_2013, xr.DataArray(rsl, dims=d, coords=co), xr.DataArray(base, dims=d, coords=co),
               xr.DataArray(wet, dims=d, coords=co), 2.3, 1, 15)
    h.equal_obj(tuple(r.dims), d, "dims")
    h.observe("waa", r)
    for k in range(2):
        spec(h, list(r.data[k]), [rsl[k, i] - base[k, i] for i in range(3)], list(wet[k]), 2.3, 1, 15)


def verylong(h):
    longcase(h, 11000)


def longcase(h, T=160):
    """long series: mostly fixed, some levels and flags free"""
    w = long_flags(T)
    v = [(level(i, 53) + 62.5) / 3 for i in range(T)]
    b = [(level(i) + 62.5) / 5 - 1 for i in range(T)]
    for i in (2, 158) if T < 1000 else (T - 2,):
        v[i] = h.real("rsl%d" % i, -5, 30)
    for i in (64, 157) if T < 1000 else ():
        w[i] = h.choose("wet%d" % i, [0.0, 1.0])
    dt, tau = h.choose("dt, tau", [(1, 15), (0.25, 60)])
    r = h.call(W.waa_schleiss_2013, h.mk(v), h.mk(b), np.array(w), 2.3, dt, tau)
    spec(h, list(r), [x - y for x, y in zip(v, b)], [x == 1 for x in w], 2.3, dt, tau)


def ints(h):
    """Whole numbers, lists and flags of any type give the same as floating point numbers."""
    v = [h.choose("rsl%d" % i, [0, 3, 9]) for i in range(3)]
    w = [h.choose("wet%d" % i, [0, 1]) for i in range(1, 3)]
    kind = h.choose("kind", ["int", "list", "flags"])
    wet = [1] + w
    args = (np.array(v), np.zeros(3, dtype=int), np.array(wet)) if kind == "int" else (v, [0, 0, 0], wet) if kind == "list" else (np.array(v), np.zeros(3), np.array(wet, dtype=bool))
    wmax = h.choose("waa_max", [2.3, 5])
    r = h.call(W.waa_schleiss_2013, *args, wmax, 1, 15)
    spec(h, list(r), [float(x) for x in v], [bool(x) for x in wet], wmax, 1, 15)


def cases(tier):
    q = tier == "quick"
    T = 6 if q else 8
    cs = [Case("dt=%s tau=%s" % p, case(T, p[0], p[1], (2, 4))) for p in ((1, 15), (0.25, 4))]
    cs += [Case("dt=%s tau=%s" % p, case(T - 1, p[0], p[1], ())) for p in ((5, 10), (1, 100))]
    cs.append(Case("symbolic parameters", symparams(4)))
    cs.append(Case("sign and growth", nonneg(5 if q else 7)))
    cs.append(Case("dataarray", dacase))
    cs += [Case("%d steps" % t, case(t, 1, 15, ())) for t in (1, 2)]
    cs.append(Case("long", longcase, bounds="T=160"))
    cs.append(Case("very long", verylong, bounds="T=11000", history=False))
    cs.append(Case("whole numbers", ints))
    return cs
