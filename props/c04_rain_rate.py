"""Rain rate from attenuation (k-R power law)."""
import numpy as np
import xarray as xr

from pycomlink.processing import k_R_relation as K
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.k_R_relation.calc_R_from_A", "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("4 attenuation samples in [-20,100] or NaN; power law parameters symbolic (prefactor in [1e-5,2], exponent in [0.6,1.5]) "
          "or from frequency and polarization, length in [0.1,50] km, minimum rain rate symbolic in [0,5]; DataArrays of 2x2x2")
OUTSIDE = "accuracy of the floating point power function; longer arrays"
BUDGET = {"quick": 300, "thorough": 2400}


def per_sample(h, r, A, f, rmin, lab):
    """NaN stays NaN, negative gives 0, else the power law, or 0 below the minimum."""
    if bool(h.isnan(A)):
        h.true(h.isnan(r), lab + " is NaN")
    elif bool(A < 0):
        h.eq(r, 0.0, lab + " is 0 for negative attenuation")
    else:
        v = f(A)
        h.eq(r, h.ite(v < rmin, 0.0, v), lab)
        h.true(h.or_(r == 0, r >= rmin), lab + " zero or above the minimum")
        h.true(r >= 0, lab + " not negative")


def symab(h):
    n = 4
    A = h.array("A", n, -20, 100, nan=True)
    a = h.real("a", 1e-5, 2)
    b = h.real("b", 0.6, 1.5)
    L = h.real("L", 0.1, 50)
    rmin = h.real("R_min", 0, 5)
    r = h.call(K.calc_R_from_A, A, L_km=L, a=a, b=b, R_min=rmin)
    h.observe("R", r)
    for i in range(n):
        per_sample(h, r[i], A[i], lambda x: (x / (a * L)) ** (1 / b), rmin, "R[%d]" % i)


def mono(h):
    A = h.array("A", 2, -20, 100)
    a = h.real("a", 1e-5, 2)
    L = h.real("L", 0.1, 50)
    b = h.choose("b", [0.7, 1.0, 1.25])
    h.assume(A[0] <= A[1])
    r = h.call(K.calc_R_from_A, A, L, a=a, b=b, R_min=0.1)
    h.observe("R", r)
    h.le(r[0], r[1], "monotone in the attenuation")


def inverse(h):
    """a * R**b * L gives back the attenuation wherever R was not clipped."""
    A = h.array("A", 2, -20, 100, nan=True)
    L = h.real("L", 0.1, 50)
    a = h.real("a", 1e-3, 2)
    r = h.call(K.calc_R_from_A, A, L, a=a, b=1.0, R_min=0.1)
    for i in range(2):
        h.true(h.or_(h.isnan(A[i]), r[i] == 0, h.abs(a * r[i] * L - A[i]) <= 1e-6), "inverts the power law")


def freqpol(h):
    n = 3
    A = h.array("A", n, -20, 100, nan=True)
    L = h.real("L", 0.1, 50)
    f = h.choose("f", [1.0, 7.5, 15.0, 18.7427, 23.3, 38.0, 86.0, 100.0])
    pol = h.choose("pol", ["V", "H", "v", "h", "vertical", "horizontal", "Vertical", "Horizontal"])
    ap = h.choose("approx", ["ITU_2005", "ITU_2003"])
    r = h.call(K.calc_R_from_A, A, L, f, pol, a_b_approximation=ap)
    h.observe("R", r)
    a, b = K.a_b(f, "V" if pol[0] in "vV" else "H", approx_type=ap)
    a, b = float(a[0]), float(b[0])
    for i in range(n):
        per_sample(h, r[i], A[i], lambda x: (x / (a * L)) ** (1 / b), 0.1, "R[%d]" % i)


def scalar(h):
    A = h.real("A", -20, 100, nan=True)
    kw, rmin = h.choose("R_min", [({}, 0.1), ({"R_min": 0.5}, 0.5)])
    r = h.call(K.calc_R_from_A, A, 8.0, a=0.125, b=1.0, **kw)
    h.equal_obj(r.shape, (1,), "shape")
    per_sample(h, r[0], A, lambda x: x, rmin, "R")


def verylong(h):
    longcase(h, 11000)


def longcase(h, n=300):
    """a long series, mostly fixed"""
    A = [((i * 37) % 101) / 8.0 - 2.0 if i % 17 else np.nan for i in range(n)]
    for i in (5, 150, 299) if n < 1000 else (n - 3,):
        A[i] = h.real("A%d" % i, -20, 100, nan=True)
    r = h.call(K.calc_R_from_A, h.mk(A), 4.0, a=0.25, b=0.8)
    h.equal_obj(tuple(r.shape), (n,), "shape")
    for i in range(n):
        per_sample(h, r[i], A[i], lambda x: (x / 1.0) ** (1 / 0.8), 0.1, "R[%d]" % i)


def flat(kind):
    """series without any rain, of one sample, or completely missing"""

    def fn(h):
        n = 1 if kind == "single" else 3
        A = h.array("A", n, -20, 0 if kind == "dry" else 100, nan=True)
        if kind == "missing":
            A = h.const(np.full(n, np.nan))
        r = h.call(K.calc_R_from_A, A, 3.0, 23.0, "V")
        a, b = K.a_b(23.0, "V")
        a, b = float(a[0]), float(b[0])
        for i in range(n):
            per_sample(h, r[i], A[i], lambda x: (x / (a * 3.0)) ** (1 / b), 0.1, "R[%d]" % i)

    return fn


def ints(h):
    """Whole-number attenuations (array or list) give the same rain rates as the equal floating point numbers."""
    A = [h.choose("A%d" % i, [-3, 0, 1, 7, 30]) for i in range(2)]
    b = h.choose("b", [0.7, 1.0])
    r = h.call(K.calc_R_from_A, np.array(A) if h.fork("array") else A, 2.5, a=0.125, b=b)
    for i in range(2):
        per_sample(h, r[i], float(A[i]), lambda x: (x / (0.125 * 2.5)) ** (1 / b), 0.1, "R[%d]" % i)


def dacase(order):
    def fn(h):
        A = h.array("A", (2, 2, 2), -5, 50, nan=lambda ix: ix == (0, 1, 1))
        co = {"cml_id": ["x", "y"], "channel_id": [1, 2], "time": times(2)}
        d = ("cml_id", "channel_id", "time")
        da = xr.DataArray(A, dims=d, coords=co)
        Ls = [0.5, 12.0]
        L = xr.DataArray(np.array(Ls), dims="cml_id", coords={"cml_id": ["x", "y"]})
        fr = [[10.0, 18.57], [23.0314, 80.0]]
        f = xr.DataArray(np.array(fr), dims=("cml_id", "channel_id"), coords={"cml_id": ["x", "y"], "channel_id": [1, 2]})
        po = [["V", "H"], ["h", "v"]]
        pol = xr.DataArray(np.array(po), dims=("cml_id", "channel_id"), coords=f.coords)
        if order:
            da = da.transpose("time", "channel_id", "cml_id")
            f = f.transpose("channel_id", "cml_id")
        r = h.call(K.calc_R_from_A, A=da, L_km=L, f_GHz=f, pol=pol)
        h.equal_obj(set(r.dims), set(d), "dims")
        r = r.transpose(*d)
        h.observe("R", r)
        h.equal_obj(list(r.cml_id.values), ["x", "y"], "link order")
        R = r.data
        for i in range(2):
            for c in range(2):
                a, b = K.a_b(fr[i][c], po[i][c].upper())
                a, b = float(a[0]), float(b[0])
                for t in range(2):
                    per_sample(h, R[i, c, t], A[i, c, t], lambda x: (x / (a * Ls[i])) ** (1 / b), 0.1, "R[%d,%d,%d]" % (i, c, t))

    return fn


def combos(h):
    A = h.array("A", 1, 0, 10)
    given = {k: h.fork("has_" + k) for k in ("f_GHz", "pol", "a", "b")}
    vals = {"f_GHz": 20.0, "pol": "V", "a": 0.1, "b": 1.0}
    kw = {k: vals[k] for k in vals if given[k]}
    ok = set(kw) in ({"f_GHz", "pol"}, {"a", "b"})
    if ok:
        h.call(K.calc_R_from_A, A, 1.0, **kw)
        h.true(np.bool_(True), "accepted")
    else:
        h.raises(ValueError, K.calc_R_from_A, A, 1.0, label="bad combination rejected", **kw)


def cases(tier):
    return [
        Case("symbolic power law", symab),
        Case("monotone", mono, pairwise=("pow",)),
        Case("inverse", inverse),
        Case("frequency and polarization", freqpol),
        Case("scalar", scalar),
        Case("whole numbers", ints, bounds="fixed values"),
        Case("long", longcase, bounds="300 samples, 3 symbolic"),
        Case("very long", verylong, bounds="11000 samples, 3 symbolic", history=False),
        Case("dry series", flat("dry")),
        Case("one sample", flat("single")),
        Case("missing series", flat("missing")),
        Case("dataarray", dacase(False)),
        Case("dataarray transposed", dacase(True)),
        Case("argument combinations", combos),
    ]
