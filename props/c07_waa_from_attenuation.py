"""Wet antenna attenuation from observed attenuation and from rain rate."""
import bisect

import numpy as np
import xarray as xr

from pycomlink.processing import wet_antenna as W
from pycomlink.processing import k_R_relation as K
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.wet_antenna.waa_leijnse_2008_from_A_obs", "processing.wet_antenna.waa_pastorek_2021_from_A_obs",
             "processing.wet_antenna.waa_pastorek_2021", "processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("observed attenuation symbolic in [-10,300] dB (two or three samples, NaN allowed) for a list of concrete links "
          "(frequency, polarization, length); rain rate symbolic in [0,300] mm/h for the Pastorek relation with symbolic parameters")
OUTSIDE = ("the dielectric physics for symbolic frequency (complex arithmetic): the Leijnse relation itself is evaluated concretely for the listed "
           "links and only compared against an independent formulation at fixed rain rates")
STUBS = ["scipy.interpolate.interp1d on symbolic arguments is the exact piecewise linear function of the real interpolator"]
BUDGET = {"quick": 300, "thorough": 1800}

LINKS = [(20e9, "V", 5.0), (38e9, "H", 0.7), (7.3e9, "V", 25.0), (80e9, "H", 1.3)]
LINKS_T = LINKS + [(10.5e9, "H", 12.0), (15e9, "V", 3.0), (23e9, "v", 8.0), (60e9, "horizontal", 0.3)]


def leijnse(A, f, pol, L, **k):
    return W.waa_leijnse_2008_from_A_obs(A, f, pol, L, **k)


def pastorek(A, f, pol, L, **k):
    return W.waa_pastorek_2021_from_A_obs(A, f, pol, L, **k)


def ref_leijnse(R, f_Hz, T_K=293.0, gamma=2.06e-5, delta=0.24, n=complex(1.73, 0.014), la=0.001):
    """Independent formulation: transmission through water film and antenna cover as product of layer matrices,
    relative to the dry cover."""
    th = 1 - 300.0 / T_K
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    f1 = 20.2 + 146.4 * th + 316 * th * th
    e2 = 3.52 + 7.52 * th
    f2 = 39.8 * f1
    fg = f_Hz / 1e9
    nw = np.sqrt(e2 + (e1 - e2) / (1 - 1j * fg / f2) + (e0 - e1) / (1 - 1j * fg / f1))
    k0 = 2 * np.pi * f_Hz / 299792458
    l = gamma * R**delta

    def layer(n_, d):
        # conj: time convention with positive imaginary part = loss
        ph = k0 * n_ * d
        return np.array([[np.cos(ph), -1j * np.sin(ph) / n_], [-1j * n_ * np.sin(ph), np.cos(ph)]])

    def trans(M):
        return 2 / (M[0, 0] + M[0, 1] + M[1, 0] + M[1, 1])

    wet, dry = trans(layer(nw, l) @ layer(n, la)), trans(layer(n, la))
    return 20 * np.log10(abs(dry / wet))


def model_leijnse(A_rain, f, pol, L, **k):
    a, b = K.a_b(f / 1e9, pol)
    a, b = float(a[0]), float(b[0])
    return [0.0 if x == 0 else float(ref_leijnse((x / (a * L)) ** (1 / b), f, **k)) for x in A_rain]


def model_pastorek(A_rain, f, pol, L, A_max=14, zeta=0.55, d=0.1):
    a, b = K.a_b(f / 1e9, pol)
    a, b = float(a[0]), float(b[0])
    return [float(A_max * (1 - np.exp(-d * (x / (a * L)) ** (zeta / b)))) for x in A_rain]


GRID = [0.0] + [10 ** (-9.5 + 0.25 * i) for i in range(48)]


def fromobs(fun, model, link, kw=None, mkw=None):
    f, pol, L = link
    kw = kw or {}
    mkw = mkw if mkw is not None else kw
    ws = model(GRID, f, pol, L, **mkw)
    obs = [x + w for x, w in zip(GRID, ws)]

    def fn(h):
        A = h.array("A", 2, -10, 250, nan=lambda ix: ix[0] == 1)
        neg = h.or_(A[0] < 0, h.and_(h.not_(h.isnan(A[1])), A[1] < 0))
        if bool(neg):
            h.raises(ValueError, fun, A, f, pol, L, label="negative attenuation rejected", **kw)
            return
        r = h.call(fun, A, f, pol, L, **kw)
        h.observe("waa", r)
        h.equal_obj(r.shape, (2,), "shape")
        h.true(h.implies(h.isnan(A[1]), h.isnan(r[1])), "NaN stays NaN")
        h.le(0.0, r, "not negative")
        h.le(r, A, "not above the observed attenuation")
        h.true(h.implies(A[0] == 0, h.abs(r[0]) <= 1e-9), "zero for zero attenuation")
        # the pair (A_obs - waa, waa) lies on the model curve
        conds = []
        for i in range(len(GRID) - 1):
            lo, hi = ws[i], ws[i + 1]
            tol = 0.01 * hi + 0.02
            conds.append(h.or_(A[0] < obs[i], A[0] > obs[i + 1], h.and_(r[0] >= lo - tol, r[0] <= hi + tol)))
        h.true(h.and_(*conds), "consistent with the model relation")

    return fn


def one_after_another(fun, model, others):
    """The parameters of a call are its own, whatever the call before was made with."""
    base = (20e9, "V", 5.0)
    confs = [(base, {}), ((21e9, "V", 5.0), {}), ((20e9, "H", 5.0), {}), ((20e9, "V", 9.0), {})] + [(base, k) for k in others]
    tabs = []
    for l, k in confs:
        ws = model(GRID, *l, **{{"l_antenna": "la", "n_antenna": "n"}.get(x, x): v for x, v in k.items()})
        tabs.append((ws, [x + w for x, w in zip(GRID, ws)]))

    def fn(h):
        first, i = h.choose("order", [(0, i) for i in range(1, len(confs))] + [(i, 0) for i in range(1, len(confs))])
        h.call(fun, np.array([0.5, 3.0]), *confs[first][0], **confs[first][1])
        l, k = confs[i]
        A = h.array("A", 1, 0, 100)
        r = h.call(fun, A, *l, **k)
        ws, obs = tabs[i]
        conds = []
        for j in range(len(GRID) - 1):
            tol = 0.01 * ws[j + 1] + 0.02
            conds.append(h.or_(A[0] < obs[j], A[0] > obs[j + 1], h.and_(r[0] >= ws[j] - tol, r[0] <= ws[j + 1] + tol)))
        h.true(h.and_(*conds), "consistent with the model relation of its own parameters")

    return fn


def monotone(fun, model, link):
    """Monotone on every cell of a partition of the attenuation range (neighbouring cells share their end point)."""
    f, pol, L = link
    ws = model(GRID, f, pol, L)
    obs = [x + w for x, w in zip(GRID, ws)]
    cells = [(lo, hi) for lo, hi in zip(obs, obs[1:]) if lo < 250]

    def fn(h):
        lo, hi = h.choose("cell", cells)
        A = h.array("A", 2, 0, 300)
        h.assume(h.and_(A[0] >= lo, A[1] >= A[0], A[1] <= hi))
        r = h.call(fun, A, f, pol, L)
        h.true(r[0] <= r[1] + 1e-9, "monotone")
        h.true(A[0] - r[0] <= A[1] - r[1] + 1e-9, "corrected attenuation monotone")

    return fn


def dacase(fun, model):
    """Two links in one DataArray: each with its own frequency, polarization and length."""
    lk = [(20e9, "V", 5.0), (38e9, "H", 0.7)]
    tabs = []
    for l in lk:
        ws = model(GRID, *l)
        tabs.append((ws, [x + w for x, w in zip(GRID, ws)]))

    def fn(h):
        A = h.array("A", (2, 2), 0, 100)
        ids = ["x", "y"]
        co = {"cml_id": ids, "time": times(2)}
        da = xr.DataArray(A, dims=("cml_id", "time"), coords=co)
        mk = lambda v: xr.DataArray(np.array(v), dims="cml_id", coords={"cml_id": ids})
        r = h.call(fun, da, mk([20e9, 38e9]), mk(["V", "H"]), mk([5.0, 0.7]))
        h.equal_obj(set(r.dims), {"cml_id", "time"}, "dims")
        R = r.transpose("cml_id", "time").data
        for k in range(2):
            ws, obs = tabs[k]
            for t in range(2):
                conds = []
                for i in range(len(GRID) - 1):
                    tol = 0.01 * ws[i + 1] + 0.02
                    conds.append(h.or_(A[k, t] < obs[i], A[k, t] > obs[i + 1], h.and_(R[k, t] >= ws[i] - tol, R[k, t] <= ws[i + 1] + tol)))
                h.true(h.and_(*conds), "link %d consistent with its own model" % k)

    return fn


def pastorek_R(h):
    R = h.array("R", 2, 0, 300, nan=lambda ix: ix[0] == 1)
    Amax = h.real("A_max", 0.5, 30)
    zeta = h.choose("zeta", [0.55, 0.3, 1.0])
    d = h.real("d", 0.01, 1)
    r = h.call(W.waa_pastorek_2021, R, A_max=Amax, zeta=zeta, d=d)
    h.observe("waa", r)
    h.true(h.and_(r[0] >= -1e-9, r[0] <= Amax + 1e-9), "between zero and the maximum")
    h.true(h.implies(R[0] == 0, r[0] == 0), "zero without rain")
    h.true(h.implies(h.isnan(R[1]), h.isnan(r[1])), "NaN stays NaN")
    h.true(h.or_(h.isnan(R[1]), R[0] > R[1], r[0] <= r[1] + 1e-9), "monotone in the rain rate")


def pastorek_value(h):
    R = h.real("R", 0, 300)
    Amax = h.real("A_max", 0.5, 30)
    d = h.real("d", 0.01, 1)
    zeta = h.choose("zeta", [0.55, 1.0])
    kw = h.fork("defaults")
    if kw:
        Amax, zeta, d = 14, 0.55, 0.1
        r = h.call(W.waa_pastorek_2021, h.mk([R]))[0]
    else:
        r = h.call(W.waa_pastorek_2021, h.mk([R]), A_max=Amax, zeta=zeta, d=d)[0]
    if bool(R == 0):
        h.eq(r, 0.0, "zero without rain")
        return
    import symx.core as core
    from symx import funcs

    def exp(x):
        return core.lower(funcs.exp(core.lift(x))) if core.is_sym(x) else np.exp(x)

    h.eq(r, Amax * (1 - exp(-d * (R**zeta))), "value")


def leijnse_points(h):
    """The relation at fixed rain rates (chosen by the solver) against the layer matrix formulation."""
    f = h.choose("f", [7.3e9, 10.5e9, 15e9, 20e9, 23e9, 38e9, 60e9, 80e9])
    R = h.choose("R", [0.0, 0.01, 0.5, 3.0, 25.0, 150.0])
    kw = h.choose("kw", [{}, {"gamma": 1e-5}, {"delta": 0.4}, {"T_K": 283.0}, {"l_antenna": 0.002}, {"n_antenna": complex(2.0, 0.05)}])
    mk = {{"l_antenna": "la", "n_antenna": "n"}.get(k, k): v for k, v in kw.items()}
    r = h.call(W.waa_leijnse_2008, np.array([R, 1.0]), f, **kw)
    h.eq(r[0], 0.0 if R == 0 else ref_leijnse(R, f, **mk), "value", tol=1e-6, ctol=1e-6)
    h.eq(r[1], ref_leijnse(1.0, f, **mk), "value", tol=1e-6, ctol=1e-6)


def cases(tier):
    links = LINKS if tier == "quick" else LINKS_T
    cs = []
    for l in links:
        n = "%g GHz %s %g km" % (l[0] / 1e9, l[1], l[2])
        cs.append(Case("leijnse " + n, fromobs(leijnse, model_leijnse, l)))
        cs.append(Case("pastorek " + n, fromobs(pastorek, model_pastorek, l)))
        if l[0] in (20e9, 80e9) or tier != "quick":
            cs.append(Case("leijnse monotone " + n, monotone(leijnse, model_leijnse, l), validate=False))
            cs.append(Case("pastorek monotone " + n, monotone(pastorek, model_pastorek, l), validate=False))
    cs.append(Case("leijnse parameters", fromobs(leijnse, model_leijnse, LINKS[0], {"gamma": 1e-5, "delta": 0.4, "T_K": 283.0})))
    cs.append(Case("pastorek parameters", fromobs(pastorek, model_pastorek, LINKS[0], {"A_max": 6, "zeta": 0.4, "d": 0.2})))
    cs.append(Case("leijnse, one link after another", one_after_another(leijnse, model_leijnse, [{"gamma": 1e-5}, {"delta": 0.4}, {"T_K": 275.0}, {"l_antenna": 0.002}, {"n_antenna": complex(2.0, 0.05)}]), history=False))
    cs.append(Case("pastorek, one link after another", one_after_another(pastorek, model_pastorek, [{"A_max": 6}, {"zeta": 0.4}, {"d": 0.2}]), history=False))
    cs.append(Case("leijnse dataarray", dacase(leijnse, model_leijnse)))
    cs.append(Case("pastorek dataarray", dacase(pastorek, model_pastorek)))
    cs.append(Case("pastorek rain rate", pastorek_R, pairwise=("pow", "exp")))
    cs.append(Case("pastorek value", pastorek_value))
    cs.append(Case("leijnse fixed rain rates", leijnse_points))
    return cs
