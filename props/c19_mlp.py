"""MLP wet/dry classification: which samples decide about which time step."""
import pickle
from importlib.resources import files

import numpy as np
import xarray as xr
from sklearn.neural_network import MLPClassifier

from pycomlink.processing.wet_dry import mlp as M
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.wet_dry.mlp.mlp_wet_dry"]
BOUNDS = ("online models: 44 minutes with every sample symbolic, up to three of them possibly missing; 6-hour-median models: 124-170 minutes, up to two samples symbolic and two possibly missing; "
          "the classifier itself is replaced by a generic function of its 80 inputs and of the model")
OUTSIDE = "the numbers a trained network returns; series longer than the 12 hour median window"
ASSUMPTIONS = ["sklearn.neural_network.MLPClassifier.predict_proba maps every row by itself"]
STUBS = ["sklearn.neural_network.MLPClassifier.predict_proba: a fixed generic function of model and row, rejecting missing values as sklearn does"]
BUDGET = {"quick": 300, "thorough": 1800}
NAMES = ["rg", "rad", "rg_online", "rad_online"]
W = [float(x) for x in np.random.RandomState(5).randint(1000, 9999, 80)]


def _load():
    out = {}
    for n in NAMES:
        with open(files("pycomlink").joinpath("processing/wet_dry/mlp_model_files") / ("model_%s.pkl" % n), "rb") as f:
            out[n] = pickle.load(f)
    return out


SIG = {n: float(m.coefs_[0][0, 0]) for n, m in _load().items()}


def gen(row, model):
    """generic function: equal for two rows (of the same model) only if they are the same"""
    s = 1000003.0 * (1 + NAMES.index(model))
    rest = []
    for w, x in zip(W, row):
        if isinstance(x, (float, np.floating)):
            s = s + w * float(x)
        else:
            rest.append(w * x)
    for x in rest:
        s = s + x
    return s


def fake(self, X):
    name = [n for n in NAMES if SIG[n] == float(self.coefs_[0][0, 0])][0]
    from symx import arr

    rows = []
    if X.shape[0] == 0 or X.shape[1] != 80:
        raise ValueError("Found array with shape %r" % (X.shape,))
    for i in range(X.shape[0]):
        if any(bool(np.isnan(X[i, j])) for j in range(X.shape[1])):
            raise ValueError("Input X contains NaN.")
        s = gen([X[i, j] for j in range(X.shape[1])], name)
        rows.append([s, -s])
    if isinstance(X, arr.SymArray):
        return arr.wrap(rows, np.dtype(float))
    return np.array(rows, dtype=float)


FAKE = [(MLPClassifier, "predict_proba", fake)]


def da(x):
    return xr.DataArray(x, dims="time", coords={"time": times(len(x))})


def verify(h, r, exp, T, model):
    h.equal_obj(tuple(r.shape), (T, 2), "one row per time step")
    for t in range(T):
        row = exp(t)
        if row is None:
            h.true(h.isnan(r[t, 0]), "NaN[%d]" % t)
            h.true(h.isnan(r[t, 1]), "NaN[%d]" % t)
        else:
            e = gen(row, model)
            h.eq(r[t, 0], e, "probability dry[%d]" % t, tol=1e-3)
            h.eq(r[t, 1], -e, "probability wet[%d]" % t, tol=1e-3)


def online(T, nans):
    def fn(h):
        model = h.choose("model", ["rg_online", "rad_online"])
        a = h.array("a", T, -100, 0, nan=lambda ix: ("a", ix[0]) in nans)
        b = h.array("b", T, -100, 0, nan=lambda ix: ("b", ix[0]) in nans)
        kw = {} if model == "rad_online" else {"model_sel": model}
        r = h.call(M.mlp_wet_dry, da(a), da(b), **kw)
        h.observe("r", r)
        na = [bool(h.isnan(x)) for x in a]
        nb = [bool(h.isnan(x)) for x in b]

        def exp(t):
            if t < 40 or any(na[t - 40 : t + 1]) or any(nb[t - 40 : t + 1]):
                return None
            return [a[s] - a[s - 1] for s in range(t - 39, t + 1)] + [b[s] - b[s - 1] for s in range(t - 39, t + 1)]

        verify(h, r, exp, T, model)

    return fn


def online_long(h):
    """a day and more, mostly fixed"""
    T = 3100
    model = h.choose("model", ["rg_online", "rad_online"])
    A, B = [[-50.0 - (t * k % 101) / 8.0 for t in range(T)] for k in (37, 53)]
    A[1500], B[2900] = h.real("a", -100, 0), h.real("b", -100, 0, nan=True)
    A[2047] = B[700] = np.nan
    a, b = h.mk(A), h.mk(B)
    r = h.call(M.mlp_wet_dry, da(a), da(b), model_sel=model)
    na, nb = {2047}, {700} | ({2900} if bool(h.isnan(B[2900])) else set())

    def exp(t):
        if t < 40 or any(t - 40 <= s <= t for s in na | nb):
            return None
        return [A[s] - A[s - 1] for s in range(t - 39, t + 1)] + [B[s] - B[s - 1] for s in range(t - 39, t + 1)]

    verify(h, r, exp, T, model)


def level(t, c):
    # all different, so that every sample counts for some median
    return -50.0 - ((t * (37 if c == "a" else 53)) % 101) / 8.0 - t / 4096.0


def median_of(c, x):
    """median of the known values c (sorted) and at most one symbolic value"""
    n = len(c)
    if not x:
        return c[n // 2] if n % 2 else (c[n // 2 - 1] + c[n // 2]) / 2
    if len(x) == 2:  # both below all others
        return median_of(x + c, [])
    (x,) = x
    m = n // 2
    lo, hi = (c[m - 1], c[m + 1]) if n % 2 else (c[m - 1], c[m])
    x = lo if bool(x < lo) else hi if bool(x > hi) else x
    return (x + c[m]) / 2 if n % 2 else x


def median(T, sym, nans, missing=0, low=False, gap=None):
    """less than 12 hours: the median is that of the samples within 6 hours before and after"""

    def fn(h):
        model = h.choose("model", ["rg", "rad"])
        V = {}
        for c in "ab":
            v = h.const(np.array([level(t, c) if t >= missing else np.nan for t in range(T)]))
            if gap and c in gap:
                v[gap[c][0] : gap[c][1]] = np.nan
            for t in sym.get(c, []):
                v[t] = h.real("%s[%d]" % (c, t), -100, -80 if low else 0)
            for t in nans.get(c, []):
                v[t] = h.real("%s[%d]" % (c, t), -100, 0, nan=True)
            V[c] = v
        r = h.call(M.mlp_wet_dry, da(V["a"]), da(V["b"]), model_sel=model)
        h.observe("r", r)
        D = {}
        for c in "ab":
            miss = [bool(h.isnan(x)) for x in V[c]]
            cache = {}
            out = []
            for t in range(T):
                k = (max(0, t - 360), min(T, t + 360))
                if k not in cache:
                    ok = [V[c][s] for s in range(*k) if not miss[s]]
                    special = set(sym.get(c, [])) | set(nans.get(c, []))
                    conc = sorted(float(V[c][s]) for s in range(*k) if s not in special and not miss[s])
                    symb = [V[c][s] for s in range(*k) if s in special and not miss[s]]
                    cache[k] = median_of(conc, symb) if len(ok) >= 120 else None
                out.append(None if miss[t] or cache[k] is None else V[c][t] - cache[k])
            D[c] = out

        def exp(t):
            if t < 20 or t + 20 > T:
                return None
            row = D["a"][t - 20 : t + 20] + D["b"][t - 20 : t + 20]
            return None if any(x is None for x in row) else row

        verify(h, r, exp, T, model)

    return fn


def unknown_model(h):
    a = h.array("a", 45, -100, 0)
    h.raises(ValueError, M.mlp_wet_dry, da(a), da(a), h.choose("model", ["", "xx", "RG", "rad-online"]), label="unknown model rejected")


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f, **o: Case(n, f, **o, stubs=lambda: list(FAKE))
    cs = [
        mk("online", online(43, [("a", 1), ("b", 41)])),
        mk("online gaps", online(43, [("a", 0), ("b", 2), ("a", 42)])),
        mk("median", median(124, {"a": [30], "b": [100]}, {})),
        mk("median gaps", median(124, {}, {"a": [60], "b": [3]})),
        mk("median of too few", median(126, {}, {"a": [90], "b": [101]}, missing=6)),
        mk("median window", median(740, {"a": [20, 715]}, {}, low=True)),
        mk("online very long", online_long, history=False),
        mk("median after a long gap", median(1100, {"b": [100]}, {}, low=True, gap={"b": (250, 1000)})),
        mk("unknown model", unknown_model),
    ]
    if not q:
        cs += [
            mk("online long", online(60, [("a", 10), ("b", 50), ("b", 30), ("a", 55)])),
            mk("median long", median(170, {"a": [30]}, {"b": [100]})),
        ]
    return cs
