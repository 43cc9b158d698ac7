"""Rolling Fourier transform wet/dry classification."""
import contextlib
import io
import warnings

import matplotlib.mlab as mlab
import numpy as np
import pandas as pd

from pycomlink.processing.wet_dry import stft as S
from symx.harness import Case
from props import pdsym
from props.util import total

FUNCTIONS = ["processing.wet_dry.stft.stft_classification", "processing.wet_dry.stft.find_lowest_std_dev_period"]
BOUNDS = ("supplied spectra of 2-3 frequencies and 2-4 columns, all powers symbolic (one column possibly NaN), symbolic threshold and dividing frequency, every dry period; computed spectra of 8-9 samples with "
          "windows of 3-4, one sample symbolic; mirrored ends; dry period search over 4-6 symbolic samples")
OUTSIDE = "powers of exactly zero in the dry spectrum; ties of standard deviations; mirror together with a supplied spectrum; longer series"
STUBS = ["symbolic mode: matplotlib.mlab.specgram by its definition (windowed power spectral density)", "symbolic mode: pandas rolling standard deviation"]
BUDGET = {"quick": 300, "thorough": 1800}


def psd(win, w, Fs):
    """one-sided power spectral density of one windowed segment"""
    n = len(win)
    out = []
    for k in range(n // 2 + 1):
        c = [float(w[j]) * float(np.cos(2 * np.pi * k * j / n)) for j in range(n)]
        s = [float(w[j]) * float(np.sin(2 * np.pi * k * j / n)) for j in range(n)]
        re, im = total([a * x for a, x in zip(c, win)]), total([a * x for a, x in zip(s, win)])
        sc = 1.0 / (Fs * float(np.sum(np.asarray(w) ** 2)))
        if k and not (n % 2 == 0 and k == n // 2):
            sc *= 2
        out.append((re * re + im * im) * sc)
    return out


def specgram(x, NFFT=None, Fs=None, detrend=None, window=None, noverlap=None, pad_to=None, sides=None, scale_by_freq=None, mode=None):
    from symx import arr, core

    x = [x[i] for i in range(len(x))]
    if detrend not in (None, "none") or pad_to not in (None, NFFT) or sides not in (None, "default", "onesided") or scale_by_freq is False or mode not in (None, "default", "psd") or NFFT is None or Fs is None or callable(window) or window is None:
        raise core.Unsupported("specgram options")
    step = NFFT - (128 if noverlap is None else noverlap)
    cols = [psd(x[k : k + NFFT], window, Fs) for k in range(0, len(x) - NFFT + 1, step)]
    P = arr.wrap(np.array([[c[r] for c in cols] for r in range(len(cols[0]))], dtype=object), np.dtype(float))
    return P, np.arange(NFFT // 2 + 1) * Fs / NFFT, np.arange(NFFT / 2, len(x) - NFFT / 2 + 1, step) / Fs


REAL = mlab.specgram


def rolling_stub():
    from symx import arr, core

    real = pd.DataFrame.rolling, pd.Series.rolling
    frame = pd.DataFrame

    class Rolling:
        def __init__(self, obj, n, mp):
            self.o, self.n, self.mp = obj, n, n if mp is None else mp

        def col(self, v, f):
            from props.util import sqrt

            out = []
            for t in range(len(v)):
                w = pdsym.valid(list(v[max(0, t - self.n + 1) : t + 1]))
                out.append(f(w) if len(w) >= max(self.mp, 1) else np.nan)
            return pdsym.np.array(out + [None], dtype=object)[:-1]

        def map(self, f):
            if isinstance(self.o, pd.Series):
                return pd.Series(self.col(self.o.values, f), index=self.o.index)
            return pd.DataFrame({c: self.col(self.o[c].values, f) for c in self.o.columns}, index=self.o.index)

        def var(self, ddof=1):
            return self.map(lambda w: var(w, ddof))

        def std(self, ddof=1):
            from props.util import sqrt

            return self.map(lambda w: sqrt(var(w, ddof)))

        def mean(self):
            return self.map(pdsym.mean)

    def make(k):
        def rolling(self, window, min_periods=None, **kw):
            vals = self.values.ravel() if self.values.dtype == object else []
            if pdsym.has(vals):
                if kw:
                    raise core.Unsupported("rolling options")
                return Rolling(self, window, min_periods)
            return real[k](self, window, min_periods=min_periods, **kw)

        return rolling

    return [(pd.DataFrame, "rolling", make(0)), (pd.Series, "rolling", make(1))]


def var(w, ddof=1):
    n = len(w)
    if n <= ddof:
        return np.nan
    m = total(w) / n
    return total([(x - m) * (x - m) for x in w]) / (n - ddof)


def sym_stubs():
    out = [(mlab, "specgram", specgram)] + rolling_stub()
    return out + [(S, n, specgram) for n, v in list(vars(S).items()) if v is REAL]


def classify(h, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return h.call(S.stft_classification, *a, **k)


def verify(h, wet, info, P, f, d0, d1, fd, th, margin=False):
    """P: list of columns (None: no complete window), one per sample"""
    T, F = len(P), len(f)
    h.equal_obj(tuple(np.shape(wet)), (T,), "one flag per sample")
    dry = []
    for r in range(F):
        v = [P[t][r] for t in range(*slice(d0, d1).indices(T)) if P[t] is not None and not bool(h.isnan(P[t][r]))]
        dry.append(total(v) / len(v) if v else np.nan)
    low = [bool(f[r] <= fd) for r in range(F)]
    for t in range(T):
        if P[t] is None or not any(low) or all(low) or any(bool(h.isnan(P[t][r])) for r in range(F)) or any(isinstance(x, float) and x != x for x in dry):
            h.equal_obj(bool(wet[t]), False, "not wet without spectrum")
            h.true(h.isnan(info["P_sum_diff"][t]), "P_sum_diff[%d] unknown" % t)
            continue
        n = [P[t][r] / dry[r] for r in range(F)]
        for r in range(F):
            h.eq(info["Pxx"][r, t], P[t][r], "Pxx[%d]" % t, tol=1e-6, ctol=1e-4)
            h.eq(info["P_norm"][r, t], n[r], "P_norm[%d]" % t, tol=1e-6, ctol=1e-4)
        lo = [x for x, q in zip(n, low) if q]
        hi = [x for x, q in zip(n, low) if not q]
        d = total(lo) / len(lo) - total(hi) / len(hi)
        h.eq(info["P_sum_diff"][t], d, "P_sum_diff[%d]" % t, tol=1e-6, ctol=1e-4)
        if margin:
            h.assume(h.or_(d > th + 1e-4, d < th - 1e-4))
        h.equal_obj(bool(wet[t]), bool(d > th), "wet[%d]" % t)


def given(F, cols, T, nanc=None, ths="sym", nan1=None):
    """with a supplied spectrum"""

    def fn(h):
        f = np.arange(F) * 0.001 + 0.0005
        P = h.array("P", (F, cols), 0.125, 8, nan=lambda ix: ix[1] == nanc or ix == nan1)
        th = h.real("threshold", -4, 4) if ths == "sym" else ths
        fd = h.choose("f_divide", [0.0005, 0.001, 0.0015, 0.0002] + ([0.0031] if F < 4 else []))
        d0, d1 = h.choose("dry", [(0, T), (1, 3), (T - 3, T - 1)])
        wet, info = classify(h, np.zeros(T), h.choose("window_length", [T - cols + 1]), th, fd, t_dry_start=d0, t_dry_stop=d1, Pxx=P, f=f)
        s = (T - cols) // 2
        C = [None] * s + [[P[r, k] for r in range(F)] for k in range(cols)] + [None] * (T - cols - s)
        verify(h, wet, info, C, f, d0, d1, fd, th, True)

    return fn


BASE = np.array([-50.0, -51.5, -49.0, -52.0, -50.5, -53.0, -49.5, -51.0, -50.25, -52.5])


def columns(x, n, w, Fs, mirror):
    T = len(x)
    s = (n - 1) // 2
    P = [None] * T
    for k in range(T - n + 1):
        P[k + s] = psd(x[k : k + n], w, Fs)
    if mirror:
        hf = n // 2
        for i in range(T - hf, T):
            part = [x[j] for j in range(i - hf + 1, i + 1)]
            P[i] = psd(part + part[::-1], w, Fs)
    return P


def computed(T, n, at, dry, mirror=False, window=False, Fs=None):
    def fn(h):
        x = h.const(BASE[:T])
        x[at] = h.real("x", -80, -20)
        nf = n + 1 if mirror and n % 2 else n
        w = np.hamming(nf)
        kw = {}
        if window:
            w = kw["window"] = np.array([0.5, 1.0, 0.75, 0.25, 1.5][:nf])
        if mirror:
            kw["mirror"] = True
        F = 1 / 60
        if Fs:
            F = kw["f_sampling"] = Fs
        d0, d1 = dry
        fd = 0.3 * F if Fs else 1.001 * F / nf  # just above the first frequency
        th = h.choose("threshold", [0.25, -0.5])
        wet, info = classify(h, x, n, th, fd, t_dry_start=d0, t_dry_stop=d1, **kw)
        h.observe("wet", wet)
        f = np.arange(nf // 2 + 1) * F / nf
        verify(h, wet, info, columns(list(x), nf, w, F, mirror), f, d0, d1, fd, th, True)

    return fn


def at_threshold(h):
    """a difference of exactly the threshold is dry (powers for which nothing is rounded)"""
    T, cols = 6, 4
    P = np.array([[1.0, 2.0, 0.5, 1.5], [1.0, 1.0, 0.5, 1.0]])
    k = h.choose("power", [0.5, 1.0, 4.0])
    th = h.choose("threshold", [0.0, 1.0, 0.5, -0.0, -1.0])
    d0, d1 = 1, 2  # dry: the first column
    P = P * k
    wet, info = classify(h, np.zeros(T), 3, th, 0.001, t_dry_start=d0, t_dry_stop=d1, Pxx=h.const(P), f=np.array([0.0, 0.01]))
    d = [0.0, 1.0, 0.0, 0.5]
    for c in range(cols):
        h.eq(info["P_sum_diff"][c + 1], d[c], "P_sum_diff[%d]" % c)
        h.equal_obj(bool(wet[c + 1]), bool(d[c] > th), "wet[%d]" % c)


def verylong_series(h):
    long_series(h, 1500)


def long_series(h, T=36):
    n = 8
    x = [-50.0 - ((i * 37) % 19) / 4.0 - (6.0 if 14 <= i < 23 else 0.0) for i in range(T)]
    x[18] = h.real("x", -80, -20)
    mirror = h.fork("mirror")
    F = 1 / 60
    fd, th = 0.0035, h.choose("threshold", [0.25, 1.0])
    d0, d1 = h.choose("dry", [(0, 12), (24, 36)] if T < 1000 else [(1100, 1130)])
    wet, info = classify(h, h.mk(x), n, th, fd, t_dry_start=d0, t_dry_stop=d1, **({"mirror": True} if mirror else {}))
    verify(h, wet, info, columns(x, n, np.hamming(n), F, mirror), np.arange(n // 2 + 1) * F / n, d0, d1, fd, th, True)


def gap(h):
    """a missing sample only affects the windows it lies in"""
    T, n = 8, 3
    x = BASE[:T].copy()
    k = h.choose("missing", [0, 3, 7])
    x[k] = np.nan
    th = h.choose("threshold", [0.25, -0.5])
    wet, info = classify(h, x, n, th, 0.005, t_dry_start=0, t_dry_stop=T)
    P = columns(list(x), n, np.hamming(n), 1 / 60, False)
    verify(h, wet, info, P, np.arange(2) / 180, 0, T, 0.005, th)


def lowest(h, x, n):
    """first window without missing samples with the smallest variance"""
    miss = [bool(h.isnan(v)) for v in x]
    v = {k: var([x[j] for j in range(k, k + n)]) for k in range(len(x) - n + 1) if not any(miss[k : k + n])}
    for a in v:
        for b in v:
            if b < a:
                h.assume(h.abs(v[a] - v[b]) > 0.01)
    best = None
    for k in v:
        if best is None or bool(v[k] < v[best]):
            best = k
    return best, best + n


def search(T, n, sym, kind):
    def fn(h):
        x = h.const(BASE[:T])
        for k in sym:
            x[k] = h.real("x%d" % k, -60, -40)
        s, e = lowest(h, x, n)
        arg = x
        if h.symbolic:
            arg = pdsym.objarr(x)
        if kind == "list":
            arg = list(arg)
        a, b = h.call(S.find_lowest_std_dev_period, arg, n)
        h.equal_obj((int(a), int(b)), (s, e), "dry period")

    return fn


def search_gaps(h):
    """a period with missing samples is not the dry one"""
    T, n = 9, 3
    x = h.const(BASE[:T])
    x[4] = -50.125
    x[5] = -50.0
    x[6] = h.choose("seventh", [np.nan, -50.25])
    x[h.choose("symbolic", [2, 7])] = h.real("x", -60, -40, nan=True)
    s, e = lowest(h, x, n)
    a, b = h.call(S.find_lowest_std_dev_period, pdsym.objarr(x) if h.symbolic else x, n)
    h.equal_obj((int(a), int(b)), (s, e), "dry period")


def auto(h):
    """dry_length: the dry period is searched in the series"""
    T, n = 6, 3
    x = BASE[:T].copy()
    lv = h.choose("series", [0, 1, 2])
    x[lv : lv + 3] = [-45.0, -45.5, -45.25]
    v = [np.var(x[k : k + 3]) for k in range(4)]
    s = int(np.argmin(v))
    P = h.array("P", (2, 4), 0.125, 8)
    f = np.array([0.0, 0.01])
    wet, info = classify(h, x, n, 0.5, 0.005, dry_length=3, Pxx=P, f=f)
    verify(h, wet, info, [None] + [[P[0, k], P[1, k]] for k in range(4)] + [None], f, s, s + 3, 0.005, 0.5, True)


def arguments(h):
    P = h.array("P", (2, 4), 0.125, 8)
    kw = {k: v for k, v in (("t_dry_start", 1), ("t_dry_stop", 4), ("dry_length", 3)) if h.fork(k)}
    x = BASE[:6]
    f = np.array([0.0, 0.01])
    if set(kw) in ({"t_dry_start", "t_dry_stop"}, {"dry_length"}):
        classify(h, x, 3, 0.5, 0.005, Pxx=P, f=f, **kw)
        h.true(np.bool_(True), "accepted")
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            h.raises(AttributeError, S.stft_classification, x, 3, 0.5, 0.005, Pxx=P, f=f, label="incomplete dry period rejected", **kw)


def nofreq(h):
    P = h.array("P", (2, 4), 0.125, 8)
    h.raises(ValueError, S.stft_classification, BASE[:6], 3, 0.5, 0.005, t_dry_start=0, t_dry_stop=5, Pxx=P, label="spectrum without frequencies rejected")


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f, **o: Case(n, f, sym_stubs=sym_stubs, **o)
    cs = [
        mk("supplied spectrum", given(2, 3, 6)),
        mk("supplied spectrum three frequencies", given(3, 2, 4)),
        mk("supplied spectrum odd gap", given(2, 2, 5, ths=0.5)),
        mk("supplied spectrum missing column", given(2, 3, 5, nanc=1, ths=0.25)),
        mk("supplied spectrum missing power", given(3, 2, 4, nan1=(1, 1), ths=0.25)),
        mk("computed", computed(8, 4, 7, (0, 4))),
        mk("computed odd window", computed(8, 3, 4, (0, 3), Fs=1.0)),
        mk("computed own window", computed(8, 4, 6, (1, 3), window=True)),
        mk("mirrored", computed(8, 4, 6, (1, 4), mirror=True)),
        mk("mirrored odd window", computed(9, 3, 8, (2, 6), mirror=True)),
        mk("mirrored own window", computed(8, 4, 6, (1, 4), mirror=True, window=True)),
        mk("mirrored sampling", computed(8, 4, 7, (1, 4), mirror=True, Fs=0.5)),
        mk("long series", long_series, bounds="36 samples, windows of 8"),
        mk("very long series", verylong_series, bounds="1500 samples, windows of 8", history=False),
        mk("at the threshold", at_threshold),
        mk("gap", gap),
        mk("dry period", search(5, 3, [2], "array")),
        mk("dry period list", search(5, 2, [1, 2], "list")),
        mk("dry period end", search(5, 3, [4], "array")),
        mk("dry period with gaps", search_gaps),
        mk("dry period search", auto),
        mk("arguments", arguments),
        mk("no frequencies", nofreq),
    ]
    if not q:
        cs += [mk("supplied spectrum four", given(4, 4, 8)), mk("dry period long", search(7, 3, [2, 4, 6], "array")), mk("computed long", computed(10, 5, 8, (0, 5)))]
    return cs
