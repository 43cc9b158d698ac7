"""Rain rate from min/max signal levels."""
import math

import numpy as np

from pycomlink.processing import k_R_relation as K
from pycomlink.processing import min_max as M
from symx.harness import Case
from props.util import total

FUNCTIONS = ["processing.min_max._calc_A_min_max", "processing.k_R_relation.calc_R_from_A_min_max", "processing.k_R_relation.a_b"]
BOUNDS = ("attenuation: 5 (quick) / 6 (thorough) samples with window 1 and 2, levels in [-100,100], up to two missing samples at any position, "
          "quantization symbolic; rain rate: 3 samples in [-20,100] or NaN, power law parameters symbolic or from frequency")
OUTSIDE = "longer series, the default window of 7 (structure is the same), all-missing series"
EULER = 0.57721566
BUDGET = {"quick": 240, "thorough": 2400}


def rain(h):
    n = 3
    A = h.array("A", n, -20, 100, nan=True)
    a = h.real("a", 1e-4, 2)
    b = h.choose("b", [0.7, 1.0, 1.25])
    L = h.real("L", 0.1, 50)
    rmin = h.real("R_min", 0, 5)
    k = h.choose("k", [1, 2, 10, 90, 900])
    r = h.call(K.calc_R_from_A_min_max, A, L, a=a, b=b, R_min=rmin, k=k)
    h.observe("R", r)
    c = (math.log(k) + EULER) ** b
    chk(h, r, A, lambda x: (x / (a * c * L)) ** (1.0 / b), rmin)


def chk(h, r, A, f, rmin):
    for i in range(len(A)):
        if bool(h.isnan(A[i])):
            h.true(h.isnan(r[i]), "R[%d] is NaN" % i)
        elif bool(A[i] < 0):
            h.eq(r[i], 0.0, "R[%d] is 0" % i)
        else:
            v = f(A[i])
            h.eq(r[i], h.ite(v < rmin, 0.0, v), "R[%d]" % i)


def rainf(h):
    A = h.array("A", 2, -20, 100, nan=True)
    L = h.real("L", 0.1, 50)
    f = h.choose("f", [10.0, 23.0, 80.0])
    pol = h.choose("pol", [None, "V", "H"])
    kw = {} if pol is None else {"pol": pol}
    r = h.call(K.calc_R_from_A_min_max, A, L, f_GHz=f, **kw)
    h.observe("R", r)
    a, b = K.a_b(f, pol or "H")
    a, b = float(a[0]), float(b[0])
    c = (math.log(90) + EULER) ** b
    chk(h, r, A, lambda x: (x / (a * c * L)) ** (1.0 / b), 0.1)


def ints(h):
    """Whole-number attenuations give the same rain rates as the equal floating point numbers."""
    A = np.array([h.choose("A%d" % i, [-3, 0, 1, 7, 30]) for i in range(2)])
    b = h.choose("b", [0.7, 1.0])
    r = h.call(K.calc_R_from_A_min_max, A, 2.5, a=0.125, b=b)
    c = (math.log(90) + EULER) ** b
    chk(h, r, [float(x) for x in A], lambda x: (x / (0.125 * c * 2.5)) ** (1.0 / b), 0.1)


def mono(h):
    A = h.array("A", 2, -20, 100)
    h.assume(A[0] <= A[1])
    L = h.real("L", 0.1, 50)
    r = h.call(K.calc_R_from_A_min_max, A, L, f_GHz=23.0)
    h.le(r[0], r[1], "monotone")


def rint(x):
    import symx.core as core

    if core.is_sym(x):
        return core.lower(core.rint(core.lift(x)))
    return np.rint(x)


def atten(T, window, missing):
    def fn(h):
        txn = h.array("tx_min", T, nan=lambda ix: ix[0] in missing)
        txx = h.array("tx_max", T)
        rxn = h.array("rx_min", T, nan=lambda ix: ix[0] in missing)
        rxx = h.array("rx_max", T)
        gT = h.real("gT", 0, 5)
        gR = h.real("gR", 0, 5)
        r = h.call(M._calc_A_min_max, txn, txx, rxn, rxx, gT=gT, gR=gR, window=window)
        h.observe("A", r)
        hi = [txx[i] - rxn[i] - (gT + gR) / 2 for i in range(T)]
        lo = [txn[i] - rxx[i] + (gT + gR) / 2 for i in range(T)]
        hi, lo = fill(h, hi), fill(h, lo)
        for i in range(T):
            if i < window:
                h.true(h.isnan(r[i]), "no zero level yet [%d]" % i)
                continue
            m = lo[i - window]
            for j in range(i - window + 1, i + 1):
                m = h.ite(lo[j] < m, lo[j], m)
            d = hi[i] - m
            h.eq(r[i], h.ite(d < 0, 0.0, d), "attenuation[%d]" % i)

    return fn


def fill(h, xs):
    ok = [x for x in xs if not bool(h.isnan(x))]
    if len(ok) == len(xs):
        return xs
    mean = total(ok) / float(len(ok))
    m = rint(mean)
    h.assume(h.abs(mean - m) < 0.5 - 1e-6)  # where rounding decides between two levels neither is specified
    return [m if bool(h.isnan(x)) else x for x in xs]


def default_window(h):
    T = 9
    z = lambda n: h.array(n, T, -60, 60)
    txn, txx, rxn, rxx = z("tx_min"), z("tx_max"), z("rx_min"), z("rx_max")
    r = h.call(M._calc_A_min_max, txn, txx, rxn, rxx)
    h.observe("A", r)
    for i in range(7):
        h.true(h.isnan(r[i]), "no zero level yet [%d]" % i)
    for i in range(7, T):
        m = None
        for j in range(i - 7, i + 1):
            v = txn[j] - rxx[j] + 0.8
            m = v if m is None else h.ite(v < m, v, m)
        d = txx[i] - rxn[i] - 0.8 - m
        h.eq(r[i], h.ite(d < 0, 0.0, d), "attenuation[%d]" % i)


def verylong(h):
    longcase(h, 6000)


def longcase(h, T=90):
    """long series with the default window, mostly fixed"""
    mk = lambda k, o: [o - (i * k % 101) / 8.0 - i // 500 for i in range(T)]
    txn, txx, rxn, rxx = mk(37, 12), mk(41, 20), mk(53, -50), mk(29, -45)
    txn[20] = h.real("tx_min20", -50, 50, nan=True)
    rxx[60] = h.real("rx_max60", -100, 0)
    rxn[61] = h.real("rx_min61", -100, 0, nan=True)
    r = h.call(M._calc_A_min_max, *[h.mk(x) for x in (txn, txx, rxn, rxx)])
    hi = fill(h, [txx[i] - rxn[i] - 0.8 for i in range(T)])
    lo = fill(h, [txn[i] - rxx[i] + 0.8 for i in range(T)])
    for i in range(7, T):
        m = lo[i - 7]
        for j in range(i - 6, i + 1):
            m = h.ite(lo[j] < m, lo[j], m)
        d = hi[i] - m
        h.eq(r[i], h.ite(d < 0, 0.0, d), "attenuation[%d]" % i)


def cases(tier):
    T = 5 if tier == "quick" else 6
    cs = [
        Case("rain rate", rain),
        Case("rain rate from frequency", rainf),
        Case("monotone", mono, pairwise=("pow",)),
        Case("whole numbers", ints, bounds="fixed values"),
        Case("default window", default_window),
        Case("long", longcase, bounds="T=90"),
        Case("very long", verylong, bounds="T=6000", history=False),
    ]
    for w in (1, 2):
        cs.append(Case("attenuation window=%d" % w, atten(T, w, ())))
    for m in ((0,), (2,), (4,), (0, 3)):
        cs.append(Case("attenuation missing %s" % (m,), atten(T if tier != "quick" else 5, 2, m)))
    return cs
