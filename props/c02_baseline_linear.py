"""Linear baseline."""
import numpy as np
import pandas as pd

from pycomlink.processing import baseline as B
from symx.harness import Case
from props.util import NAN, flags, isnan, level, long_flags, times

FUNCTIONS = ["processing.baseline.baseline_linear", "processing.baseline._numba_baseline_linear"]
BOUNDS = ("series of 6 (quick) / 8 (thorough) time steps, level in [-100,100] or NaN per sample, every pattern of "
          "dry/wet flags (7 / 9 steps) and of dry/wet/NaN flags (6 / 8 steps), ignore_nan on and off; 200 steps with events of up to 70 steps, "
          "4 symbolic levels and 2 symbolic flags; series of 1-2 steps")
OUTSIDE = "longer series; the value at the two dry neighbours of an event with an unknown flag or level (either the level itself or NaN is accepted)"
BUDGET = {"quick": 200, "thorough": 2400}


def events(wet, ignore_nan):
    """-> list of ('dry', i) / ('wet', last_dry, next_dry or None, has_nan); sample 0 is the first dry reference."""
    state = []
    for i, w in enumerate(wet):
        if i == 0:
            state.append((False, False))
        elif isnan(w):
            state.append((state[-1][0], False) if ignore_nan else (True, True))
        else:
            state.append((w == 1, False))
    return state


def check(h, r, rsl, wet, ignore_nan):
    T = len(rsl)
    st = events(wet, ignore_nan)
    dry = [i for i in range(T) if not st[i][0]]
    loose = set()
    for a, b in zip(dry, dry[1:] + [None]):
        if b is None:
            for i in range(a + 1, T):
                h.true(h.isnan(r[i]), "unfinished event[%d] is NaN" % i)
            continue
        if b == a + 1:
            continue
        if any(st[i][1] for i in range(a, b)):
            loose |= {a, b}
            for i in range(a + 1, b):
                h.true(h.isnan(r[i]), "event with unknown flag[%d] is NaN" % i)
            continue
        for i in range(a + 1, b):
            w = (i - a) / (b - a)
            h.eq(r[i], rsl[a] * (1 - w) + rsl[b] * w, "wet sample %d" % i)
    for i in dry:
        v = r[i]
        same = None
        near = [j for j in (prev(dry, i), nxt(dry, i)) if j is not None]
        wide = any(abs(j - i) > 1 for j in near)
        if i in loose:
            h.true(h.or_(h.isnan(v), close(h, v, rsl[i])), "dry sample %d (next to an unknown event)" % i)
        elif wide:
            # an event next to it has an unknown level at its other end: NaN tolerated
            other = h.or_(*[h.isnan(rsl[j]) for j in near if abs(j - i) > 1])
            h.true(h.or_(both(h, v, rsl[i]), h.and_(other, h.isnan(v))), "dry sample %d" % i)
        else:
            h.eq(v, rsl[i], "dry sample %d" % i)


def prev(dry, i):
    k = dry.index(i)
    return dry[k - 1] if k else None


def nxt(dry, i):
    k = dry.index(i)
    return dry[k + 1] if k + 1 < len(dry) else None


def close(h, a, b):
    return h.and_(a <= b + 1e-6, a >= b - 1e-6)


def both(h, a, b):
    return h.or_(h.and_(h.isnan(a), h.isnan(b)), close(h, a, b))


def case(T, ignore, nan_flags, nan_level):
    def fn(h):
        rsl = h.array("rsl", T, nan=nan_level)
        wet = flags(h, "wet", T, nan=nan_flags)
        w = h.const(np.array(wet))
        h.snap(w, "wet")
        r = h.call(B.baseline_linear, rsl, w, ignore)
        h.observe("baseline", r)
        h.equal_obj(r.shape, (T,), "shape")
        check(h, r, list(rsl), wet, ignore)

    return fn


def longcase(ignore, T=200):
    """long series: mostly fixed, some levels and flags free"""

    def fn(h):
        v = [level(i) for i in range(T)]
        w = long_flags(T)
        for i in (3, 60, 66, 150):
            v[i] = h.real("rsl%d" % i, -100, 100)
        for i in (64, 120):
            w[i] = h.choose("wet%d" % i, [0.0, 1.0, NAN])
        r = h.call(B.baseline_linear, h.mk(v), np.array(w), ignore)
        check(h, r, v, w, ignore)

    return fn


def boolcase(h):
    rsl = h.array("rsl", 4)
    wet = h.array("wet", 4, dtype=bool)
    r = h.call(B.baseline_linear, rsl, wet)
    check(h, r, list(rsl), [1.0 if bool(x) else 0.0 for x in wet], False)


def defcase(h):
    """Unknown flags are not ignored unless asked for."""
    rsl = h.array("rsl", 4)
    wet = flags(h, "wet", 4)
    h.assume(any(isnan(w) for w in wet))
    r = h.call(B.baseline_linear, rsl, h.const(np.array(wet)))
    check(h, r, list(rsl), wet, False)


def seriescase(h):
    """pandas Series are taken by position, whatever their index."""
    v = [-50.25, -47.5, -61.0, -55.125, -52.0]
    wet = flags(h, "wet", 5, nan=False)
    ix = h.choose("index", [[4, 3, 2, 1, 0], [10, 11, 12, 13, 14], list(times(5))])
    t, w = pd.Series(v, index=ix), pd.Series(wet, index=ix)
    which = h.choose("which", ["both", "level", "flags"])
    t = np.array(v) if which == "flags" else t
    w = np.array(wet) if which == "level" else w
    if h.fork("integer flags"):
        w = w.astype(int)
    r = h.call(B.baseline_linear, t, w)
    check(h, np.asarray(r), v, wet, False)


def intcase(h):
    """Integer levels are not truncated."""
    v = [-50, -47, -61, -55, -52]
    wet = flags(h, "wet", 5, nan=False)
    r = h.call(B.baseline_linear, np.array(v), np.array(wet).astype(h.choose("flag type", [bool, int, float])))
    check(h, np.asarray(r), [float(x) for x in v], wet, False)


def cases(tier):
    q = tier == "quick"
    A, C = (7, 6) if q else (9, 8)
    return [
        Case("known flags", case(A, False, False, lambda ix: ix[0] in (0, 3)), bounds="T=%d" % A),
        Case("unknown flags", case(C, False, True, False), bounds="T=%d" % C),
        Case("unknown flags ignored", case(C - (1 if q else 0), True, True, False), bounds="T=%d" % C),
        Case("one step", case(1, False, False, True), bounds="T=1"),
        Case("two steps", case(2, False, True, True), bounds="T=2"),
        Case("long", longcase(False), bounds="T=200"),
        Case("long ignore", longcase(True), bounds="T=200"),
        Case("very long", longcase(True, 11000), bounds="T=11000"),
        Case("boolean flags", boolcase, bounds="T=4"),
        Case("unknown flags by default", defcase, bounds="T=4"),
        Case("series", seriescase, bounds="T=5, fixed levels"),
        Case("integer levels", intcase, bounds="T=5, fixed levels"),
    ]
