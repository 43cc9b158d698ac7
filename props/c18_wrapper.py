"""The decorator which applies a time series function along the time dimension of DataArrays."""
import itertools

import numpy as np
import xarray as xr

from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim as wrapper
from symx.harness import Case
from props.util import times

FUNCTIONS = ["processing.xarray_wrapper.xarray_apply_along_time_dim"]
BOUNDS = ("1-3 dimensions (two links, two channels, 2-3 time steps) in every order, values in [-100,100], every way of passing the arguments "
          "by position, by keyword or by default, 1-3 outputs")
OUTSIDE = "larger arrays; dask arrays"
BUDGET = {"quick": 200, "thorough": 900}
NEW = []


def series(x, y, k=2.0, m=None):
    """depends on the position in time and on the whole series"""
    NEW.append(m)
    r = k * x - y[::-1]
    r = r + x.sum()
    return r


def pair(x, k=1.0, sgn=-1.0):
    return x[::-1] * k, x * sgn + x[0]


def three(x, k):
    return x + k, x[::-1] - k, x * 2.0


def ref(x, y, k):
    n = len(x)
    s = x[0]
    for v in x[1:]:
        s = s + v
    return [k * x[t] - y[n - 1 - t] + s for t in range(n)]


def co(T):
    return {"cml_id": ["b", "a"], "channel_id": [7, 3], "time": times(T)}


def nd(dims, transposed, size=(2, 2)):
    """every cell of the other dimensions is treated separately, in any order of dimensions"""

    def fn(h):
        T, n = size
        sz = {"cml_id": n, "channel_id": 2, "time": T}
        c = {d: v for d, v in co(T).items() if d in dims}
        if n == 1 and "cml_id" in c:
            c["cml_id"] = ["b"]
        elif n > 2:
            c["cml_id"] = ["L%d" % (i * 37 % 131) for i in range(n)]
        X = h.array("x", tuple(sz[d] for d in dims), -100, 100)
        Y = h.array("y", tuple(sz[d] for d in dims), -100, 100)
        x, y = xr.DataArray(X, dims=dims, coords=c), xr.DataArray(Y, dims=dims, coords=c)
        if transposed:
            perm = h.choose("perm", list(itertools.permutations(dims)))
            y = y.transpose(*perm)
            x = x.transpose(*h.choose("perm x", list(itertools.permutations(dims))))
        r = h.call(wrapper()(series), x, y, 3.0)
        h.true(isinstance(r, xr.DataArray), "DataArray")
        h.equal_obj(set(r.dims), set(dims), "dims")
        for d in dims:
            h.equal_obj(list(r[d].values), list(x[d].values), "coordinate " + d)
        r = r.transpose(*dims)
        h.observe("r", r)
        for ix in np.ndindex(*X.shape[:-1]):
            e = ref([X[ix + (t,)] for t in range(T)], [Y[ix + (t,)] for t in range(T)], 3.0)
            for t in range(T):
                h.eq(r.data[ix + (t,)], e[t], "value")

    return fn


def per_link(h):
    """an argument without time holds one value per link"""
    T = 3
    X = h.array("x", (2, T), -100, 100)
    Y = h.array("y", T, -100, 100)
    k = h.array("k", 2, -100, 100)
    c = {"cml_id": ["b", "a"], "time": times(T)}
    x = xr.DataArray(X, dims=("cml_id", "time"), coords=c)
    if h.fork("transposed"):
        x = x.T
    y = xr.DataArray(Y, dims="time", coords={"time": c["time"]})
    kd = xr.DataArray(k, dims="cml_id", coords={"cml_id": c["cml_id"]})
    r = h.call(wrapper()(series), x, y=y, k=kd)
    for i, n in enumerate("ba"):
        e = ref(list(X[i]), list(Y), k[i])
        for t in range(T):
            h.eq(r.sel(cml_id=n).data[t], e[t], "value")


def scalar_time(h):
    """time series combined with a time independent array"""
    X = h.array("x", 3, -100, 100)
    k = h.array("k", 2, -100, 100)
    x = xr.DataArray(X, dims="time", coords={"time": times(3)})
    kd = xr.DataArray(k, dims="channel_id", coords={"channel_id": [5, 4]})
    r = h.call(wrapper()(series), x, x, kd)
    h.equal_obj(set(r.dims), {"time", "channel_id"}, "dims")
    for i, n in enumerate([5, 4]):
        e = ref(list(X), list(X), k[i])
        for t in range(3):
            h.eq(r.sel(channel_id=n).data[t], e[t], "value")


def binding(h):
    """by position, by keyword or by default"""
    T = 2
    X, Y = h.array("x", T, -100, 100), h.array("y", T, -100, 100)
    k = h.real("k", -10, 10)
    tm = {"time": times(T)}
    vals = {"x": xr.DataArray(X, dims="time", coords=tm), "y": xr.DataArray(Y, dims="time", coords=tm), "k": k, "m": "mode"}
    names = ["x", "y", "k", "m"]
    npos = h.choose("positional", [0, 1, 2, 3, 4])
    pos = [vals[n] for n in names[:npos]]
    kw = {}
    for n in names[npos:]:
        if n in ("x", "y") or h.fork("give " + n):
            kw[n] = vals[n]
    if h.fork("reversed"):
        kw = dict(reversed(list(kw.items())))
    del NEW[:]
    r = h.call(wrapper()(series), *pos, **kw)
    has = lambda n: n in kw or names.index(n) < npos
    h.equal_obj(set(NEW), {"mode" if has("m") else None}, "argument m")
    e = ref(list(X), list(Y), k if has("k") else 2.0)
    for t in range(T):
        h.eq(r.data[t], e[t], "value")


def outputs(h):
    T = 2
    X = h.array("x", (2, T), -100, 100)
    c = {"cml_id": ["b", "a"], "time": times(T)}
    x = xr.DataArray(X, dims=("cml_id", "time"), coords=c)
    if h.fork("transposed"):
        x = x.T
    k = h.real("k", -10, 10)
    r = h.call(wrapper(n_outputs=2)(pair), x, sgn=k)
    h.equal_obj(len(r), 2, "two outputs")
    r3 = h.call(wrapper(3)(three), k=k, x=x)
    h.equal_obj(len(r3), 3, "three outputs")
    for i, n in enumerate("ba"):
        a, b = [v.sel(cml_id=n).data for v in r]
        p, q, s = [v.sel(cml_id=n).data for v in r3]
        for t in range(T):
            h.eq(a[t], X[i, T - 1 - t], "first output")
            h.eq(b[t], X[i, t] * k + X[i, 0], "second output")
            h.eq(p[t], X[i, t] + k, "first of three")
            h.eq(q[t], X[i, T - 1 - t] - k, "second of three")
            h.eq(s[t], X[i, t] * 2, "third of three")


def direct(h):
    """without any time dimension the function is called as it is"""
    got = []

    def f(*args, **kwargs):
        return None

    def g(x, y, k=2.0):
        got.append((x, y, k))
        return "result"

    X = h.array("x", 3, -100, 100)
    kind = h.choose("kind", ["array", "list", "float", "da"])
    x = {"array": X, "list": [1, 2, 3], "float": 2.5, "da": xr.DataArray(X, dims="cml_id")}[kind]
    r = h.call(wrapper()(g), x, y=5)
    h.equal_obj(r, "result", "result")
    h.true(len(got) == 1 and got[0][0] is x and got[0][1:] == (5, 2.0), "arguments")


def labels(h):
    """values of different links are never combined, whatever the order of the links"""
    T = 2
    X, Y = h.array("x", (2, T), -100, 100), h.array("y", (2, T), -100, 100)
    c = {"cml_id": ["b", "a"], "time": times(T)}
    x = xr.DataArray(X, dims=("cml_id", "time"), coords=c)
    y = xr.DataArray(Y, dims=("cml_id", "time"), coords=c)
    y = y.isel(cml_id=[1, 0]) if h.fork("swap links") else y.isel(time=[1, 0])
    r, exc = h.attempt(wrapper()(series), x, y)
    if exc is not None:
        h.true(isinstance(exc, ValueError), "refused with ValueError")
        return
    for i, n in enumerate("ba"):
        e = ref(list(X[i]), list(Y[i]), 2.0)
        for t in range(T):
            h.eq(r.sel(cml_id=n, time=c["time"][t]).data, e[t], "value")


def other_labels(h):
    """arguments that are not for the same time stamps and links are refused"""
    X, Y = h.array("x", (2, 3), -100, 100), h.array("y", (2, 3), -100, 100)
    c = {"cml_id": ["b", "a"], "time": times(3)}
    x = xr.DataArray(X, dims=("cml_id", "time"), coords=c)
    y = xr.DataArray(Y, dims=("cml_id", "time"), coords=c)
    k = h.choose("other", ["fewer times", "fewer times first", "later", "fewer links", "another link"])
    if k == "fewer times":
        y = y.isel(time=slice(0, 2))
    elif k == "fewer times first":
        x = x.isel(time=slice(1, 3))
    elif k == "later":
        y = y.assign_coords(time=times(4)[1:])
    elif k == "fewer links":
        y = y.isel(cml_id=[0])
    else:
        y = y.assign_coords(cml_id=["b", "c"])
    h.raises(ValueError, wrapper()(series), x, y, label="different labels refused")


def refused(h):
    """a call the plain function does not accept is not accepted with labelled arrays either"""
    X = h.array("x", (2, 2), -100, 100)
    c = {"cml_id": ["b", "a"], "time": times(2)}
    x = xr.DataArray(X, dims=("cml_id", "time"), coords=c)
    k = h.choose("call", range(6))
    f = wrapper()(series)
    pos, kw = [
        ((x, x), {"kk": 3.0}),
        ((x, x, 2.0, None, 7), {}),
        ((x,), {}),
        ((x, x), {"x": x}),
        ((), {"x": x, "k": 2.0}),
        ((x, x, 2.0), {"M": 1}),
    ][k]
    h.raises(TypeError, f, *pos, label="call not accepted", **kw)


def same(w, e):
    if e is None or w is None:
        return w is e
    return bool(np.all(w == e)) or bool(w != w and e != e)


def explicit(h):
    """an argument given by the caller is what the function gets, also None, False, 0 or an empty text"""
    got = []

    def f(x, a=1.5, b="mean", c=True):
        got.append((a, b, c))
        return x * 2.0

    X = h.array("x", 3, -100, 100)
    x = xr.DataArray(X, dims="time", coords={"time": times(3)})
    v = h.choose("value", [None, False, 0, "", 0.0, np.nan])
    which = h.choose("argument", ["a", "b", "c"])
    exp = {"a": 1.5, "b": "mean", "c": True, which: v}
    if h.fork("by position"):
        n = "abc".index(which)
        r = h.call(wrapper()(f), x, *[exp[k] for k in "abc"[: n + 1]])
    else:
        r = h.call(wrapper()(f), x=x, **{which: v})
    h.true(len(got) >= 1, "called")
    for g in got:
        for k, w in zip("abc", g):
            e = exp[k]
            h.true(np.bool_(same(w, e)), "argument " + k)
    for t in range(3):
        h.eq(r.data[t], X[t] * 2, "value")


def name_kept(h):
    f = wrapper()(series)
    h.equal_obj(f.__name__, "series", "name")
    h.equal_obj(f.__doc__, series.__doc__, "docstring")


def cases(tier):
    return [
        Case("time only", nd(("time",), False)),
        Case("links", nd(("cml_id", "time"), True)),
        Case("links and channels", nd(("cml_id", "channel_id", "time"), True)),
        Case("one time step", nd(("cml_id", "time"), True, (1, 2))),
        Case("one link", nd(("cml_id", "time"), True, (2, 1))),
        Case("one link, one time step", nd(("cml_id", "time"), True, (1, 1))),
        Case("a single value", nd(("time",), False, (1, 1))),
        Case("a longer series", nd(("cml_id", "time"), False, (40, 2))),
        Case("many links", nd(("cml_id", "time"), False, (2, 130)), history=False),
        Case("value per link", per_link),
        Case("time independent array", scalar_time),
        Case("argument binding", binding),
        Case("explicit values", explicit),
        Case("refused arguments", refused),
        Case("outputs", outputs),
        Case("no time dimension", direct),
        Case("labels", labels),
        Case("other labels", other_labels),
        Case("name", name_kept),
    ]
