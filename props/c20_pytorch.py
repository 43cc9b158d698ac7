"""Wet/dry inference with pytorch models: which window decides about which link and time step."""
import numpy as np
import torch
import xarray as xr

from pycomlink.processing.pytorch_utils import inference_utils, pytorch_utils, run_inference as R
from symx.harness import Case
from props import faketorch
from props.util import times

FUNCTIONS = ["processing.pytorch_utils.run_inference.cnn_wd", "processing.pytorch_utils.run_inference.run_inference", "processing.pytorch_utils.run_inference.redistribute_results",
             "processing.pytorch_utils.run_inference.batchify_windows", "processing.pytorch_utils.run_inference.rolling_window",
             "processing.pytorch_utils.pytorch_utils.build_dataloader", "processing.pytorch_utils.pytorch_utils.predict_batch", "processing.pytorch_utils.pytorch_utils.load_model"]
BOUNDS = ("1-3 links, 1-2 channels, 4-8 time steps (181 for the full pipeline), windows of 3-5 steps (180), reflength 2-8 (60), batches of 1-7 windows, all samples symbolic, some possibly NaN; "
          "the network is replaced by a generic function of its input")
OUTSIDE = "the numbers a trained network returns; reflength below 2 or longer than two windows; GPU"
ASSUMPTIONS = ["a model in evaluation mode maps every sample of a batch by itself", "DataLoader(shuffle=False) yields the samples in order"]
STUBS = ["torch.jit.load: returns the generic model", "symbolic mode: torch tensors and DataLoader (props/faketorch.py)"]
BUDGET = {"quick": 300, "thorough": 1800}
RS = np.random.RandomState(3)
WT = [[float(x) / 8 for x in RS.randint(9, 99, 200)] for _ in range(3)]


def gen(win, C, W):
    """generic function of a window, win(channel, step)"""
    s = 3.0
    for c in range(C):
        for j in range(W):
            s = s + WT[c][j] * win(c, j)
    return s


class Model:
    """stands for a scripted network taking (batch, channel, window)"""

    def __init__(self, W, outdim=1, C=None):
        self.window_size, self.outdim, self.C = W, outdim, C

    def eval(self):
        return self

    def __call__(self, x):
        if self.C is not None and tuple(x.shape[1:]) != (self.C, self.window_size):
            raise RuntimeError("input of shape %r, expected (batch, %d, %d)" % (tuple(x.shape), self.C, self.window_size))
        out = []
        sym = isinstance(x, faketorch.Tensor)
        X = x.a if sym else x.detach().numpy().astype(float)
        for i in range(x.shape[0]):
            v = gen(lambda c, j: X[i, c, j], x.shape[1], x.shape[2])
            out.append(v if self.outdim == 1 else [v])
        if sym:
            from symx import arr

            return faketorch.Tensor(arr.wrap(out, np.dtype(float)))
        return torch.tensor(out, dtype=torch.float64)


BOX = {}


def load(path, *a, **k):
    BOX["path"] = str(path)
    return BOX["model"]


def sym_stubs():
    t = faketorch.make(load)
    return [(m, "torch", t) for m in (inference_utils, pytorch_utils, R) if hasattr(m, "torch")]


def stubs():
    return [(torch.jit, "load", load)]


def mkdata(h, T, n, C, nans=(), order="tcl", part=None):
    X = h.array("x", (T, C, n), -8, 8, nan=lambda ix: ix in nans) if part is None else part
    ids = ["b", "ba", "a_link_with_a_long_name"][:n]
    da = xr.DataArray(X, dims=("time", "channel_id", "cml_id"), coords={"time": times(T), "channel_id": np.arange(C), "cml_id": ids}, name="foo")
    if order == "ltc":
        da = da.transpose("cml_id", "time", "channel_id")
    elif order == "tlc":
        da = da.transpose("time", "cml_id", "channel_id")
    return X, ids, da


def verify(h, pred, X, ids, T, C, W, ref, only=None):
    n = len(ids)
    tgt = {s + W - int(ref / 2): s for s in range(T - W + 1)}
    for l in range(n):
        p = pred.sel(cml_id=ids[l]).data
        for t in range(T):
            if t in tgt and 0 <= t:
                s = tgt[t]
                h.eq(p[t], gen(lambda c, j: X[s + j, c, l], C, W), "prediction of link %s at %d" % (ids[l], t), tol=0.05, ctol=0.02)
            else:
                h.true(h.isnan(p[t]), "no prediction of link %s at %d" % (ids[l], t))


def pipeline(T, n, C, W, refs, batches, nans=(), order="tcl", outdim=1):
    def fn(h):
        X, ids, da = mkdata(h, T, n, C, nans, order)
        ref = h.choose("reflength", refs)
        bs = h.choose("batch_size", batches)
        res = h.call(R.run_inference, Model(W, outdim, C), da, batch_size=bs, reflength=ref)
        ds = da.to_dataset(name="TL")
        out = h.call(R.redistribute_results, res, ds)
        h.equal_obj(set(out.predictions.dims), {"time", "cml_id"}, "dims")
        h.equal_obj(list(out.cml_id.values), ids, "links")
        h.observe("pred", out.predictions.transpose("time", "cml_id"))
        verify(h, out.predictions, X, ids, T, C, W, ref)

    return fn


def full(args, ref):
    def fn(h):
        T, n, C, W = 182, 2, 2, 180
        base = np.round(np.random.RandomState(1).rand(T, C, n) * 64) / 8 - 4
        part = h.const(base)
        for k, ix in enumerate([(0, 0, 0), (0, 1, 1), (1, 0, 1), (90, 1, 0), (180, 0, 0), (181, 1, 1)]):
            part[ix] = h.real("x%d" % k, -8, 8)
        X, ids, da = mkdata(h, T, n, C, part=part)
        m = Model(W, 1, C)
        BOX["model"] = m
        BOX["path"] = None
        path = h.choose("path", ["some/dir/model.pt", "model.pt", "/abs/model_x.pt"])
        out = h.call(R.cnn_wd, path, da, **args)
        h.equal_obj(BOX["path"], path, "loaded file")
        h.equal_obj(m.window_size, 180, "window size")
        verify(h, out.predictions, X, ids, T, C, W, ref)
        h.eq(out.TL.transpose("time", "channel_id", "cml_id").data, X, "input kept as TL")

    return fn


def very_many(h):
    many(h, 600)


def many(h, T=40):
    """more windows than a batch of the default size; mostly fixed samples"""
    n, C, W = 3, 2, 4
    part = h.const(np.round(np.random.RandomState(2).rand(T, C, n) * 64) / 8 - 4)
    for k, ix in enumerate([(0, 0, 0), (20, 1, 1), (39, 0, 2)]):
        part[ix] = h.real("x%d" % k, -8, 8, nan=k == 1)
    X, ids, da = mkdata(h, T, n, C, part=part)
    kw = h.choose("arguments", [{"reflength": 4}, {"batch_size": 64, "reflength": 4}, {"batch_size": 37, "reflength": 4}])
    res = h.call(R.run_inference, Model(W, 1, C), da, **kw)
    out = h.call(R.redistribute_results, res, da.to_dataset(name="TL"))
    verify(h, out.predictions, X, ids, T, C, W, 4)


class Plain:
    """a model that does not tell its window size: 180 steps"""

    def __init__(self, C):
        self.C = C

    def eval(self):
        return self

    def __call__(self, x):
        return Model(180, 1, self.C)(x)


def no_window_size(h):
    T, n, C, W = 182, 2, 1, 180
    part = h.const(np.round(np.random.RandomState(4).rand(T, C, n) * 64) / 8 - 4)
    for k, ix in enumerate([(0, 0, 0), (1, 0, 1), (181, 0, 1)]):
        part[ix] = h.real("x%d" % k, -8, 8)
    X, ids, da = mkdata(h, T, n, C, part=part)
    res = h.call(R.run_inference, Plain(C), da)
    out = h.call(R.redistribute_results, res, da.to_dataset(name="TL"))
    verify(h, out.predictions, X, ids, T, C, W, 60)


def windows(h):
    """rolling_window: every complete window once, with the time stamp of its target step"""
    T = 6
    x = h.array("x", T, -8, 8)
    W = h.choose("window", [1, 2, 3, 6, 7])
    ref = h.choose("reflength", [2, 3, 4])
    if int(ref / 2) > W:
        return
    tm = list(range(100, 100 + T))
    w, ts = h.call(R.rolling_window, x, tm, W, ref)
    h.equal_obj(len(w), max(T - W + 1, 0), "number of windows")
    h.equal_obj(len(ts), len(w), "number of time stamps")
    for s in range(len(w)):
        h.equal_obj(ts[s], tm[s + W - int(ref / 2)], "time stamp %d" % s)
        h.equal_obj(len(w[s]), W, "window length")
        for j in range(W):
            h.eq(w[s][j], x[s + j], "window %d" % s)


def windows_default(h):
    """the target step lies half of 60 steps before the end of the window"""
    T, W = 34, 32
    x = h.array("x", T, -8, 8)
    w, ts = h.call(R.rolling_window, x, list(range(100, 100 + T)), W)
    h.equal_obj([int(t) for t in ts], [100 + s + W - 30 for s in range(T - W + 1)], "time stamps")


def redistribute(h):
    """predictions are stored by link and time stamp, in whatever order they come; unknown links and times are skipped"""
    tm = times(3)
    ids, nobody = h.choose("links", [([7, 2], 9), ([7, 2], 5), ([7, 2], 1), ([2, 7], 70)])
    ds = xr.Dataset({"TL": (("time", "cml_id"), h.array("x", (3, 2), -8, 8))}, coords={"time": tm, "cml_id": ids})
    other = h.choose("unknown time", [np.datetime64("2031-01-01", "ns"), np.datetime64("1999-01-01", "ns"), tm[0].to_datetime64() + np.timedelta64(20, "s"), tm[2].to_datetime64() - np.timedelta64(1, "ns")])
    entries = [(7, tm[1].to_datetime64()), (2, tm[2].to_datetime64()), (nobody, tm[0].to_datetime64()), (7, other), (2, tm[0].to_datetime64())]
    p = h.array("p", 5, 0, 1)
    order = h.choose("order", [[0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [3, 4, 1, 0, 2]])
    res = {"predictions": p, "cml_ids": np.array([entries[k][0] for k in order]), "times": np.array([entries[k][1] for k in order])}
    out = h.call(R.redistribute_results, res, ds)
    pr = out.predictions.transpose("time", "cml_id")
    exp = {}
    for pos, k in enumerate(order):
        exp[entries[k]] = p[pos]
    for t in range(3):
        for i in range(2):
            e = exp.get((ids[i], tm[t].to_datetime64()))
            if e is None:
                h.true(h.isnan(pr.data[t, i]), "no prediction at %d,%d" % (t, i))
            else:
                h.eq(pr.data[t, i], e, "prediction at %d,%d" % (t, i))


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f, **o: Case(n, f, **o, stubs=stubs, sym_stubs=sym_stubs)
    cs = [
        mk("pipeline", pipeline(6, 2, 2, 3, [2, 4, 6], [1, 3, 4, 7])),
        mk("pipeline one channel", pipeline(5, 3, 1, 3, [2, 3], [2, 5])),
        mk("pipeline gaps", pipeline(5, 2, 1, 3, [2], [2], nans=[(1, 0, 0), (4, 0, 1)])),
        mk("pipeline links first", pipeline(5, 2, 2, 4, [4, 8], [3], order="ltc")),
        mk("pipeline output column", pipeline(4, 2, 1, 3, [2], [32], outdim=2)),
        mk("pipeline single window", pipeline(4, 2, 2, 4, [2, 8], [1, 32], order="tlc")),
        mk("pipeline many windows", many),
        mk("pipeline very many windows", very_many, history=False),
        mk("cnn_wd", full({}, 60)),
        mk("cnn_wd arguments", full({"batch_size": 3, "reflength": 80}, 80)),
        mk("model without window size", no_window_size),
        mk("windows", windows),
        mk("windows default", windows_default),
        mk("redistribute", redistribute),
    ]
    if not q:
        cs.append(mk("pipeline long", pipeline(12, 3, 2, 5, [2, 3, 4, 5, 8, 10], [1, 2, 3, 5, 8, 11, 64])))
    return cs
