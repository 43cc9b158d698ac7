"""Wet/dry inference with the tensorflow CNN: which window decides about which link and time step."""
import atexit
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import sklearn.preprocessing
import xarray as xr

from pycomlink.processing.tensorflow_utils import inference_utils as I, lazy_tf, run_inference as R
from symx.harness import Case
from props.util import times, total, sqrt

FUNCTIONS = ["processing.tensorflow_utils.run_inference.wet_dry_1d_cnn", "processing.tensorflow_utils.inference_utils.create_samples", "processing.tensorflow_utils.inference_utils.scale_features",
             "processing.tensorflow_utils.inference_utils.run_inference", "processing.tensorflow_utils.inference_utils.store_predictions",
             "processing.tensorflow_utils.inference_utils.load_model_from_local"]
BOUNDS = "1-3 links, 1-2 input variables, 4-7 time steps (182 with the default window), windows of 2-4 steps, samples symbolic (up to three possibly missing); the network is replaced by a generic function of its input"
OUTSIDE = "the numbers a trained network returns; series without any complete window"
ASSUMPTIONS = ["model.predict maps every sample by itself", "StandardScaler subtracts the mean and divides by the standard deviation (by 1 where that is 0)"]
STUBS = ["tensorflow: a module with model_from_json and SGD whose model is the generic function", "symbolic mode: sklearn StandardScaler by its contract"]
BUDGET = {"quick": 300, "thorough": 1800}
RS = np.random.RandomState(7)
WT = [[float(x) / 8 for x in RS.randint(9, 99, 200)] for _ in range(3)]
_TMP = []


def tmp():
    if not _TMP or _TMP[0][0] != os.getpid():
        d = tempfile.mkdtemp(prefix="vp_c21_")
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        for n, txt in (("m.json", "{}"), ("m.weights.h5", "")):
            with open(os.path.join(d, n), "w") as f:
                f.write(txt)
        _TMP[:] = [(os.getpid(), d)]
    return _TMP[0][1]


def gen(win, n, seq):
    return total([0.25] + [WT[i][j] * win(j, i) for j in range(seq) for i in range(n)])


class Model:
    def load_weights(self, p, **k):
        if not os.path.exists(p):
            raise OSError(p)

    def compile(self, *a, **k):
        pass

    def predict(self, x, batch_size=None, verbose=None, **k):
        from symx import arr

        out = [[gen(lambda j, i: x[r, j, i], x.shape[2], x.shape[1])] for r in range(x.shape[0])]
        if isinstance(x, arr.SymArray):
            return arr.wrap(out, np.dtype(np.float32))
        return np.array(out, dtype=np.float32)

    __call__ = predict


def fake_tf():
    t = types.ModuleType("tensorflow")
    ns = types.SimpleNamespace
    t.config = ns(list_physical_devices=lambda *a: [])
    t.keras = ns(models=ns(model_from_json=lambda s: Model()), optimizers=ns(SGD=lambda **k: "sgd", legacy=ns(SGD=lambda **k: "sgd")))
    t.__version__ = "2.15.0"
    return t


def stubs():
    return [(sys.modules, "tensorflow", fake_tf()), (lazy_tf, "tf", None)]


def moments(xs):
    n = len(xs)
    m = total(xs) / n
    return m, total([(x - m) * (x - m) for x in xs]) / n


class Scaler:
    """contract of sklearn.preprocessing.StandardScaler for symbolic data"""

    def __init__(self, **k):
        if k:
            from symx.core import Unsupported

            raise Unsupported("StandardScaler(%s)" % ", ".join(k))

    def fit(self, X, y=None):
        self.m, self.s = [], []
        for c in range(X.shape[1]):
            m, v = moments([X[r, c] for r in range(X.shape[0])])
            s = sqrt(v)
            self.m.append(m)
            self.s.append(1.0 if bool(s == 0) else s)
        return self

    def transform(self, X):
        from symx import arr

        return arr.wrap([[(X[r, c] - self.m[c]) / self.s[c] for c in range(X.shape[1])] for r in range(X.shape[0])], np.dtype(float))

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def sym_stubs():
    out = [(sklearn.preprocessing, "StandardScaler", Scaler)]
    for m in (I, R):
        if hasattr(m, "StandardScaler"):
            out.append((m, "StandardScaler", Scaler))
    return out


BASE = np.array([[1.0, 3.5, -2.0, 0.5, 4.0, -1.5, 2.5], [0.5, -2.5, 1.5, 3.0, -0.5, 6.0, 1.0], [2.0, 2.5, -1.0, 0.0, 5.0, 1.5, -3.0]])


def predict(T, n, nv, seq, sym, nans, idc="cml_id", names=("tl1", "tl2"), ids=None, sub=None, dims=None, **kw):
    def fn(h):
        ids_ = ids or ["b", "ba", "a_link_with_a_long_name"][:n]
        V = []
        for v in range(nv):
            x = h.const(np.array([[BASE[(l + v) % 3, t % 7] * (1 + v) + t // 7 for t in range(T)] for l in range(n)]))
            for (vv, l, t) in list(sym) + list(nans):
                if vv == v:
                    x[l, t] = h.real("%s[%d,%d]" % (names[v], l, t), -8, 8, nan=(vv, l, t) in nans)
            V.append(x)
        d = dims or (idc, "time")
        ds = xr.Dataset({names[v]: xr.DataArray(V[v], dims=(idc, "time"), coords={idc: ids_, "time": times(T)}).transpose(*d) for v in range(nv)})
        ds["other"] = ((idc,), np.arange(n) * 1.5)
        kk = dict(kw)
        if idc != "cml_id":
            kk["id_coord"] = idc
        if names != ("tl1", "tl2") or nv != 2:
            kk["input_vars"] = list(names[:nv])
        if seq != 180:
            kk["seq_len"] = seq
        if sub is not None:
            kk["cml_ids"] = sub
        p = tmp()
        out = h.call(R.wet_dry_1d_cnn, ds, json_url=os.path.join(p, "m.json"), weights_url=os.path.join(p, "m.weights.h5"), cache_dir=os.path.join(p, "cache"), **kk)
        name = kw.get("prob_name", "CNN")
        if kw.get("return_ds", True):
            h.equal_obj(set(out.data_vars), set(list(names[:nv]) + ["other", name]), "variables")
            for v in range(nv):
                h.eq(out[names[v]].transpose(idc, "time").data, V[v], "%s kept" % names[v])
            pr = out[name]
        else:
            pr = out
        h.equal_obj(set(pr.dims), {"time", idc}, "dims")
        h.equal_obj(list(pr[idc].values), list(ids_), "links")
        used = [l for l in range(n) if sub is None or ids_[l] in sub]
        miss = [[[bool(h.isnan(V[v][l, t])) for t in range(T)] for l in range(n)] for v in range(nv)]
        ok = [(l, t) for l in used for t in range(seq - 1, T) if not any(miss[v][l][s] for v in range(nv) for s in range(t - seq + 1, t + 1))]
        sc = []
        for v in range(nv):
            m, var = moments([V[v][l, s] for l, t in ok for s in range(t - seq + 1, t + 1)])
            sd = sqrt(var)
            sc.append((m, 1.0 if bool(sd == 0) else sd))
        for l in range(n):
            x = pr.sel({idc: ids_[l]}).data
            for t in range(T):
                if (l, t) in ok:
                    e = gen(lambda j, i: (V[i][l, t - seq + 1 + j] - sc[i][0]) / sc[i][1], nv, seq)
                    h.eq(x[t], e, "prediction of link %s at %d" % (ids_[l], t), tol=0.05, ctol=0.02)
                else:
                    h.true(h.isnan(x[t]), "no prediction of link %s at %d" % (ids_[l], t))

    return fn


def constant(h):
    """a variable which never changes is 0 for the network, the other one keeps its shape"""
    T, seq = 5, 3
    x = h.const(np.array([BASE[0, :T], BASE[1, :T]]))
    x[0, 1] = h.real("x", -8, 8)
    k = h.choose("value", [0.0, 5.0, -50.25])
    y = h.const(np.full((2, T), k))
    ds = xr.Dataset({"tl1": (("cml_id", "time"), x), "tl2": (("cml_id", "time"), y)}, coords={"cml_id": ["b", "a"], "time": times(T)})
    p = tmp()
    out = h.call(R.wet_dry_1d_cnn, ds, json_url=os.path.join(p, "m.json"), weights_url=os.path.join(p, "m.weights.h5"), cache_dir=os.path.join(p, "cache"), seq_len=seq)
    m, v = moments([x[l, s] for l in range(2) for t in range(seq - 1, T) for s in range(t - seq + 1, t + 1)])
    sd = sqrt(v)
    for l, n in enumerate("ba"):
        for t in range(T):
            r = out.CNN.sel(cml_id=n).data[t]
            if t < seq - 1:
                h.true(h.isnan(r), "no prediction of link %s at %d" % (n, t))
            else:
                h.eq(r, gen(lambda j, i: 0.0 if i else (x[l, t - seq + 1 + j] - m) / sd, 2, seq), "prediction of link %s at %d" % (n, t), tol=0.05, ctol=0.02)


def store_case(use):
    def fn(h):
        tm = times(3)
        ids = [7, 2, 5]
        ds = xr.Dataset({"x": (("time", "cml_id"), np.zeros((3, 3)))}, coords={"time": tm, "cml_id": ids})
        ent = [(7, 1), (2, 2), (9, 0), (7, 0), (2, 0)]
        p = h.array("p", 5, 0, 1)
        order = h.choose("order", [[0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [3, 4, 1, 0, 2]])
        out = h.call(I.store_predictions, ds, p, np.array([ent[k][0] for k in order]), np.array([ent[k][1] for k in order]), **({} if use is None else {"cml_ids_to_use": use}))
        exp = {ent[k]: p[pos] for pos, k in enumerate(order)}
        o = out.transpose("time", "cml_id").data
        for t in range(3):
            for i in range(3):
                e = exp.get((ids[i], t)) if use is None or ids[i] in use else None
                if e is None:
                    h.true(h.isnan(o[t, i]), "no prediction at %d,%d" % (t, i))
                else:
                    h.eq(o[t, i], e, "prediction at %d,%d" % (t, i), tol=1e-5, ctol=1e-6)

    return fn


def mismatch(h):
    ds = xr.Dataset({"x": (("time", "cml_id"), np.zeros((3, 1)))}, coords={"time": times(3), "cml_id": ["a"]})
    p = h.array("p", 2, 0, 1)
    k = h.choose("kind", [0, 1])
    a, b = (["a"], [0, 1]) if k else (["a", "a"], [0])
    h.raises(ValueError, I.store_predictions, ds, p, a, b, label="different lengths rejected")


def samples(h):
    """every window without missing value, labelled by link and index of its last step"""
    T, seq = 5, h.choose("seq_len", [1, 3, 5, 6])
    x = h.array("x", (2, T), -8, 8, nan=lambda ix: ix in ((0, 1), (1, 4)))
    y = h.array("y", (2, T), -8, 8, nan=lambda ix: ix in ((0, 4),))
    ds = xr.Dataset({"u": (("cml_id", "time"), x), "w": (("cml_id", "time"), y)}, coords={"cml_id": ["b", "a"], "time": times(T)})
    X, ids, t = h.call(I.create_samples, ds, h.choose("ids", [["b", "a"], ["a", "missing", "b"]]), ["u", "w"], seq_len=seq)
    exp = {}
    for l, c in enumerate("ba"):
        for e in range(seq - 1, T):
            if not any(bool(h.isnan(z[l, s])) for z in (x, y) for s in range(e - seq + 1, e + 1)):
                exp[(c, e)] = l
    h.equal_obj(sorted(zip([str(i) for i in ids], [int(i) for i in t])), sorted(exp), "links and times of the windows")
    for r, (c, e) in enumerate(zip(ids, t)):
        l = exp.get((str(c), int(e)))
        if l is None:
            continue
        for j in range(seq):
            h.eq(X[r, j, 0], x[l, int(e) - seq + 1 + j], "first variable")
            h.eq(X[r, j, 1], y[l, int(e) - seq + 1 + j], "second variable")


def unknown_id(h):
    ds = xr.Dataset({"tl1": (("cml_id", "time"), np.zeros((1, 3)))}, coords={"cml_id": ["a"], "time": times(3)})
    h.raises(KeyError, R.wet_dry_1d_cnn, ds, id_coord="nothing", label="unknown ID coordinate rejected")


def cases(tier):
    q = tier == "quick"
    mk = lambda n, f, **o: Case(n, f, **o, stubs=stubs, sym_stubs=sym_stubs)
    S = [(0, 0, 1), (1, 1, 2)]
    cs = [
        mk("predictions", predict(5, 2, 2, 3, S, [])),
        mk("gaps", predict(6, 2, 1, 2, [], [(0, 0, 2), (0, 1, 3), (0, 1, 5)])),
        mk("gaps in two variables", predict(5, 2, 2, 3, [], [(0, 0, 1), (1, 1, 0)])),
        mk("other names", predict(5, 2, 2, 2, [(0, 0, 1)], [], idc="link", names=("q", "p"), ids=[12, 3])),
        mk("time first", predict(5, 3, 1, 2, [(0, 2, 1)], [], dims=("time", "cml_id"), prob_name="wet")),
        mk("subset", predict(5, 3, 2, 3, [(0, 2, 1), (1, 0, 0)], [(0, 1, 2)], sub=["a_link_with_a_long_name", "b"], return_ds=False)),
        mk("batches", predict(5, 2, 1, 4, [(0, 0, 1)], [], batch_size=1)),
        mk("constant variable", constant),
        mk("one window", predict(3, 2, 2, 3, S, [])),
        mk("default window", predict(182, 1, 2, 180, [(0, 0, 0)], [])),
        mk("many windows", predict(60, 3, 2, 5, [(0, 0, 1), (1, 2, 40)], [(0, 1, 30)])),
        mk("very many windows", predict(700, 3, 2, 3, [], [(0, 1, 300)]), history=False),
        mk("store", store_case(None)),
        mk("store some", store_case([2, 9])),
        mk("different lengths", mismatch),
        mk("samples", samples),
        mk("unknown id coordinate", unknown_id),
    ]
    if not q:
        cs += [mk("long", predict(7, 3, 2, 3, [(0, 0, 1), (1, 2, 2)], [(0, 1, 3), (1, 1, 5)]))]
    return cs
