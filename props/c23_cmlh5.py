"""Reading cmlh5 files."""
import os
import shutil
import tempfile

import h5py
import numpy as np

from pycomlink.io import cmlh5_to_xarray as M
from pycomlink.spatial import helper
from symx.harness import Case
from props.util import gc_stub

FUNCTIONS = ["io.cmlh5_to_xarray.read_cmlh5_file_to_xarray", "spatial.helper.haversine"]
BOUNDS = "files with 1-3 links, 1-2 channels each (in any order of names), 2-3 time steps; signal levels, coordinates and frequencies symbolic, levels possibly NaN; time stamps from a list with fractional seconds"
OUTSIDE = "longer files, other cmlh5 versions"
STUBS = ["symbolic mode: h5py.File as a tree of groups with attributes", "symbolic mode: great circle distance as an uninterpreted symmetric function"]
BUDGET = {"quick": 200, "thorough": 900}


class Data:
    def __init__(self, x):
        self.x, self.attrs = x, {}

    shape = property(lambda s: s.x.shape)
    dtype = property(lambda s: s.x.dtype)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, ix):
        return self.x if ix == () or ix is Ellipsis else self.x[ix]

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.x)


class Group:
    def __init__(self, items, attrs):
        self.d, self.attrs = dict(sorted(items.items())), attrs  # h5py lists names in alphabetic order

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        g = self
        for p in k.strip("/").split("/"):
            g = g.d[p]
        return g

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


TREE = {}


class File:
    def __new__(cls, name=None, mode="r", **k):
        return TREE[os.path.basename(str(name))]


def sym_stubs():
    out = [(h5py, "File", File)] + gc_stub()
    out += [(M, n, out[-1][2]) for n, v in list(vars(M).items()) if v is helper.haversine]
    if getattr(M, "File", None) is not None:
        out.append((M, "File", File))
    return out


TIMES = [[1475884800.0, 1475884860.0, 1475884920.0], [1475884800.5, 1475884861.25, 1475884919.75], [0.0, 1.0, 2.0], [1600000000.0, 1600000001.0, 1600000003.0]]


def dt(x):
    return np.datetime64("1970-01-01T00:00:00", "ns") + np.timedelta64(int(round(x * 1000)), "ms")


def stamps(x):
    """rounded to microseconds (seconds since 1970 are stored as floats)"""
    return [(np.datetime64(v, "ns") + np.timedelta64(500, "ns")).astype("datetime64[us]").astype("datetime64[ns]") for v in x]


def write(path, spec):
    with h5py.File(path, "w") as f:
        for gname, g in spec.items():
            G = f.create_group(gname)
            for k, v in g["attrs"].items():
                G.attrs[k] = v
            for cname, c in g["channels"].items():
                C = G.create_group(cname)
                for k, v in c["attrs"].items():
                    C.attrs[k] = v
                for k, v in c["data"].items():
                    C[k] = v


def tree(spec):
    out = {}
    for gname, g in spec.items():
        chs = {}
        for cname, c in g["channels"].items():
            chs[cname] = Group({k: Data(v) for k, v in c["data"].items()}, c["attrs"])
        out[gname] = Group(chs, g["attrs"])
    return Group(out, {})


def long_file(T):
    """Two channels of T steps, the second one starting later; a few levels symbolic."""

    def fn(h):
        chs = {}
        for k, c in enumerate(("channel_1", "channel_2")):
            lv = {}
            for n in ("tx", "rx"):
                x = h.const((np.arange(T) * 7 % 113) / 4.0 - (60 if n == "rx" else 0) + 0.1)
                for i in sorted({0, 1, T // 3, T // 2, T - 2, T - 1}):
                    x[i] = h.real("%s[%d,%d]" % (n, k, i), -100, 40)
                lv[n] = x
            chs[c] = {"attrs": {"frequency": h.real("f[%d]" % k, 1e9, 9e10), "polarization": "V", "channel_id": "x", "atpc": "NA"},
                      "data": {"tx": lv["tx"], "rx": lv["rx"], "time": 1475884800.0 + 60.0 * (np.arange(T) + 10 * k)}}
        at = {"cml_id": "L7", "site_a_latitude": 48.07, "site_b_latitude": 48.1, "site_a_longitude": 11.03, "site_b_longitude": 11.1}
        spec = {"cml_0": {"attrs": at, "channels": chs}}
        tmp = None
        try:
            if h.symbolic:
                TREE["file.h5"] = tree(spec)
                path = "/nonexistent/file.h5"
            else:
                tmp = tempfile.mkdtemp(prefix="vp_c23_")
                path = os.path.join(tmp, "file.h5")
                write(path, spec)
            (ds,) = h.call(M.read_cmlh5_file_to_xarray, path)
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        st = stamps(ds.time.values)
        h.equal_obj(st, [dt(1475884800.0 + 60.0 * t) for t in range(T + 10)], "time stamps")
        for n in at:
            h.equal_obj(set(np.ravel(ds[n].values).tolist()), {at[n]}, n)
        for k, c in enumerate(("channel_1", "channel_2")):
            x = ds.sel(channel_id=c)
            for v, n in (("tsl", "tx"), ("rsl", "rx")):
                a = x[v].transpose("time").data
                for t in range(T + 10):
                    if 10 * k <= t < T + 10 * k:
                        h.eq(a[t], chs[c]["data"][n][t - 10 * k], "%s of %s" % (v, c))
                    else:
                        h.true(h.isnan(a[t]), "%s of %s missing" % (v, c))

    return fn


def reading(links, chans, T, tsets, nan=False, shift=0):
    def fn(h):
        spec = {}
        for i, (g, cid) in enumerate(links):
            lat = lambda s: h.real("%s_lat[%d]" % (s, i), -80, 80)
            lon = lambda s: h.real("%s_lon[%d]" % (s, i), -180, 180)
            at = {"cml_id": cid, "site_a_latitude": lat("a"), "site_b_latitude": lat("b"), "site_a_longitude": lon("a"), "site_b_longitude": lon("b")}
            ch = {}
            for k, c in enumerate(chans[i]):
                tm = TIMES[tsets[i]][:T]
                if shift and k:
                    tm = [x + shift for x in tm]
                nn = lambda ix: nan and ix[0] == 0
                ch[c] = {"attrs": {"frequency": h.real("f[%d,%s]" % (i, c), 1e9, 9e10), "polarization": ["V", "Horizontal", "h", "vertical", "H"][(i + k) % 5], "channel_id": "x", "atpc": "NA"},
                         "data": {"tx": h.array("tx[%d,%s]" % (i, c), T, -20, 40, nan=nn), "rx": h.array("rx[%d,%s]" % (i, c), T, -100, 0, nan=nn), "time": np.array(tm)}}
            spec[g] = {"attrs": at, "channels": ch}
        tmp = None
        try:
            if h.symbolic:
                TREE["file.h5"] = tree(spec)
                path = "/nonexistent/file.h5"
            else:
                tmp = tempfile.mkdtemp(prefix="vp_c23_")
                path = os.path.join(tmp, "file.h5")
                write(path, spec)
            out = h.call(M.read_cmlh5_file_to_xarray, path)
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        h.equal_obj(len(out), len(links), "one dataset per link")
        byid = {}
        for ds in out:
            byid[str(np.ravel(ds.cml_id.values)[0])] = ds
        h.equal_obj(set(byid), {c for _, c in links}, "link ids")
        for i, (g, cid) in enumerate(links):
            ds = byid[cid]
            G = spec[g]
            h.equal_obj(sorted(ds.channel_id.values.ravel().tolist()), sorted(chans[i]), "channels")
            for k, c in enumerate(chans[i]):
                x = ds.sel(channel_id=c)
                C = G["channels"][c]
                own = [dt(v) for v in C["data"]["time"]]
                h.true(set(own) <= set(stamps(x.time.values)), "time stamps")
                for t, stamp in enumerate(stamps(x.time.values)):
                    for v, n in (("tsl", "tx"), ("rsl", "rx")):
                        a = x[v].transpose("time").data[t]
                        if stamp in own:
                            h.eq(a, C["data"][n][own.index(stamp)], "%s of %s %s" % (v, cid, c))
                        else:
                            h.true(h.isnan(a), "%s of %s %s missing" % (v, cid, c))
                one = lambda n: np.ravel(x[n].data)[0] if not h.symbolic else x[n].data.reshape(-1)[0] if getattr(x[n].data, "shape", None) is not None else x[n].data
                h.eq(one("frequency"), C["attrs"]["frequency"] / 1e9, "frequency in GHz")
                h.equal_obj(str(np.ravel(x.polarization.values)[0]), C["attrs"]["polarization"], "polarization")
                for n in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                    h.eq(one(n), G["attrs"][n], n)
                at = G["attrs"]
                h.eq(one("length"), helper.haversine(at["site_a_longitude"], at["site_a_latitude"], at["site_b_longitude"], at["site_b_latitude"]), "length is the great circle distance of the sites")

    return fn


def cases(tier):
    mk = lambda n, f: Case(n, f, sym_stubs=sym_stubs)
    return [
        mk("one link", reading([("cml_0", "L7")], [["channel_1", "channel_2"]], 2, [0], nan=True)),
        mk("fractional seconds", reading([("cml_0", "L7")], [["channel_1"]], 3, [1])),
        mk("several links", reading([("cml_0", "L7"), ("cml_10", "A"), ("cml_2", "K")], [["channel_1"], ["channel_2", "channel_1"], ["b"]], 2, [0, 2, 3])),
        mk("many channels", reading([("cml_0", "L7")], [["channel_1", "channel_10", "channel_2", "channel_11"]], 2, [0])),
        mk("many links", reading([("cml_%d" % i, "id%d" % (i * 7 % 12)) for i in range(12)], [["channel_%d" % (1 + i % 2)] + (["channel_3"] if i % 3 == 0 else []) for i in range(12)], 1, [i % 4 for i in range(12)])),
        mk("long file", long_file(5000)),
        mk("channels with different times", reading([("cml_0", "L7")], [["channel_1", "channel_2"]], 2, [0], shift=60)),
    ]
