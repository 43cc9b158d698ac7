"""Distances between the end points of all links."""
import numpy as np
import xarray as xr

from pycomlink.processing.wet_dry import nearby_wetdry as N
from pycomlink.spatial import helper as HLP
from symx.harness import Case
from props.util import gc_stub

FUNCTIONS = ["processing.wet_dry.nearby_wetdry.calc_distance_between_cml_endpoints"]
BOUNDS = "2 and 3 links with symbolic end point positions (also identical positions), ids as strings or unordered integers, coordinates as arrays, lists or DataArrays"
OUTSIDE = "larger networks; the great circle formula itself (property on distances)"
STUBS = ["the great circle distance is an uninterpreted symmetric function in the encoding; replays use the real one"]
BUDGET = {"quick": 200, "thorough": 1200}
VARS = {"a_to_all_a": "aa", "a_to_all_b": "ab", "b_to_all_a": "ba", "b_to_all_b": "bb"}


def dist(ids, kind):
    n = len(ids)

    def fn(h):
        c = {k: h.array(k, n, -80, 80) for k in ("alat", "alon", "blat", "blon")}
        p = dict(c)
        if kind == "list":
            p = {k: list(v) for k, v in c.items()}
        elif kind == "da":
            p = {k: xr.DataArray(v, dims="cml_id", coords={"cml_id": ids}) for k, v in c.items()}
        ds = h.call(N.calc_distance_between_cml_endpoints, np.array(ids), p["alat"], p["alon"], p["blat"], p["blon"])
        h.equal_obj(sorted(ds.data_vars), sorted(VARS), "variables")
        h.equal_obj(list(ds.cml_id1.values), list(ids), "ids")
        h.equal_obj(list(ds.cml_id2.values), list(ids), "ids")
        for v, (e1, e2) in VARS.items():
            h.observe(v, ds[v].transpose("cml_id1", "cml_id2"))
            for i in range(n):
                for j in range(n):
                    r = ds[v].sel(cml_id1=ids[i], cml_id2=ids[j]).data
                    if i == j:
                        h.eq(r, 0.0, "%s of a link to itself" % v)
                    else:
                        e = h.call(HLP.haversine, c[e1 + "lon"][i], c[e1 + "lat"][i], c[e2 + "lon"][j], c[e2 + "lat"][j])
                        h.eq(r, e, "%s from %s to %s" % (v, ids[i], ids[j]), tol=1e-6, ctol=1e-2)

    return fn


def large_network(h):
    network(h, 71)


def network(h, n=12):
    """a larger network: fixed positions, one site free"""
    ids = ["L%d" % ((i * 7) % n) for i in range(n)]
    c = {"alat": [47.0 + i * 0.0625 for i in range(n)], "alon": [10.0 + (i * 5 % 12) * 0.125 for i in range(n)]}
    c["blat"] = [v + 0.03 * (k % 3 - 1) for k, v in enumerate(c["alat"])]
    c["blon"] = [v - 0.05 * (k % 4) for k, v in enumerate(c["alon"])]
    k = h.choose("site", ["alat", "alon", "blat", "blon"])
    c[k][8] = h.real("position", 9, 60)
    p = {a: h.mk(v) for a, v in c.items()}
    ds = h.call(N.calc_distance_between_cml_endpoints, np.array(ids), p["alat"], p["alon"], p["blat"], p["blon"])
    h.equal_obj(list(ds.cml_id1.values), list(ids), "ids")
    h.equal_obj(list(ds.cml_id2.values), list(ids), "ids")
    for v, (e1, e2) in VARS.items():
        m = ds[v].transpose("cml_id1", "cml_id2").data
        for i in range(n):
            for j in range(n):
                if i == j:
                    h.eq(m[i, j], 0.0, "%s of a link to itself" % v)
                elif 8 in (i, j) or (i + j) % 3 == 0:
                    e = HLP.haversine(c[e1 + "lon"][i], c[e1 + "lat"][i], c[e2 + "lon"][j], c[e2 + "lat"][j])
                    h.eq(m[i, j], e, "%s from %s to %s" % (v, ids[i], ids[j]), tol=1e-6, ctol=1e-2)


def close(h):
    """ends of different links at nearly the same place: the distance is small, but not 0"""
    off = h.choose("offset", [1e-7, 1e-5, 1e-4, 4e-4, 1e-3, 0.01, 0.05])
    ids = ["u", "v", "w"]
    x = h.real("position", 9, 60)
    c = {"alat": [50.0, 50.0 + off, 50.0], "alon": [8.0, 8.0, 8.0 + off], "blat": [50.0 - off, x, 50.0 + off], "blon": [8.0 + off, 8.0, 8.0]}
    p = {a: h.mk(v) for a, v in c.items()}
    ds = h.call(N.calc_distance_between_cml_endpoints, np.array(ids), p["alat"], p["alon"], p["blat"], p["blon"])
    for v, (e1, e2) in VARS.items():
        m = ds[v].transpose("cml_id1", "cml_id2").data
        for i in range(3):
            for j in range(3):
                if i != j and (v == "b_to_all_b" or (i, e1) != (1, "b") and (j, e2) != (1, "b")):
                    e = HLP.haversine(c[e1 + "lon"][i], c[e1 + "lat"][i], c[e2 + "lon"][j], c[e2 + "lat"][j])
                    h.eq(m[i, j], e, "%s from %s to %s" % (v, ids[i], ids[j]), tol=1e-9, ctol=1e-7)


def cases(tier):
    cs = [
        Case("arrays", dist(["a", "b"], "np"), sym_stubs=gc_stub),
        Case("lists", dist([7, 3], "list"), sym_stubs=gc_stub),
        Case("one link", dist(["a"], "np"), sym_stubs=gc_stub),
        Case("ids differing in case", dist(["a1", "A1", "a1 "], "np"), sym_stubs=gc_stub),
        Case("ids with leading zeros", dist(["1", "01", "1.0"], "da"), sym_stubs=gc_stub),
        Case("network", network, sym_stubs=gc_stub, bounds="12 links, one symbolic site"),
        Case("large network", large_network, sym_stubs=gc_stub, bounds="71 links, one symbolic site", history=False),
        Case("neighbouring sites", close, sym_stubs=gc_stub, bounds="3 links, offsets of 1 cm to 5 km"),
        Case("dataarrays", dist(["x", "c", "m"], "da"), sym_stubs=gc_stub),
    ]
    if tier != "quick":
        cs.append(Case("four links", dist([4, 9, 1, 2], "np"), sym_stubs=gc_stub))
    return cs
