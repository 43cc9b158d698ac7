"""Model cache: what is loaded after any history of downloads, failures and crashes."""
import contextlib
import io
import os
import shutil
import tempfile
import urllib.error
import urllib.request

import numpy as np
import torch

from pycomlink.processing.pytorch_utils import inference_utils as P, pytorch_utils as PU
from pycomlink.processing.tensorflow_utils import inference_utils as F
from symx.harness import Case

FUNCTIONS = ["processing.pytorch_utils.inference_utils.download_and_cache_model", "processing.pytorch_utils.inference_utils.get_model",
             "processing.pytorch_utils.inference_utils.list_cached_models", "processing.pytorch_utils.inference_utils.clear_model_cache",
             "processing.tensorflow_utils.inference_utils.download_and_cache", "processing.tensorflow_utils.inference_utils.resolve_model_paths"]
BOUNDS = ("every history of up to three operations (four in the thorough tier) on two URLs: get, get with force_download, list, clear; every download either succeeds, fails before the first byte, "
          "or is cut after any number of bytes (symbolic) by an error or a crash; files in a scratch directory")
OUTSIDE = "crashes between the end of a download and its registration; several processes at once; longer histories"
ASSUMPTIONS = ["urllib.request.urlretrieve raises if it could not write everything"]
STUBS = ["urllib.request.urlretrieve and urlopen: serve a new version of the file at every call, cut as the schedule says", "torch.jit.load: returns the content of the file"]
BUDGET = {"quick": 300, "thorough": 1800}
N = 1 << 20  # length of a served file


class Crash(BaseException):
    pass


class Server:
    """Serves version after version; the schedule (which downloads fail, and where) is symbolic."""

    def __init__(self, h, faults=True):
        self.h, self.n, self.faults = h, 0, faults
        self.last = {}
        self.log = []

    def _schedule(self, url):
        """-> (full content, what gets written or None, exception or None)"""
        h, i = self.h, self.n
        self.n += 1
        self.log.append(url)
        full = "complete %s version %d" % (url, i)
        if not self.faults:
            self.last[url] = full
            return full, full, None
        k = h.int("written[%d]" % i, -1, N)
        if bool(k == N):
            self.last[url] = full
            return full, full, None
        exc = urllib.error.URLError("cut") if h.fork("error[%d]" % i) else Crash()
        if bool(k < 0):
            return full, None, exc
        return full, full[: len(full) // 2], exc

    def urlretrieve(self, url, filename=None, reporthook=None, data=None):
        full, txt, exc = self._schedule(url)
        if txt is not None:
            with open(filename, "w") as f:
                f.write(txt)
        if exc is not None:
            raise exc
        return str(filename), None

    def urlopen(self, url, *a, **k):
        url = getattr(url, "full_url", url)
        full, txt, exc = self._schedule(url)
        if txt is None:
            raise exc
        return Response(txt.encode(), exc)


class Response(io.RawIOBase):
    def __init__(self, data, exc):
        self.data, self.exc, self.pos, self.headers, self.status = data, exc, 0, {}, 200

    def readable(self):
        return True

    def read(self, n=-1):
        rest = self.data[self.pos :] if n is None or n < 0 else self.data[self.pos : self.pos + n]
        self.pos += len(rest)
        if (not rest or n is None or n < 0) and self.exc is not None:
            raise self.exc
        return rest

    def readinto(self, b):
        r = self.read(len(b))
        b[: len(r)] = r
        return len(r)

    def info(self):
        return {}


@contextlib.contextmanager
def world(h, faults=True):
    d = tempfile.mkdtemp(prefix="vp_c22_")
    s = Server(h, faults)
    old = urllib.request.urlretrieve, urllib.request.urlopen, torch.jit.load, os.environ.get("HOME"), os.getcwd()
    urllib.request.urlretrieve, urllib.request.urlopen = s.urlretrieve, s.urlopen
    torch.jit.load = lambda p, *a, **k: Loaded(p)
    named = [(m, n, v) for m in (P, F, PU) for n, v in list(vars(m).items()) if v is old[0] or v is old[1] or v is old[2]]
    for m, n, v in named:  # names imported from there
        setattr(m, n, {id(old[0]): s.urlretrieve, id(old[1]): s.urlopen, id(old[2]): torch.jit.load}[id(v)])
    os.environ["HOME"] = d
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d, s
    finally:
        os.chdir(old[4])
        for m, n, v in named:
            setattr(m, n, v)
        urllib.request.urlretrieve, urllib.request.urlopen, torch.jit.load = old[:3]
        if old[3] is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old[3]
        shutil.rmtree(d, ignore_errors=True)


class Loaded:
    def __init__(self, p):
        self.path = str(p)
        with open(p) as f:
            self.text = f.read()
        if not self.text.startswith("complete") or "version" not in self.text:
            raise RuntimeError("corrupt model file")

    def eval(self):
        return self


def outcome(f):
    """-> (value, exception), crashes included"""
    try:
        return f(), None
    except (Crash, Exception) as e:
        from symx.core import EngineSignal

        if isinstance(e, EngineSignal):
            raise
        return None, e


URLS = ["https://a.org/x/model.pt", "https://b.org/y/model.pt"]


# pairs of URLs that differ in one part only
PAIRS = [
    ("https://a.org/x/model.pt", "https://a.org/x/model.pt?version=2"),
    ("https://a.org/x/model.pt?version=1", "https://a.org/x/model.pt?version=2"),
    ("https://a.org/x/model.pt", "http://a.org/x/model.pt"),
    ("https://a.org/x/model.pt", "https://a.org/X/model.pt"),
    ("https://a.org/x/model.pt", "https://a.org/x/Model.pt"),
    ("https://a.org/x/model.pt", "https://a.org:8080/x/model.pt"),
    ("https://a.org/x/model.pt", "https://a.org/x/y/model.pt"),
    ("https://a.org/x/model.pt", "https://a.org/xmodel.pt"),
    ("https://a.org/x/model.pt#a", "https://a.org/x/model.pt#b"),
    ("https://a.org/x/model_a.pt", "https://a.org/x/model_b.pt"),
    ("https://a.org/" + "l" * 150 + "/a.pt", "https://a.org/" + "l" * 150 + "/b.pt"),
    ("https://a.org/" + "l" * 150 + "a/m.pt", "https://a.org/" + "l" * 150 + "b/m.pt"),
    ("https://a.org/m.pt?sig=%2Fx", "https://a.org/m.pt?sig=/x"),
]


def different(kind):
    """files of different URLs never replace each other, however similar the URLs are"""

    def fn(h):
        with world(h, faults=False) as (d, s):
            cache = os.path.join(d, "cache")
            get = P.download_and_cache_model if kind == "torch" else F.download_and_cache
            a, b = h.choose("pair", PAIRS)
            if h.fork("swap"):
                a, b = b, a
            pa, e = outcome(lambda: get(a, cache))
            h.true(e is None, "no exception")
            pb, e2 = outcome(lambda: get(b, cache))
            h.true(e2 is None, "no exception")
            if e is not None or e2 is not None:
                return
            h.equal_obj(open(pb).read(), s.last.get(b), "file of the second URL")
            h.equal_obj(open(pa).read(), s.last.get(a), "file of the first URL untouched")
            n = s.n
            pa, _ = outcome(lambda: get(a, cache))
            h.equal_obj(open(pa).read(), s.last.get(a), "file of the first URL again")
            h.equal_obj(s.n, n, "cached: no download")

    return fn


def crowd(kind):
    """hundreds of models in one cache"""

    def fn(h):
        with world(h, faults=False) as (d, s):
            cache = os.path.join(d, "cache")
            get = P.download_and_cache_model if kind == "torch" else F.download_and_cache
            form = h.choose("form", ["https://a.org/m%d.pt", "https://a.org/%d/m.pt", "https://a.org/m.pt?v=%d"])
            urls = [form.replace("%d", str(i)) for i in range(1200)]
            at = {u: get(u, cache) for u in urls}
            h.equal_obj([u for u in urls if open(at[u]).read() != s.last.get(u)], [], "URLs with a wrong file")
            n = s.n
            h.equal_obj([u for u in urls[::7] if open(get(u, cache)).read() != s.last[u]], [], "URLs with a wrong file at the second request")
            h.equal_obj(s.n, n, "cached: no download")
            if kind == "torch":
                h.equal_obj(len(P.list_cached_models(cache)), len(urls), "listed models")

    return fn


def history(steps, ops, kind):
    def fn(h):
        with world(h) as (d, s):
            cache = os.path.join(d, "cache", "dir")
            get = P.download_and_cache_model if kind == "torch" else F.download_and_cache
            good = {}  # url -> content of the last complete download since the last clear
            for i in range(steps):
                op = h.choose("op[%d]" % i, ops)
                before = s.n
                if op == "list":
                    r, e = outcome(lambda: P.list_cached_models(cache))
                    h.true(e is None, "list: no exception")
                    r = sorted(open(p).read() for p in r or [])
                    h.equal_obj(r, sorted(good.values()), "list: exactly the complete models")
                elif op == "clear":
                    _, e = outcome(lambda: P.clear_model_cache(cache))
                    h.true(e is None, "clear: no exception")
                    good = {}
                    r, e = outcome(lambda: P.list_cached_models(cache))
                    h.equal_obj(r, [], "clear: nothing left")
                else:
                    url, force = URLS[int(op[1])], op[0] == "f"
                    if url in good and not force:
                        p, e = outcome(lambda: get(url, cache))
                        h.equal_obj(s.n, before, "cached: no download")
                        h.true(e is None, "cached: no exception")
                    else:
                        p, e = outcome(lambda: get(url, cache, force_download=force))
                        h.true(s.n > before, "not cached or forced: downloaded")
                        if url in s.last and s.last[url].endswith("version %d" % (s.n - 1)):
                            good[url] = s.last[url]
                            h.true(e is None, "complete download: no exception")
                        else:
                            h.true(e is not None, "failed download: reported")
                            continue
                    h.equal_obj(open(p).read() if e is None and os.path.exists(p) else None, good[url], "complete file of this URL")
            # whatever happened: once the network works, every URL gives a complete model again
            s.faults = False
            for url in URLS:
                p, e = outcome(lambda: get(url, cache))
                h.true(e is None, "afterwards: no exception")
                if e is None:
                    h.equal_obj(open(p).read(), good.get(url, s.last.get(url)), "afterwards: complete file of this URL")

    return fn


def load_history(steps):
    """get_model loads a complete model or raises; a failed download is not loaded later"""

    def fn(h):
        with world(h) as (d, s):
            good = {}
            for i in range(steps):
                u = h.choose("url[%d]" % i, [0, 1])
                force = h.fork("force[%d]" % i)
                url = URLS[u]
                before = s.n
                m, e = outcome(lambda: P.get_model(url, force) if force else P.get_model(url))
                if url in good and not force:
                    h.equal_obj(s.n, before, "cached: no download")
                else:
                    ok = url in s.last and s.last[url].endswith("version %d" % (s.n - 1)) and s.n > before
                    if not ok:
                        h.true(e is not None, "failed download: reported")
                        continue
                    good[url] = s.last[url]
                h.true(e is None, "no exception")
                if e is None:
                    h.equal_obj(m.text, good[url], "model of this URL")
                    h.true(m.path.startswith(d), "cached below the home directory")

    return fn


def dispatch(h):
    """local paths are loaded as they are, everything else is refused"""
    with world(h) as (d, s):
        os.makedirs("sub")
        for n in ("here.pt", "sub/there.pt", "sub/noend"):
            with open(n, "w") as f:
                f.write("complete local version " + n)
        name, what = h.choose("name", [("here.pt", "load"), ("sub/there.pt", "load"), ("sub/noend", "load"), (os.path.join(d, "here.pt"), "load"), ("missing.pt", "refuse"), ("sub/missing.pt", "refuse"),
                                       ("old.pth", "refuse"), ("old.pt2", "refuse"), ("something", "refuse"), ("", "refuse")])
        m, e = outcome(lambda: P.get_model(name))
        h.equal_obj(s.n, 0, "no download")
        if what == "refuse":
            h.true(isinstance(e, Exception), "refused: " + os.path.basename(name))
        else:
            h.true(e is None, "no exception")
            if e is None:
                h.equal_obj(os.path.realpath(m.path), os.path.realpath(name), "loaded file")


def resolve(h):
    """resolve_model_paths: local paths as they are, URLs from the cache below the working directory"""
    with world(h, faults=False) as (d, s):
        j, w = h.choose("json", ["local/m.json", URLS[0]]), h.choose("weights", ["local/w.h5", URLS[1], URLS[0]])
        kw = h.choose("cache_dir", [{}, {"cache_dir": "cachedir"}, {"cache_dir": "some/new/dir"}])
        a, b = F.resolve_model_paths(j, w, **kw)
        base = os.path.realpath(os.path.join(d, kw.get("cache_dir", "model_cnn")))
        for src, res in ((j, a), (w, b)):
            if src.startswith("local"):
                h.equal_obj(str(res), src, "local path")
            else:
                h.equal_obj(os.path.realpath(os.path.dirname(res)), base, "cached in the cache directory")
                h.equal_obj(open(res).read(), s.last.get(src), "content of this URL")
        n = s.n
        a2, b2 = F.resolve_model_paths(j, w, **kw)
        h.equal_obj((str(a2), str(b2)), (str(a), str(b)), "same paths again")
        h.equal_obj(s.n, n, "no second download")
        F.resolve_model_paths(j, w, force_download=True, **kw)
        h.equal_obj(s.n - n, len([x for x in (j, w) if not x.startswith("local")]), "forced download")


def is_url(h):
    s, e = h.choose("path", [("http://a/b", True), ("https://a/b", True), ("ftp://a", False), ("a/http://b", False), ("", False), ("httpx", False)])
    h.equal_obj(bool(F.is_url(s)), e, "is_url(%r)" % s)


def missing_dir(h):
    with world(h) as (d, s):
        r, e = outcome(lambda: P.list_cached_models(os.path.join(d, "nothing")))
        h.equal_obj((r, e), ([], None), "no directory: empty list")
        r, e = outcome(lambda: P.clear_model_cache(os.path.join(d, "nothing")))
        h.true(e is None, "no directory: nothing to clear")


def cases(tier):
    q = tier == "quick"
    n = 3 if q else 4
    return [
        Case("torch history", history(n, ["g0", "g1", "f0", "list", "clear"], "torch")),
        Case("tensorflow history", history(n, ["g0", "g1", "f0"], "tf")),
        Case("get_model history", load_history(2 if q else 3)),
        Case("similar URLs torch", different("torch")),
        Case("similar URLs tensorflow", different("tf")),
        Case("many URLs torch", crowd("torch"), bounds="1200 URLs"),
        Case("many URLs tensorflow", crowd("tf"), bounds="1200 URLs"),
        Case("get_model", dispatch),
        Case("resolve", resolve),
        Case("is_url", is_url),
        Case("missing directory", missing_dir),
    ]
