"""TensorFlow on demand: software is only installed with consent."""
import builtins
import contextlib
import importlib
import io
import os
import subprocess
import sys
import types

import numpy as np

from pycomlink.processing.tensorflow_utils import lazy_tf as L
from symx.harness import Case

FUNCTIONS = ["processing.tensorflow_utils.lazy_tf.get_tf", "processing.tensorflow_utils.lazy_tf.ensure_tensorflow_installed", "processing.tensorflow_utils.lazy_tf.detect_gpu_without_tf"]
BOUNDS = "every combination of tensorflow present or not, GPU present, absent or its tool failing, auto_install given or not, the environment variable unset or one of seven values, installation failing or not, and histories of up to three calls"
OUTSIDE = "what pip does"
STUBS = ["subprocess functions: record the command, never run it", "import of tensorflow: present or not as the schedule says"]
BUDGET = {"quick": 120, "thorough": 300}


class World:
    def __init__(self, h, present, gpu, pip_ok):
        self.present, self.gpu, self.pip_ok, self.cmds = present, gpu, pip_ok, []
        self.mod = types.ModuleType("tensorflow")
        self.mod.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])

    def run(self, cmd, *a, **k):
        words = cmd.split() if isinstance(cmd, str) else [str(c) for c in cmd]
        if any("nvidia-smi" in w for w in words):
            if self.gpu == "none":
                raise FileNotFoundError("nvidia-smi")
            return (0, b"GPU") if self.gpu == "works" else (9, b"NVIDIA-SMI has failed")
        self.cmds.append(words)
        if not self.pip_ok:
            return 1, b""
        self.present = True
        return 0, b""

    def checked(self, cmd, i):
        r = self.run(cmd)
        if r[0]:
            raise subprocess.CalledProcessError(r[0], cmd, r[1])
        return r[i]

    def system(self, cmd):
        try:
            return self.run(cmd)[0] << 8
        except FileNotFoundError:
            return 127 << 8

    def subrun(self, cmd, *a, check=False, shell=False, text=False, universal_newlines=False, **k):
        try:
            c, o = self.run(cmd)
        except FileNotFoundError:
            if not shell:
                raise
            c, o = 127, b""
        if text or universal_newlines:
            o = o.decode()
        if check and c:
            raise subprocess.CalledProcessError(c, cmd, o)
        return subprocess.CompletedProcess(cmd, c, o)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] == "tensorflow":
            if not self.present:
                raise ModuleNotFoundError("No module named 'tensorflow'")
            return self.mod
        return self.real(name, globals, locals, fromlist, level)

    @contextlib.contextmanager
    def active(self, env):
        names = ["check_output", "check_call", "call", "run", "Popen"]
        old = {n: getattr(subprocess, n) for n in names}
        oldsys = os.system
        self.real, realmod, oldtf = builtins.__import__, importlib.import_module, L.tf
        tfm = sys.modules.pop("tensorflow", None)
        env0 = os.environ.get("ALLOW_TF_AUTOINSTALL")
        try:
            subprocess.check_output = lambda c, *a, **k: self.subrun(c, *a, **dict(k, check=True)).stdout
            subprocess.check_call = lambda c, *a, **k: self.checked(c, 0)
            subprocess.call = lambda c, *a, **k: self.run(c)[0]
            subprocess.run = self.subrun
            os.system = self.system
            subprocess.Popen = self._popen
            builtins.__import__ = self.imp
            importlib.import_module = lambda n, p=None: self.imp(n) if n.split(".")[0] == "tensorflow" else realmod(n, p)
            L.tf = None
            if env is None:
                os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
            else:
                os.environ["ALLOW_TF_AUTOINSTALL"] = env
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            for n in names:
                setattr(subprocess, n, old[n])
            os.system = oldsys
            builtins.__import__ = self.real
            importlib.import_module = realmod
            L.tf = oldtf
            if tfm is not None:
                sys.modules["tensorflow"] = tfm
            if env0 is None:
                os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
            else:
                os.environ["ALLOW_TF_AUTOINSTALL"] = env0

    def _popen(self, *a, **k):
        raise AssertionError("subprocess.Popen is not modelled")


def consent(h):
    present, gpu, ok = h.fork("installed"), h.choose("GPU", ["none", "works", "tool fails"]), h.fork("pip works")
    env = h.choose("ALLOW_TF_AUTOINSTALL", [None, "1", "", "0", "2", "no", "true", "11"])
    w = World(h, present, gpu, ok)
    have, loaded = present, False
    steps = 3 if env in (None, "1") else 1
    with w.active(env):
        for i in range(steps):
            kw = h.choose("call[%d]" % i, [{}, {"auto_install": True}, {"auto_install": False}] + ([{"auto_install": None}, {"auto_install": 0}] if steps == 1 or i == 0 else []))
            n = len(w.cmds)
            r, e = h.attempt(L.get_tf, **kw)
            new = w.cmds[n:]
            allowed = bool(kw.get("auto_install")) or env == "1"
            if have or loaded:
                h.equal_obj(new, [], "nothing installed if it is there")
                h.true(e is None and r is w.mod, "the module")
                loaded = True
            elif not allowed:
                h.equal_obj(new, [], "nothing installed without consent")
                h.true(isinstance(e, ImportError), "ImportError without consent")
            else:
                h.equal_obj(len(new), 1, "installed once")
                if new:
                    h.equal_obj(new[0][:4] == [sys.executable, "-m", "pip", "install"], True, "installed with pip of this Python")
                    h.equal_obj(new[0][4:], ["tensorflow[and-cuda]" if gpu == "works" else "tensorflow"], "package for this machine")
                if ok:
                    h.true(e is None and r is w.mod, "the module after installation")
                    have = loaded = True
                else:
                    h.true(e is not None, "failed installation reported")


def cases(tier):
    return [Case("consent", consent)]
