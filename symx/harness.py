"""Harness layer: one case function runs symbolically (all paths, solver verdicts)
and concretely (replay of solver models against the unpatched code).

A case is `fn(h)`; it makes inputs through `h`, calls the real code and states
obligations.  In symbolic mode every obligation of every path is decided by the
solver; in concrete mode the same statements are evaluated on real numbers.
"""
import json
import sys
import math
import operator
import os
import random
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core
from .core import z3
from . import arr, funcs, patch
from .state import STATE
from .arr import SymArray, wrap
from .core import (
    ENG,
    EngineSignal,
    Infeasible,
    PathLimit,
    SymBool,
    SymNum,
    Unsupported,
    b_and,
    b_eq,
    b_not,
    b_or,
    bterm,
    is_sym,
    lift,
    mkbool,
    r_sub,
    zb,
    zr,
)

sys.set_int_max_str_digits(0)
SYM_TOL = Fraction(1, 10**6)
CONC_TOL = 1e-7


class Abort(Exception):
    """The case cannot continue (the code under test raised); already recorded."""


class Skip(Exception):
    """Concrete input outside the case's assumptions."""


class Case:
    def __init__(self, name, fn, stubs=None, sym_stubs=None, pairwise=(), thorough=False,
                 bounds="", max_paths=None, timeout_ms=None, functions=(), modes=("prop",),
                 sqrt_def=True, quick=True, replay_env=None, validate=None, quad_thresholds=False, fork_ite=False, history=None):
        self.name = name
        self.fn = fn
        self.stubs = stubs  # callable -> list of (owner, name, value), both modes
        self.sym_stubs = sym_stubs  # callable -> list, symbolic mode only
        self.pairwise = set(pairwise)
        self.thorough = thorough  # only in the thorough tier
        self.quick = quick
        self.bounds = bounds
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.functions = functions
        self.sqrt_def = sqrt_def
        self.validate = validate
        self.quad_thresholds = quad_thresholds
        self.fork_ite = fork_ite
        self.history = history  # number of earlier calls with other inputs; False: no such variant


class Obl:
    __slots__ = ("label", "cond", "strong")

    def __init__(self, label, cond, strong=None):
        self.label = label
        self.cond = cond
        self.strong = strong


def _flat(x):
    """Anything -> (shape, list of scalars)."""
    t = type(x).__module__.split(".")[0]
    if t == "xarray":
        x = x.data if hasattr(x, "data") else x.values
    elif t == "pandas":
        x = x.values
    elif t == "torch":
        x = x.numpy()
    if isinstance(x, SymArray):
        return x.shape, list(x.a.ravel())
    if is_sym(x):
        return (), [x]
    if isinstance(x, (list, tuple)):
        parts = [_flat(i) for i in x]
        shp = parts[0][0] if parts else ()
        if any(p[0] != shp for p in parts):
            return None, [v for p in parts for v in p[1]]
        return (len(parts),) + shp, [v for p in parts for v in p[1]]
    a = np.asarray(x)
    return a.shape, list(a.ravel())


class H:
    def __init__(self, symbolic, inputs=None, seed=0, check_mut=False):
        self.symbolic = symbolic
        self.given = inputs or {}
        self.obls = []  # symbolic obligations
        self.fails = []  # concrete failures
        self.obs = {}
        self.count = 0
        self.reached = False
        self.returned = 0
        self.snaps = []
        self.names = set()
        self.rng = random.Random(seed)
        self.check_mut = check_mut
        self.tmp = {}
        self.trivial = 0  # obligations decided while building the terms

    # ------------------------------------------------------------ inputs
    def _fresh(self, name):
        if name in self.names:
            raise RuntimeError("duplicate input %s" % name)
        self.names.add(name)

    def real(self, name, lo=-100, hi=100, nan=False):
        self._fresh(name)
        if self.symbolic:
            return ENG.real(name, lo, hi, nan)
        v = self.given.get(name, 0.0)
        if v is None:
            return np.float64(np.nan)
        v = float(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            if v < lo - 1e-9 or v > hi + 1e-9:
                raise Skip("%s out of range" % name)
            v = float(min(max(v, lo), hi))
        return np.float64(v)

    def int(self, name, lo, hi):
        self._fresh(name)
        if self.symbolic:
            return ENG.real(name, lo, hi, False, isint=True)
        return int(round(float(self.given.get(name, lo))))

    def bool(self, name):
        self._fresh(name)
        if self.symbolic:
            return ENG.boolean(name)
        return np.bool_(bool(self.given.get(name, False)))

    def choose(self, name, options):
        """Fork over a finite set of options."""
        i = self.int(name, 0, len(options) - 1)
        if self.symbolic:
            i = core.concretize_int(i)
        return options[i]

    def fork(self, name):
        b = self.bool(name)
        return bool(b)

    def array(self, name, shape, lo=-100, hi=100, nan=False, dtype=float, snap=True):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            nm = "%s[%s]" % (name, ",".join(map(str, ix)))
            if dtype is bool:
                o[ix] = self.bool(nm)
            elif dtype is int:
                o[ix] = self.int(nm, lo, hi)
            else:
                na = nan if not callable(nan) else nan(ix)
                o[ix] = self.real(nm, lo, hi, na)
        r = SymArray(o, np.dtype(dtype)) if self.symbolic else o.astype(dtype)
        if snap:
            self.snap(r, name)
        return r

    def const(self, x):
        """Concrete data as the array type of the mode."""
        a = np.asarray(x)
        return wrap(a) if self.symbolic else np.array(a)

    def mk(self, xs, dtype=float):
        """(nested) list of scalars -> array of the mode."""
        if self.symbolic:
            return wrap(xs if not isinstance(xs, SymArray) else xs, np.dtype(dtype))
        return np.array(xs, dtype=dtype)

    def da(self, data, dims, coords=None, name=None, attrs=None):
        import xarray as xr

        d = xr.DataArray(data, dims=dims, coords=coords, name=name, attrs=attrs)
        return d

    def snap(self, x, name):
        """Remember an input so that a modification of it can be detected."""
        self.snaps.append((name, x, self._snapcopy(x)))

    def _snapcopy(self, x):
        t = type(x).__module__.split(".")[0]
        if t == "xarray":
            import xarray as xr

            if isinstance(x, xr.Dataset):
                return x.copy(deep=True)
            return x.copy(deep=True)
        return x.copy()

    def assume(self, c):
        if self.symbolic:
            ENG.assume(c if not isinstance(c, (np.ndarray,)) else bool(c.all()))
            return
        if not bool(c):
            raise Skip("assumption")

    # ------------------------------------------------------------ logic helpers
    def ite(self, c, a, b):
        if is_sym(c):
            return core.ite(c, a, b)
        return a if c else b

    def isnan(self, x):
        return core.isnan(x)

    def and_(self, *xs):
        if any(is_sym(x) for x in xs):
            return mkbool(b_and(*[bterm(x) for x in xs]))
        return np.bool_(all(bool(x) for x in xs))

    def or_(self, *xs):
        if any(is_sym(x) for x in xs):
            return mkbool(b_or(*[bterm(x) for x in xs]))
        return np.bool_(any(bool(x) for x in xs))

    def not_(self, x):
        if is_sym(x):
            return mkbool(b_not(bterm(x)))
        return np.bool_(not bool(x))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def maximum(self, a, b):
        return core.lower(core.maximum(lift(a), lift(b))) if is_sym(a) or is_sym(b) else max(a, b)

    def minimum(self, a, b):
        return core.lower(core.minimum(lift(a), lift(b))) if is_sym(a) or is_sym(b) else min(a, b)

    def abs(self, a):
        return abs(a)

    # ------------------------------------------------------------ obligations
    def true(self, c, label):
        if self.check_mut:
            return
        self._true(c, label)

    def _true(self, c, label):
        self.count += 1
        self.reached = True
        shp, xs = _flat(c)
        if self.symbolic:
            cond = b_and(*[bterm(x) for x in xs])
            self.obls.append(Obl(label, cond))
        elif not all(bool(x) for x in xs):
            self.fails.append((label, "condition is false"))

    def eq(self, a, b, label, tol=None, ctol=None):
        """a equals b (NaN equal to NaN), within rounding tolerance."""
        if self.check_mut:
            return
        self._eq(a, b, label, tol, ctol)

    def _eq(self, a, b, label, tol=None, ctol=None):
        self.count += 1
        self.reached = True
        sa, xa = _flat(a)
        sb, xb = _flat(b)
        if sa != sb:
            if self.symbolic:
                self.obls.append(Obl(label + ": shape %s instead of %s" % (sa, sb), False))
            else:
                self.fails.append((label, "shape %s instead of %s" % (sa, sb)))
            return
        if self.symbolic:
            t = SYM_TOL if tol is None else Fraction(tol)
            for i, (x, y) in enumerate(zip(xa, xb)):
                c = self._eqterm(x, y, t)
                if c is True:
                    self.trivial += 1
                else:
                    self.obls.append(Obl("%s[%d]" % (label, i) if len(xa) > 1 else label, c))
        else:
            t = CONC_TOL if ctol is None else ctol
            for i, (x, y) in enumerate(zip(xa, xb)):
                if not self._ceq(x, y, t):
                    self.fails.append(
                        ("%s[%d]" % (label, i) if len(xa) > 1 else label, "got %r, expected %r" % (x, y))
                    )
                    break

    def _ceq(self, x, y, t):
        try:
            x, y = float(x), float(y)
        except (TypeError, ValueError):
            return x == y
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= t + 1e-9 * max(abs(x), abs(y))

    def _eqterm(self, x, y, t):
        if not (is_sym(x) or is_sym(y)):
            return self._ceq(x, y, float(t))
        if isinstance(x, SymBool) or isinstance(y, SymBool):
            if isinstance(x, (SymBool, bool, np.bool_)) and isinstance(y, (SymBool, bool, np.bool_)):
                return b_eq(bterm(x), bterm(y))
        if not (is_sym(x) or core.is_num(x)) or not (is_sym(y) or core.is_num(y)):
            return False
        x, y = lift(x), lift(y)
        flags = b_and(b_eq(x.nan, y.nan), b_or(x.nan, b_and(b_eq(x.pinf, y.pinf), b_eq(x.ninf, y.ninf))))
        nonfin = b_or(x.nan, x.pinf, x.ninf)
        if x.v is y.v:
            return flags
        if isinstance(x.v, Fraction) and isinstance(y.v, Fraction):
            return b_and(flags, b_or(nonfin, abs(x.v - y.v) <= t * (1 + abs(y.v))))
        sx = z3.simplify(zr(x.v) - zr(y.v), som=False)
        if z3.is_rational_value(sx):
            f = sx.as_fraction()
            same = abs(f) <= t
        else:
            same = None
            try:
                can = funcs._state(ENG)
                if can.key(x.v) == can.key(y.v):
                    same = True
            except Exception:
                pass
            if same is None:
                d = zr(x.v) - zr(y.v)
                same = z3.And(d <= zr(t), d >= zr(-t))
        return b_and(flags, b_or(nonfin, same))

    def le(self, a, b, label, tol=1e-6):
        """a <= b elementwise (broadcast) up to tolerance; NaN on either side passes."""
        shp, xs = _flat(a)
        shp2, ys = _flat(b)
        if len(ys) == 1:
            ys = ys * len(xs)
        if len(xs) == 1:
            xs = xs * len(ys)
        cs = []
        for x, y in zip(xs, ys):
            if is_sym(x) or is_sym(y):
                cs.append(mkbool(b_or(lift(x).nan, lift(y).nan, bterm(core.le(lift(x), core.add(lift(y), lift(tol)))))))
            else:
                cs.append(bool(x != x or y != y or x <= y + tol * 0.1 + 1e-9 * abs(y)))
        self.true(self.and_(*cs), label)

    def same_da(self, a, b, label):
        self.eq(a, b, label)

    def equal_obj(self, a, b, label):
        """plain Python equality of concrete objects (labels, dims, ...)"""
        try:
            r = a == b
            if hasattr(r, "all"):
                r = bool(r.all())
            r = bool(r)
        except Exception:
            r = False
        self.true(np.bool_(r), label)

    # ------------------------------------------------------------ running code
    def call(self, f, /, *a, **k):
        """Call code under test; an exception is a violation."""
        if self.check_mut:
            for i, x in list(enumerate(a)) + list(k.items()):
                if isinstance(x, np.ndarray) or type(x).__name__ == "SymArray" or type(x).__module__.split(".")[0] in ("xarray", "pandas"):
                    self.snap(x, "argument %s" % i)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    r = f(*a, **k)
            self.returned += 1
            self.result(r)
            return r
        except EngineSignal:
            raise
        except Abort:
            raise
        except Exception as e:
            self.exception = traceback.format_exc()
            if not self.check_mut:
                self._true(np.bool_(False), "no exception (%s: %s)" % (type(e).__name__, str(e)[:160]))
                raise Abort()
            self.reached = True

    def result(self, r):
        pass

    def raises(self, exc, f, /, *a, label=None, **k):
        """The call must raise exc."""
        label = label or "raises %s" % getattr(exc, "__name__", exc)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    f(*a, **k)
        except EngineSignal:
            raise
        except exc:
            self.true(np.bool_(True), label)
            return True
        except Exception as e:
            self.true(np.bool_(False), label + " (got %s)" % type(e).__name__)
            return False
        self.true(np.bool_(False), label + " (no exception)")
        return False

    def attempt(self, f, /, *a, **k):
        """-> (value, exception)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return f(*a, **k), None
        except EngineSignal:
            raise
        except Exception as e:
            return None, e

    def observe(self, name, x):
        self.obs[name] = x

    def finish(self):
        if self.check_mut:
            for name, x, c in self.snaps:
                self._same_input(name, x, c)

    def _same_input(self, name, x, c):
        t = type(x).__module__.split(".")[0]
        lab = "input %s unchanged" % name
        if t == "xarray":
            import xarray as xr

            if isinstance(x, xr.Dataset):
                if set(x.variables) != set(c.variables):
                    self._true(np.bool_(False), lab + " (variables)")
                    return
                for v in x.variables:
                    self._var(x[v].variable, c[v].variable, lab + ".%s" % v)
                return
            if set(x.coords) != set(c.coords) or x.dims != c.dims or x.name != c.name:
                self._true(np.bool_(False), lab + " (structure)")
                return
            self._var(x.variable, c.variable, lab)
            return
        if t == "pandas":
            if not hasattr(x, "iloc"):
                self._true(np.bool_(x.equals(c)), lab)
                return
            if not x.index.equals(c.index) or x.index.name != c.index.name or x.shape != c.shape or list(getattr(x, "columns", [])) != list(getattr(c, "columns", [])):
                self._true(np.bool_(False), lab + " (structure)")
                return
            self._eq(list(x.values.ravel()), list(c.values.ravel()), lab, tol=0)
            return
        if x.dtype != c.dtype:
            self._true(np.bool_(False), lab + " (dtype)")
            return
        self._eq(x, c, lab, tol=0)

    def _var(self, a, b, lab):
        if a.dims != b.dims or a.dtype != b.dtype or a.shape != b.shape:
            self._true(np.bool_(False), lab + " (structure)")
            return
        if a.dtype.kind in "fiub":
            self._eq(a.data, b.data, lab, tol=0)
        else:
            self._true(np.bool_(bool((np.asarray(a.values) == np.asarray(b.values)).all())), lab)


class Earlier(H):
    """Inputs of an earlier call: arbitrary concrete values; nothing is stated about it here."""

    def __init__(self, seed, results):
        H.__init__(self, False)
        self.r = random.Random(seed)
        self.results = results

    def real(self, name, lo=-100, hi=100, nan=False):
        self._fresh(name)
        if nan and self.r.random() < 0.1:
            return np.float64(np.nan)
        lo, hi = (-100 if lo is None else lo), (100 if hi is None else hi)
        v = lo + (hi - lo) * self.r.random()
        if hi - lo > 1:
            v = min(max(round(v * 8) / 8, lo), hi)
        return np.float64(v)

    def int(self, name, lo, hi):
        self._fresh(name)
        return self.r.randint(lo, hi)

    def bool(self, name):
        self._fresh(name)
        return np.bool_(self.r.random() < 0.5)

    def result(self, r, depth=0):
        if isinstance(r, (tuple, list)) and depth < 2:
            for x in list(r)[:20]:
                self.result(x, depth + 1)
        elif isinstance(r, dict) and depth < 2:
            for x in list(r.values())[:20]:
                self.result(x, depth + 1)
        elif isinstance(r, np.ndarray) and r.dtype != object or type(r).__module__.split(".")[0] in ("xarray", "pandas") and hasattr(r, "copy"):
            if len(self.results) < 60:
                try:
                    self.results.append((r, r.copy()))
                except Exception:
                    pass


def _history(case, spec):
    """The code is used before: the same case with other inputs. -> results of these calls"""
    out = []
    n, seed = spec.split("/", 1)
    for i in range(int(n)):
        for k in range(4):
            try:
                with patch.stubs(case.stubs() if case.stubs else []):
                    case.fn(Earlier("%s/%d/%d" % (seed, i, k), out))
                break
            except Skip:
                continue
            except EngineSignal:
                break
            except Exception:
                break
    return out


def _kept(h, res):
    """Results of earlier calls still hold what they held."""
    for x, c in res:
        t = type(x).__module__.split(".")[0]
        try:
            if t == "numpy":
                ok = np.array_equal(x, c, equal_nan=x.dtype.kind in "fc")
            elif t == "xarray":
                ok = x.equals(c)
            else:
                ok = x.equals(c)
        except EngineSignal:
            raise
        except Exception:
            continue
        if not ok:
            h._true(np.bool_(False), "the result of an earlier call is unchanged")
            return


# ---------------------------------------------------------------------- execution
def run_concrete(case, inputs, check_mut=False):
    """Run the case on concrete inputs against the unpatched code.
    -> (status, H) with status in ok/skip/fail/error"""
    STATE.restore()
    earlier = _history(case, inputs["__history__"]) if "__history__" in inputs else []
    h = H(False, inputs, check_mut=check_mut)
    ext = case.stubs() if case.stubs else []
    try:
        with patch.stubs(ext):
            case.fn(h)
            h.finish()
        _kept(h, earlier)
    except Abort:
        if check_mut:
            return "ok", h
        pass
    except Skip as e:
        return "skip", h
    except EngineSignal as e:
        h.error = "engine signal in a concrete run: %r" % (e,)
        return "error", h
    except Exception as e:
        h.error = traceback.format_exc()
        if h.returned and not check_mut and _unusable(e):
            # the real code returned something that does not have the form the property speaks about
            h.fails.append(("form of the result", "%s: %s" % (type(e).__name__, str(e)[:200])))
            return "fail", h
        return "error", h
    return ("fail" if h.fails else "ok"), h


def _unusable(e):
    """Is this an exception of the property text working on a returned object (not of the code under test,
    of a missing internal name or of the machinery)?"""
    if not isinstance(e, (AttributeError, KeyError, IndexError, TypeError, ValueError)):
        return False
    if isinstance(e, AttributeError):
        import types

        o = getattr(e, "obj", None)
        if o is None and "NoneType" not in str(e):
            return False
        if isinstance(o, (types.ModuleType, type, int, float, complex, str, np.generic, types.FunctionType)):
            return False
    if isinstance(e, TypeError) and "argument" in str(e):
        return False
    for f in traceback.extract_tb(e.__traceback__):
        if "/pycomlink/" in f.filename:
            return False
    return True


def model_inputs(m, eng=ENG):
    """z3 model -> {name: Fraction | None | bool}"""
    out = {}
    for name, (kind, v, n) in eng.inputs.items():
        if kind == "bool":
            out[name] = z3.is_true(m.eval(v, model_completion=True))
        else:
            if not isinstance(n, (bool, np.bool_)) and z3.is_true(m.eval(n, model_completion=True)):
                out[name] = None
            else:
                x = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(25)
                f = x.as_fraction()
                out[name] = Fraction(f.numerator, f.denominator)
    return out


def to_floats(a):
    return {k: (v if v is None or isinstance(v, bool) else float(v)) for k, v in a.items()}


class PathResult:
    def __init__(self):
        self.alternatives = []
        self.candidates = []  # confirmed in-process: dict
        self.unconfirmed = []
        self.status = "ok"
        self.obligations = 0
        self.unknown = 0
        self.validated = 0
        self.mismatch = []
        self.detail = ""
        self.reached = False
        self.concrete_runs = 0
        self.sample = None
        self.history = None


def _diversify(eng, rng, extra=(), tries=1):
    """Models of the current path that differ from the solver's default choice."""
    out = []
    for _ in range(tries):
        eng.solver.push()
        try:
            eng.solver.set("timeout", 3000)
            for e in extra:
                eng.solver.add(e)
            if eng.check() != z3.sat:
                break
            names = [n for n in eng.input_order]
            rng.shuffle(names)
            base = None
            miss = [n for n in names if eng.inputs[n][2] is not None]
            share = rng.choice([0.15, 0.5, 0.85])
            for n in miss[:12]:
                nn = eng.inputs[n][2]
                eng.solver.push()
                eng.solver.add(nn if rng.random() < share else z3.Not(nn))
                if eng.check() != z3.sat:
                    eng.solver.pop()
                else:
                    base = eng.solver.model()
            for n in names[:12]:
                kind, v, nn = eng.inputs[n]
                if kind == "bool":
                    c = v if rng.random() < 0.5 else z3.Not(v)
                else:
                    k = rng.randint(-400, 400)
                    r = rng.random()
                    if r < 0.5:
                        c = v == zr(Fraction(k, 8))
                    else:
                        c = z3.And(v >= zr(Fraction(k, 8)), v <= zr(Fraction(k, 8) + 40))
                eng.solver.push()
                eng.solver.add(c)
                if eng.check() != z3.sat:
                    eng.solver.pop()
                    continue
                base = eng.solver.model()
            if base is None:
                if eng.check() != z3.sat:
                    break
                base = eng.solver.model()
            out.append(model_inputs(base))
        finally:
            while eng.solver.num_scopes() > 0:
                eng.solver.pop()
            eng.solver.set("timeout", eng.timeout_ms)
    return out


def _dyadic(eng, neg):
    """A model with inputs on a 1/8 grid, if one is found quickly."""
    cons = []
    for n, (kind, v, nn) in eng.inputs.items():
        if kind == "real":
            cons.append(z3.IsInt(v * 8))
    eng.solver.push()
    try:
        eng.solver.set("timeout", 3000)
        eng.solver.add(neg, *cons)
        if eng.check() == z3.sat:
            return model_inputs(eng.solver.model())
    finally:
        eng.solver.pop()
        eng.solver.set("timeout", eng.timeout_ms)
    return None


def run_path(case, prefix, check_mut=False, validate=True, seed=0, refine_rounds=12, deadline=None):
    """Execute one path symbolically and decide its obligations."""
    res = PathResult()
    eng = ENG
    eng.timeout_ms = case.timeout_ms or 20000
    eng.reset(prefix)
    eng.stats.paths += 1
    funcs.PAIRWISE = case.pairwise
    funcs.SQRT_DEF = case.sqrt_def
    core.FORK_ITE = case.fork_ite
    funcs.QUAD_THRESHOLDS = case.quad_thresholds
    h = H(True, check_mut=check_mut)
    STATE.restore()
    earlier = []
    if case.history:
        import zlib

        res.history = "%d/%s/%d" % (case.history, case.name, zlib.crc32(repr(prefix).encode()) % 1000)
        earlier = _history(case, res.history)
    ext = (case.stubs() if case.stubs else []) + (case.sym_stubs() if case.sym_stubs else [])
    rng = random.Random("%s/%s/%s" % (seed, case.name, len(prefix)))
    try:
        with patch.patched(ext):
            case.fn(h)
            h.finish()
        _kept(h, earlier)
    except Abort:
        pass
    except Infeasible:
        res.status = "infeasible"
    except Unsupported as e:
        res.status = "unsupported"
        res.detail = str(e) + _where()
    except PathLimit as e:
        res.status = "limit"
        res.detail = str(e)
    except Exception as e:
        res.status = "harness-error"
        res.detail = traceback.format_exc()
    res.alternatives = eng.alternatives
    if res.status == "infeasible":
        return res
    if res.status in ("unsupported", "limit", "harness-error"):
        # outside the encoding: run solver models of this path on the real code
        for a in _diversify(eng, rng, tries=8):
            _try(case, a, res, check_mut, "outside the encoding: " + res.detail[:200])
            if res.candidates:
                break
        return res
    res.reached = h.reached
    res.obligations = len(h.obls) + h.trivial
    eng.stats.obligations += res.obligations
    # ---- decide
    todo = [o for o in h.obls if o.cond is not True and not (isinstance(o.cond, np.bool_) and o.cond)]
    pend = []
    if todo:
        if any(isinstance(o.cond, (bool, np.bool_)) and not o.cond for o in todo):
            pend = [o for o in todo if isinstance(o.cond, (bool, np.bool_))]
        else:
            neg = z3.Or(*[z3.Not(o.cond) for o in todo])
            eng.solver.set("timeout", min(eng.timeout_ms, 6000) if len(todo) > 1 else eng.timeout_ms)
            r = eng.check(neg)
            eng.solver.set("timeout", eng.timeout_ms)
            if r != z3.unsat:
                pend = todo
    for o in pend:
        if deadline and time.time() > deadline:
            res.unknown += 1
            break
        if isinstance(o.cond, (bool, np.bool_)):
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(o.cond)
        _decide(case, o, neg, res, check_mut, rng, refine_rounds)
        if res.candidates:
            break
    # ---- validate the encoding of this path against the real code
    if validate and not res.candidates and res.status == "ok":
        _validate(case, h, res, rng, check_mut)
    return res


def _where():
    tb = traceback.format_exc().strip().splitlines()
    locs = [l.strip() for l in tb if "pycomlink" in l]
    return (" at " + locs[-1]) if locs else ""


def _try(case, assign, res, check_mut, why):
    fl = to_floats(assign)
    if res.history:
        fl["__history__"] = res.history
    res.concrete_runs += 1
    st, ch = run_concrete(case, fl, check_mut)
    if st == "fail":
        res.candidates.append({"inputs": fl, "label": ch.fails[0][0], "detail": ch.fails[0][1], "why": why})
    return st, ch


def _decide(case, o, neg, res, check_mut, rng, rounds):
    eng = ENG
    pinned = 0
    eng.solver.push()
    try:
        for rnd in range(rounds):
            r = eng.check(neg)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                res.unknown += 1
                res.detail = "unknown: " + o.label
                # the solver gave up: still try models of the path itself
                break
            a = model_inputs(eng.solver.model())
            st, ch = _try(case, a, res, check_mut, o.label)
            if res.candidates:
                return
            if rnd == 0:
                d = _dyadic(eng, neg)
                if d is not None:
                    _try(case, d, res, check_mut, o.label)
                    if res.candidates:
                        return
                for d in _diversify(eng, rng, extra=[neg], tries=3):
                    _try(case, d, res, check_mut, o.label)
                    if res.candidates:
                        return
            # refine the real functions at this point
            if not eng.applist:
                break
            if not _refine(eng, a):
                break
        res.unconfirmed.append({"label": o.label, "inputs": to_floats(a) if r == z3.sat else None})
        if r == z3.sat:
            res.unknown += 1
    finally:
        while eng.solver.num_scopes() > 0:
            eng.solver.pop()


_INC = {"sqrt", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "arctan", "tanh", "arcsin"}


def _refine(eng, a):
    """Add true facts about every function application at the model's point."""
    try:
        pairs = funcs.true_env(eng, a)
    except funcs.EvalError:
        return False
    added = False
    for ap in eng.applist:
        try:
            vals = [funcs.num_of(x, pairs) for x in ap.args]
            fv = [float(v) for v in vals]
            r = funcs.MATH[ap.name](*fv)
            if isinstance(r, complex) or r != r or math.isinf(r):
                continue
        except (ValueError, OverflowError, ZeroDivisionError, funcs.EvalError):
            continue
        x = zr(ap.args[0])
        t = Fraction(r)
        eps = Fraction(1, 10**9) * (1 + abs(t))
        at = z3.And(*[zr(p) == zr(v) for p, v in zip(ap.args, vals)])
        eng.solver.add(z3.Implies(at, z3.And(ap.var <= zr(t + eps), ap.var >= zr(t - eps))))
        added = True
        if ap.name in _INC and (ap.name not in ("sqrt", "log", "log2", "log10") or fv[0] > 0):
            dom = x >= 0 if ap.name == "sqrt" else (x > 0 if ap.name.startswith("log") and ap.name != "log1p" else True)
            for c, f in (
                (x <= zr(vals[0]), ap.var <= zr(t + eps)),
                (x >= zr(vals[0]), ap.var >= zr(t - eps)),
            ):
                eng.solver.add(z3.Implies(z3.And(zb(dom), c), f))
        if ap.name == "pow" and isinstance(ap.args[1], Fraction) and fv[0] > 0:
            eng.solver.add(z3.Implies(z3.And(x >= 0, x <= zr(vals[0])), ap.var <= zr(t + eps)))
            eng.solver.add(z3.Implies(x >= zr(vals[0]), ap.var >= zr(t - eps)))
    return added


def _validate(case, h, res, rng, check_mut):
    eng = ENG
    for a in _diversify(eng, rng, tries=1):
        fl = to_floats(a)
        exact = {k: (v if v is None or isinstance(v, bool) else Fraction(float(v))) for k, v in a.items()}
        st, ch = _try(case, a, res, check_mut, "path model")
        if st in ("skip",):
            continue
        if st == "error":
            res.mismatch.append({"inputs": fl, "error": ch.error[-1500:]})
            continue
        if st == "fail":
            return
        if res.sample is None:
            res.sample = {"case": case.name, "inputs": fl}
        try:
            pairs = funcs.true_env(eng, exact)
            for c in eng.pc:
                if not funcs.bool_of(c, pairs):
                    raise _Boundary()
            for k, v in h.obs.items():
                s1, xs = _flat(v)
                if k not in ch.obs:
                    res.mismatch.append({"inputs": fl, "what": "observation %s missing" % k})
                    continue
                s2, ys = _flat(ch.obs[k])
                if s1 != s2:
                    res.mismatch.append({"inputs": fl, "what": "%s shape %s vs %s" % (k, s1, s2)})
                    continue
                for x, y in zip(xs, ys):
                    try:
                        e = funcs.eval_scalar(x, pairs)
                    except funcs.EvalError:
                        continue
                    if not h._ceq(e, y, 1e-6):
                        res.mismatch.append({"inputs": fl, "what": "%s: encoding %r, code %r" % (k, e, y)})
                        break
            res.validated += 1
        except _Boundary:
            pass
        except funcs.EvalError:
            pass


class _Boundary(Exception):
    pass
