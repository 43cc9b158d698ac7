"""Symbolic scalars, the path explorer and the solver interface.

A floating point number is modelled as an extended real: an exact real value plus
NaN / +inf / -inf flags.  Rounding is outside the model (see DESIGN.md); signed
zeros are not distinguished.
"""
import math
import operator
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # z3 lives in the tooling venv (same CPython 3.12)
    sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)

import numpy as np

# --------------------------------------------------------------------------
# engine control flow (BaseException so that code under test cannot swallow it)
# --------------------------------------------------------------------------


class EngineSignal(BaseException):
    pass


class Unsupported(EngineSignal):
    """The encoding does not cover an operation the code used."""


class PathLimit(EngineSignal):
    """A bound of the exploration (decisions per path) was reached."""


class Infeasible(EngineSignal):
    """An assumption made the current path infeasible."""


# --------------------------------------------------------------------------
# z3 helpers with constant folding over Python bools / Fractions
# --------------------------------------------------------------------------
_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def zb(b):
    if isinstance(b, (bool, np.bool_)):
        return _TRUE if b else _FALSE
    return b


def b_not(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        if bool(a) == bool(b):
            return bool(a)
        return c if a else b_not(c)
    if isinstance(a, (bool, np.bool_)):
        return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, (bool, np.bool_)):
        return b_or(b_not(c), a) if b else b_and(c, a)
    return z3.If(c, a, b)


def b_eq(a, b):
    if isinstance(a, (bool, np.bool_)):
        return b if a else b_not(b)
    if isinstance(b, (bool, np.bool_)):
        return a if b else b_not(a)
    return a == b


_RV = {}


def zr(v):
    """Fraction or z3 term -> z3 Real term."""
    if isinstance(v, Fraction):
        r = _RV.get(v)
        if r is None:
            r = z3.Q(v.numerator, v.denominator) if v.denominator != 1 else z3.RealVal(
                v.numerator
            )
            r = z3.simplify(r)
            if len(_RV) < 20000:
                _RV[v] = r
        return r
    return v


def r_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
        return a
    if a is b:
        return a
    return z3.If(c, zr(a), zr(b))


def r_add(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        if a == 0:
            return b
    elif isinstance(b, Fraction) and b == 0:
        return a
    return zr(a) + zr(b)


def r_sub(a, b):
    if isinstance(b, Fraction):
        if isinstance(a, Fraction):
            return a - b
        if b == 0:
            return a
    return zr(a) - zr(b)


def r_neg(a):
    if isinstance(a, Fraction):
        return -a
    return -a


def r_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Fraction):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return zr(a) * zr(b)


def r_cmp(op, a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return op(a, b)
    if a is b:
        return op in (operator.le, operator.ge, operator.eq)
    r = op(zr(a), zr(b))
    return r


# --------------------------------------------------------------------------
# Engine: one per process, holds the state of the path being executed
# --------------------------------------------------------------------------
class Stats:
    FIELDS = (
        "paths",
        "decisions",
        "queries",
        "unsat",
        "sat",
        "unknown",
        "solver_s",
        "obligations",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class UFApp:
    __slots__ = ("name", "args", "var", "z3args", "quad")

    def __init__(self, name, args, var):
        self.name = name
        self.args = args
        self.var = var
        self.quad = False


class Engine:
    def __init__(self):
        self.active = False
        self.stats = Stats()
        self.max_decisions = 4000
        self.timeout_ms = 20000
        self.concrete_env = None
        self.reset([])

    # ---- path life cycle
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []  # list of (taken: bool, forced: bool)
        self.pc = []  # path condition (z3 terms)
        self.decided = {}
        self.intval = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.alternatives = []
        self.apps = {}
        self.applist = []
        self.inputs = {}
        self.input_order = []
        self.fresh = 0
        self.keep = []
        self.notes = []

    def add(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)
        self.solver.add(c)

    def add_axiom(self, c):
        """A true fact about a function; not part of the path condition proper."""
        if isinstance(c, (bool, np.bool_)):
            return
        self.solver.add(c)

    def assume(self, c):
        """Input assumption (part of the claim)."""
        if isinstance(c, SymBool):
            c = c.b
        self.add(c)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def pick_int(self, v):
        """A feasible integer value of v (recorded in the trace by the branch on it)."""
        i = len(self.trace)
        if i < len(self.prefix) and self.prefix[i][2] is not None:
            return self.prefix[i][2]
        if self.check() != z3.sat:
            raise PathLimit("no model for an integer choice")
        val = self.solver.model().eval(v, model_completion=True)
        return z3.simplify(z3.ToInt(val)).as_long()

    def branch(self, cond, tag=None):
        """Decide a symbolic condition, forking the path when both sides are feasible."""
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        key = cond.get_id()
        hit = self.decided.get(key)
        if hit is not None:
            return hit
        neg = z3.is_not(cond)
        if neg:
            hit = self.decided.get(cond.arg(0).get_id())
            if hit is not None:
                return not hit
        s = z3.simplify(cond)
        if z3.is_true(s) or z3.is_false(s):
            val = z3.is_true(s)
            self.decided[key] = val
            self.keep.append(cond)
            return val
        skey = s.get_id()
        hit = self.decided.get(skey)
        if hit is not None:
            self.decided[key] = hit
            self.keep.append(cond)
            return hit
        i = len(self.trace)
        if i >= self.max_decisions:
            raise PathLimit("more than %d decisions" % self.max_decisions)
        if i < len(self.prefix):
            taken, forced = self.prefix[i][:2]
        else:
            rt = self.check(cond)
            if rt == z3.unsat:
                taken, forced = False, True
            else:
                rf = self.check(z3.Not(cond))
                if rf == z3.unsat:
                    taken, forced = True, True
                else:
                    taken, forced = True, False
                    self.alternatives.append(self.trace[:] + [(False, False, tag)])
        self.trace.append((taken, forced, tag))
        self.stats.decisions += 1
        if not forced:
            self.add(cond if taken else z3.Not(cond))
        self.decided[key] = taken
        self.decided[skey] = taken
        self.keep.append(cond)
        self.keep.append(s)
        return taken

    # ---- inputs
    def real(self, name, lo=None, hi=None, nan=False, isint=False):
        v = z3.Real(name)
        n = z3.Bool(name + "?nan") if nan else False
        self.inputs[name] = ("real", v, n)
        self.input_order.append(name)
        if lo is not None:
            self.add(v >= zr(Fraction(lo)))
        if hi is not None:
            self.add(v <= zr(Fraction(hi)))
        if isint:
            self.add(z3.IsInt(v))
        return SymNum(v, n, isint=isint)

    def boolean(self, name):
        b = z3.Bool(name)
        self.inputs[name] = ("bool", b, None)
        self.input_order.append(name)
        return SymBool(b)

    # ---- uninterpreted / transcendental functions
    def app(self, name, *args):
        """Application of a real function, Ackermannised on a canonical key."""
        from . import funcs

        return funcs.apply(self, name, args)


ENG = Engine()


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def const_parts(x):
    """Concrete number -> (Fraction, nan, pinf, ninf)."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x)), False, False, False
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x)), False, False, False
    if isinstance(x, Fraction):
        return x, False, False, False
    f = float(x)
    if f != f:
        return Fraction(0), True, False, False
    if f == math.inf:
        return Fraction(0), False, True, False
    if f == -math.inf:
        return Fraction(0), False, False, True
    return Fraction(f), False, False, False


def is_num(x):
    return isinstance(
        x, (int, float, np.integer, np.floating, np.bool_, bool, Fraction)
    )


def lift(x):
    """Anything scalar -> SymNum."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymNum(r_ite(x.b, Fraction(1), Fraction(0)), isint=True)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if is_num(x):
        v, n, p, m = const_parts(x)
        return SymNum(
            v, n, p, m, isint=isinstance(x, (int, np.integer, bool, np.bool_))
        )
    item = getattr(x, "_symx_item", None)
    if item is not None:
        return lift(item())
    raise Unsupported("cannot lift %r" % type(x))


def lower(n):
    """SymNum with constant content -> Python/numpy scalar, else unchanged."""
    if isinstance(n, SymNum):
        fl = (n.nan, n.pinf, n.ninf)
        if all(isinstance(f, (bool, np.bool_)) for f in fl):
            if n.nan:
                return np.float64(np.nan)
            if n.pinf:
                return np.float64(np.inf)
            if n.ninf:
                return np.float64(-np.inf)
            if isinstance(n.v, Fraction):
                if n.isint and n.v.denominator == 1:
                    return np.int64(int(n.v)) if abs(n.v) < 2**62 else int(n.v)
                return np.float64(float(n.v))
        return n
    if isinstance(n, SymBool):
        if isinstance(n.b, (bool, np.bool_)):
            return np.bool_(n.b)
        return n
    return n


def mkbool(b):
    if isinstance(b, (bool, np.bool_)):
        return np.bool_(b)
    return SymBool(b)


def bterm(x):
    """scalar truth value -> Python bool or z3 Bool."""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymNum):
        # nonzero (NaN and inf are truthy)
        return b_or(x.nan, x.pinf, x.ninf, b_not(r_cmp(operator.eq, x.v, Fraction(0))))
    return bool(x)


class SymBool:
    __slots__ = ("b",)
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(bool)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ENG.branch(self.b)

    def _bin(self, o, f):
        if isinstance(o, SymBool) or isinstance(o, (bool, np.bool_)):
            return mkbool(f(self.b, bterm(o)))
        if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype == bool:
            return mkbool(f(self.b, bool(o)))
        return NotImplemented

    def _arr(self, o):
        return hasattr(o, "__array_ufunc__") and not isinstance(
            o, (SymNum, SymBool, np.generic)
        ) and getattr(o, "ndim", 0) >= 0 and (
            isinstance(o, np.ndarray) and o.ndim > 0 or hasattr(o, "_symx_array")
        )

    def __and__(self, o):
        if self._arr(o):
            return np.bitwise_and(self, o)
        return self._bin(o, b_and)

    __rand__ = __and__

    def __or__(self, o):
        if self._arr(o):
            return np.bitwise_or(self, o)
        return self._bin(o, b_or)

    __ror__ = __or__

    def __xor__(self, o):
        if self._arr(o):
            return np.bitwise_xor(self, o)
        return self._bin(o, lambda a, b: b_not(b_eq(a, b)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.b))

    def __eq__(self, o):
        if self._arr(o):
            return np.equal(self, o)
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(b_eq(self.b, bterm(o)))
        if is_num(o) or isinstance(o, SymNum):
            return lift(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return id(self)

    # arithmetic as numbers
    def _num(self):
        return lift(self)

    def __add__(self, o):
        return lift(self) + o

    def __radd__(self, o):
        return o + lift(self)

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __mul__(self, o):
        return lift(self) * o

    def __rmul__(self, o):
        return o * lift(self)

    def __truediv__(self, o):
        return lift(self) / o

    def __rtruediv__(self, o):
        return o / lift(self)

    def __lt__(self, o):
        return lift(self) < o

    def __le__(self, o):
        return lift(self) <= o

    def __gt__(self, o):
        return lift(self) > o

    def __ge__(self, o):
        return lift(self) >= o

    def __neg__(self):
        return -lift(self)

    def __abs__(self):
        return lift(self)

    def __float__(self):
        return 1.0 if ENG.branch(self.b) else 0.0

    def __int__(self):
        return 1 if ENG.branch(self.b) else 0

    __index__ = __int__

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __repr__(self):
        return "SymBool(%s)" % self.b

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def sum(self, *a, **k):
        return lift(self)

    def astype(self, dt, **k):
        from . import arr

        return arr.cast(self, np.dtype(arr.real_dtype(dt)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymNum:
    __slots__ = ("v", "nan", "pinf", "ninf", "isint")
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, v, nan=False, pinf=False, ninf=False, isint=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.isint = isint

    @property
    def dtype(self):
        return np.dtype(np.int64) if self.isint else np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    @property
    def finite(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    @property
    def noinf(self):
        return self.pinf is False and self.ninf is False

    # ---- helpers
    def _other(self, o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool) or is_num(o):
            return lift(o)
        if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
            return lift(o[()])
        return None

    def _bin(self, o, f, uf, swap=False):
        p = self._other(o)
        if p is None:
            if isinstance(o, np.ndarray) or hasattr(o, "_symx_array"):
                return uf(o, self) if swap else uf(self, o)
            return NotImplemented
        return lower(f(p, self) if swap else f(self, p))

    def __add__(self, o):
        return self._bin(o, add, np.add)

    def __radd__(self, o):
        return self._bin(o, add, np.add, True)

    def __sub__(self, o):
        return self._bin(o, sub, np.subtract)

    def __rsub__(self, o):
        return self._bin(o, sub, np.subtract, True)

    def __mul__(self, o):
        return self._bin(o, mul, np.multiply)

    def __rmul__(self, o):
        return self._bin(o, mul, np.multiply, True)

    def __truediv__(self, o):
        return self._bin(o, div, np.true_divide)

    def __rtruediv__(self, o):
        return self._bin(o, div, np.true_divide, True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv, np.floor_divide)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, np.floor_divide, True)

    def __mod__(self, o):
        return self._bin(o, mod, np.remainder)

    def __rmod__(self, o):
        return self._bin(o, mod, np.remainder, True)

    def __pow__(self, o):
        return self._bin(o, power, np.power)

    def __rpow__(self, o):
        return self._bin(o, power, np.power, True)

    def __neg__(self):
        return lower(neg(self))

    def __pos__(self):
        return self

    def __abs__(self):
        return lower(absolute(self))

    def __lt__(self, o):
        return self._bin(o, lt, np.less)

    def __le__(self, o):
        return self._bin(o, le, np.less_equal)

    def __gt__(self, o):
        return self._bin(o, gt, np.greater)

    def __ge__(self, o):
        return self._bin(o, ge, np.greater_equal)

    def __eq__(self, o):
        return self._bin(o, eq, np.equal)

    def __ne__(self, o):
        return self._bin(o, ne, np.not_equal)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return ENG.branch(bterm(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __int__(self):
        return concretize_int(trunc(self))

    def __float__(self):
        c = lower(self)
        if not isinstance(c, SymNum):
            return float(c)
        if self.isint:
            return float(concretize_int(self))
        raise Unsupported("float() of a symbolic real")

    def __round__(self, n=None):
        return lower(rint(self) if not n else round_to(self, n))

    def __floor__(self):
        return lower(as_int(floor(self)))

    def __ceil__(self):
        return lower(as_int(ceil(self)))

    def __trunc__(self):
        return lower(as_int(trunc(self)))

    def __complex__(self):
        raise Unsupported("complex() of a symbolic real")

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __repr__(self):
        return "SymNum(%s%s)" % (self.v, "" if self.nan is False else ", nan=%s" % self.nan)

    def item(self):
        return self

    def astype(self, dt, **k):
        from . import arr

        return arr.cast(self, np.dtype(arr.real_dtype(dt)))

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def mean(self, *a, **k):
        return self

    sum = min = max = mean

    def conjugate(self):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(zr(self.v)))


def concretize_int(n):
    """Fork over the feasible values of an integer-valued symbolic number."""
    c = lower(n)
    if not isinstance(c, SymNum):
        if isinstance(c, np.floating) and not math.isfinite(c):
            raise ValueError("cannot convert float NaN/inf to integer")
        return int(c)
    if not (n.nan is False and n.noinf):
        if ENG.branch(b_not(n.finite)):
            raise ValueError("cannot convert float NaN/inf to integer")
    key = n.v.get_id()
    if key in ENG.intval:
        return ENG.intval[key]
    sv = z3.simplify(n.v)
    if z3.is_rational_value(sv):
        return int(sv.as_fraction())
    for _ in range(2000):
        k = ENG.pick_int(n.v)
        if ENG.branch(n.v == zr(Fraction(k)), tag=k):
            ENG.intval[key] = k
            ENG.keep.append(n.v)
            return k
    raise PathLimit("too many integer values")


# ---- arithmetic on SymNum --------------------------------------------------
def add(a, b):
    i = a.isint and b.isint
    if a.noinf and b.noinf:
        return SymNum(r_add(a.v, b.v), b_or(a.nan, b.nan), isint=i)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return SymNum(
        r_add(a.v, b.v),
        nan,
        b_and(b_or(a.pinf, b.pinf), b_not(nan)),
        b_and(b_or(a.ninf, b.ninf), b_not(nan)),
    )


def neg(a):
    return SymNum(r_neg(a.v), a.nan, a.ninf, a.pinf, a.isint)


def sub(a, b):
    if a.noinf and b.noinf:
        return SymNum(r_sub(a.v, b.v), b_or(a.nan, b.nan), isint=a.isint and b.isint)
    return add(a, neg(b))


def _sgn(a):
    """(pos, neg, zero) as terms, for non-NaN a."""
    inf = b_or(a.pinf, a.ninf)
    fin = b_not(inf)
    return (
        b_or(a.pinf, b_and(fin, r_cmp(operator.gt, a.v, Fraction(0)))),
        b_or(a.ninf, b_and(fin, r_cmp(operator.lt, a.v, Fraction(0)))),
        b_and(fin, r_cmp(operator.eq, a.v, Fraction(0))),
    )


def mul(a, b):
    i = a.isint and b.isint
    if a.noinf and b.noinf:
        return SymNum(r_mul(a.v, b.v), b_or(a.nan, b.nan), isint=i)
    ap, an, az = _sgn(a)
    bp, bn, bz = _sgn(b)
    ai, bi = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    nan = b_or(a.nan, b.nan, b_and(ai, bz), b_and(bi, az))
    inf = b_and(b_or(ai, bi), b_not(nan))
    pos = b_or(b_and(ap, bp), b_and(an, bn))
    return SymNum(r_mul(a.v, b.v), nan, b_and(inf, pos), b_and(inf, b_not(pos)))


def div(a, b):
    nan0 = b_or(a.nan, b.nan)
    if b.noinf or b_or(b.pinf, b.ninf) is False:
        isz = r_cmp(operator.eq, b.v, Fraction(0))
        if isz is not False and b.nan is not True:
            # fork on a zero denominator (only where it is feasible)
            isz = ENG.branch(b_and(isz, b_not(b.nan)))
        if isz:
            if a.noinf:
                ap, an, az = _sgn(a)
                return SymNum(
                    Fraction(0),
                    b_or(nan0, az),
                    b_and(ap, b_not(nan0)),
                    b_and(an, b_not(nan0)),
                )
            return SymNum(Fraction(0), nan0, b_and(a.pinf, b_not(nan0)), b_and(a.ninf, b_not(nan0)))
        if b.nan is True or (isinstance(b.v, Fraction) and b.v == 0):
            return SymNum(Fraction(0), True)
        if isinstance(b.v, Fraction):
            v = a.v / b.v if isinstance(a.v, Fraction) else zr(a.v) * zr(1 / b.v)
        else:
            if isinstance(a.v, Fraction) and a.v == 0:
                v = Fraction(0)
            elif a.v is b.v and not isinstance(b.nan, bool) is False and b.nan is False:
                v = Fraction(1)
            else:
                v = zr(a.v) / zr(b.v)
        if a.noinf:
            return SymNum(v, nan0)
        bp, bn, bz = _sgn(b)
        return SymNum(
            v,
            nan0,
            b_and(b_not(nan0), b_or(b_and(a.pinf, bp), b_and(a.ninf, bn))),
            b_and(b_not(nan0), b_or(b_and(a.pinf, bn), b_and(a.ninf, bp))),
        )
    # possibly infinite denominator
    if ENG.branch(b_and(b_or(b.pinf, b.ninf), b_not(b.nan))):
        ainf = b_or(a.pinf, a.ninf)
        return SymNum(Fraction(0), b_or(nan0, ainf))
    return div(a, SymNum(b.v, b.nan, isint=b.isint))


def floordiv(a, b):
    q = floor(div(a, b))
    q.isint = a.isint and b.isint
    return q


def mod(a, b):
    q = floordiv(a, b)
    return sub(a, mul(b, SymNum(q.v, q.nan, q.pinf, q.ninf, q.isint)))


FORK_ITE = False  # case option: decide conditions of conditional values by forking


def absolute(a):
    if isinstance(a.v, Fraction):
        v = abs(a.v)
    elif FORK_ITE:
        v = a.v if ENG.branch(a.v >= 0) else -a.v
    else:
        v = z3.If(a.v >= 0, a.v, -a.v)
    return SymNum(v, a.nan, b_or(a.pinf, a.ninf), False, a.isint)


def sign(a):
    p, n, z = _sgn(a)
    return SymNum(
        r_ite(p, Fraction(1), r_ite(n, Fraction(-1), Fraction(0))), a.nan, isint=a.isint
    )


def _cmp(op, a, b):
    ok = b_not(b_or(a.nan, b.nan))
    base = r_cmp(op, a.v, b.v)
    if a.noinf and b.noinf:
        return mkbool(b_and(ok, base))
    # order with infinities: compare ranks
    fin = b_not(b_or(a.pinf, a.ninf, b.pinf, b.ninf))
    lt_ = b_or(
        b_and(a.ninf, b_not(b.ninf)),
        b_and(b_not(a.pinf), b.pinf),
    )
    gt_ = b_or(b_and(b.ninf, b_not(a.ninf)), b_and(b_not(b.pinf), a.pinf))
    eq_ = b_or(b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
    infres = {
        operator.lt: lt_,
        operator.gt: gt_,
        operator.eq: eq_,
        operator.le: b_or(lt_, eq_),
        operator.ge: b_or(gt_, eq_),
    }[op]
    return mkbool(b_and(ok, b_ite(fin, base, infres)))


def lt(a, b):
    return _cmp(operator.lt, a, b)


def le(a, b):
    return _cmp(operator.le, a, b)


def gt(a, b):
    return _cmp(operator.gt, a, b)


def ge(a, b):
    return _cmp(operator.ge, a, b)


def eq(a, b):
    return _cmp(operator.eq, a, b)


def ne(a, b):
    r = eq(a, b)
    return mkbool(b_not(bterm(r)))


def ite(c, a, b):
    """Scalar if-then-else; c is a truth scalar, a and b scalars."""
    cb = bterm(c)
    if isinstance(cb, (bool, np.bool_)):
        return a if cb else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(b_ite(cb, bterm(a), bterm(b)))
    if a is b:
        return a
    if FORK_ITE:
        return a if ENG.branch(cb) else b
    x, y = lift(a), lift(b)
    return lower(
        SymNum(
            r_ite(cb, x.v, y.v),
            b_ite(cb, x.nan, y.nan),
            b_ite(cb, x.pinf, y.pinf),
            b_ite(cb, x.ninf, y.ninf),
            x.isint and y.isint,
        )
    )


def ite_num(c, x, y):
    cb = c if not isinstance(c, (SymBool, SymNum)) else bterm(c)
    if FORK_ITE and not isinstance(cb, (bool, np.bool_)):
        return x if ENG.branch(cb) else y
    return SymNum(
        r_ite(cb, x.v, y.v),
        b_ite(cb, x.nan, y.nan),
        b_ite(cb, x.pinf, y.pinf),
        b_ite(cb, x.ninf, y.ninf),
        x.isint and y.isint,
    )


def minimum(a, b, prop=True):
    """numpy.minimum (prop) / fmin (not prop)."""
    r = ite_num(bterm(_cmp(operator.le, a, b)), a, b)
    if prop:
        n = b_or(a.nan, b.nan)
        return SymNum(r.v, n, b_and(r.pinf, b_not(n)), b_and(r.ninf, b_not(n)), r.isint)
    return ite_num(a.nan, b, ite_num(b.nan, a, r))


def maximum(a, b, prop=True):
    r = ite_num(bterm(_cmp(operator.ge, a, b)), a, b)
    if prop:
        n = b_or(a.nan, b.nan)
        return SymNum(r.v, n, b_and(r.pinf, b_not(n)), b_and(r.ninf, b_not(n)), r.isint)
    return ite_num(a.nan, b, ite_num(b.nan, a, r))


def as_int(a):
    return SymNum(a.v, a.nan, a.pinf, a.ninf, True)


def floor(a):
    if isinstance(a.v, Fraction):
        v = Fraction(math.floor(a.v))
    elif a.isint:
        v = a.v
    else:
        v = z3.ToReal(z3.ToInt(a.v))
    return SymNum(v, a.nan, a.pinf, a.ninf, a.isint)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if a.isint:
        return a
    return ite_num(r_cmp(operator.ge, a.v, Fraction(0)), floor(a), ceil(a))


def rint(a):
    """Round half to even."""
    if a.isint:
        return a
    if isinstance(a.v, Fraction):
        v = Fraction(round(a.v))
    else:
        f = z3.ToReal(z3.ToInt(a.v + zr(Fraction(1, 2))))
        tie = f - a.v == zr(Fraction(1, 2))
        odd = z3.Not(z3.IsInt(f / 2))
        v = z3.If(z3.And(tie, odd), f - 1, f)
    return SymNum(v, a.nan, a.pinf, a.ninf, False)


def round_to(a, n):
    s = lift(float(10.0**n))
    return div(rint(mul(a, s)), s)


def power(a, b):
    from . import funcs

    return funcs.power(a, b)


def isnan(x):
    """scalar -> truth scalar."""
    if isinstance(x, SymNum):
        return mkbool(x.nan)
    if isinstance(x, SymBool):
        return np.bool_(False)
    return np.bool_(x != x)
