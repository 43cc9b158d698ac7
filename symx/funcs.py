"""Real functions beyond field arithmetic (sqrt, exp, log, pow, trigonometry, ...).

Each application is Ackermannised: it becomes a fresh real variable keyed on the
function name and a canonical form of its argument (a rational function over the
input variables, coefficients rounded to 10 significant digits), constrained by
instantiated axioms that are true facts about the function.  Equal arguments
therefore give equal results, and anything else about the function is left open --
an over-approximation, so a proof is sound and a counterexample has to be replayed.
"""
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import z3
from .core import (
    ENG,
    SymNum,
    Unsupported,
    b_and,
    b_not,
    b_or,
    lift,
    r_cmp,
    zr,
)

# ------------------------------------------------------------------ canonical form
_MAXMONO = 300


class _Big(Exception):
    pass


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    if len(r) > _MAXMONO:
        raise _Big()
    return r


def _mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def _pmul(a, b):
    r = {}
    if len(a) * len(b) > 4 * _MAXMONO:
        raise _Big()
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > _MAXMONO:
        raise _Big()
    return r


_ONE = {(): Fraction(1)}


class Canon:
    """Canonicaliser; atoms are z3 terms remembered by id."""

    def __init__(self):
        self.atoms = {}
        self.memo = {}

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return ({((i, 1),): Fraction(1)}, _ONE)

    def rat(self, t):
        if isinstance(t, Fraction):
            return ({(): t} if t else {}, _ONE)
        i = t.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            return hit
        try:
            r = self._rat(t)
        except _Big:
            r = self.atom(z3.simplify(t))
        self.memo[i] = r
        self.atoms[i] = self.atoms.get(i, t)  # keep alive
        return r

    def _rat(self, t):
        if z3.is_rational_value(t):
            c = t.as_fraction()
            c = Fraction(c.numerator, c.denominator)
            return ({(): c} if c else {}, _ONE)
        if not z3.is_app(t):
            return self.atom(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = self.rat(t.arg(0))
            for j in range(1, t.num_args()):
                r = self._radd(r, self.rat(t.arg(j)))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rat(t.arg(0))
            for j in range(1, t.num_args()):
                r = self._radd(r, self.rat(t.arg(j)), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0))
            return ({m: -c for m, c in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            n, d = self.rat(t.arg(0))
            for j in range(1, t.num_args()):
                n2, d2 = self.rat(t.arg(j))
                n, d = _pmul(n, n2), (d2 if d is _ONE else d if d2 is _ONE else _pmul(d, d2))
            return self._cancel(n, d)
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(t.arg(0))
            n2, d2 = self.rat(t.arg(1))
            if not n2:
                return self.atom(t)
            return self._cancel(_pmul(n, d2), _pmul(d, n2))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            e = t.arg(1).as_fraction()
            if e.denominator == 1 and 0 <= e <= 6:
                r = (_ONE, _ONE)
                b = self.rat(t.arg(0))
                for _ in range(int(e)):
                    r = (_pmul(r[0], b[0]), _pmul(r[1], b[1]))
                return r
        return self.atom(t)

    def _radd(self, a, b, s=1):
        if a[1] is b[1] or a[1] == b[1]:
            return (_padd(a[0], b[0], s), a[1])
        return self._cancel(
            _padd(_pmul(a[0], b[1]), _pmul(b[0], a[1]), s), _pmul(a[1], b[1])
        )

    def _cancel(self, n, d):
        if not n:
            return ({}, _ONE)
        if d is _ONE:
            return (n, d)
        # common monomial factors
        common = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                common = (
                    dm
                    if common is None
                    else {k: min(e, dm[k]) for k, e in common.items() if k in dm}
                )
                if not common:
                    break
            if not common:
                break
        if common:
            inv = tuple(sorted((k, -e) for k, e in common.items()))
            n = {_mmul(m, inv): c for m, c in n.items()}
            d = {_mmul(m, inv): c for m, c in d.items()}
        lead = d[min(d)] if () not in d or len(d) == 1 else d[min(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if d == _ONE:
            d = _ONE
        return (n, d)

    def key(self, t):
        n, d = self.rat(t)
        return (_pkey(n), _pkey(d))

    # rebuild
    def term(self, p):
        out = zr(Fraction(0))
        first = True
        for m, c in sorted(p.items()):
            t = zr(c)
            for k, e in m:
                for _ in range(e):
                    t = t * self.atoms[k]
            out = t if first else out + t
            first = False
        return out


def _round(c):
    if c == 0:
        return 0.0
    return float("%.10e" % float(c))


def _pkey(p):
    return tuple(sorted((m, _round(c)) for m, c in p.items()))


# ------------------------------------------------------------------ registry
def _pow(x, y):
    if x == 0:
        return 0.0 if y > 0 else (1.0 if y == 0 else math.inf)
    return math.pow(x, y)


MATH = {
    "sqrt": math.sqrt,
    "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
    "exp": math.exp,
    "exp2": lambda x: 2.0**x,
    "expm1": math.expm1,
    "log": math.log,
    "log2": math.log2,
    "log10": math.log10,
    "log1p": math.log1p,
    "pow": _pow,
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "arcsin": math.asin,
    "arccos": math.acos,
    "arctan": math.atan,
    "arctan2": math.atan2,
    "sinh": math.sinh,
    "cosh": math.cosh,
    "tanh": math.tanh,
    "hypot": math.hypot,
}
_PI = Fraction(math.pi)
_EPS = Fraction(1, 10**9)


def register(name, fn):
    """Register an arbitrary deterministic real function (e.g. a learned model)."""
    MATH[name] = fn


def _state(eng):
    st = getattr(eng, "_canon", None)
    if st is None or st[0] is not eng.solver:
        st = (eng.solver, Canon())
        eng._canon = st
    return st[1]


PAIRWISE = set()
PAIR_LIMIT = 60
SQRT_DEF = True
QUAD_THRESHOLDS = False


def apply(eng, name, args, quad=False):
    vals = [a.v for a in args]
    fn = MATH[name]
    if all(isinstance(v, Fraction) for v in vals):
        try:
            return SymNum(Fraction(fn(*[float(v) for v in vals])))
        except (ValueError, OverflowError, ZeroDivisionError):
            return SymNum(Fraction(0))
    can = _state(eng)
    keys = tuple(can.key(v) for v in vals)
    if all(k[1] == (((), 1.0),) and (not k[0] or (len(k[0]) == 1 and k[0][0][0] == ())) for k in keys):
        c = [k[0][0][1] if k[0] else 0.0 for k in keys]
        try:
            return SymNum(Fraction(fn(*c)))
        except (ValueError, OverflowError, ZeroDivisionError):
            return SymNum(Fraction(0))
    # exp(y * log x) -> pow(x, y)
    if name in ("exp", "exp2"):
        r = _exp_of_log(eng, can, name, vals[0])
        if r is not None:
            return r
    flip = 1
    if name in ("sin", "tan", "arcsin", "arctan", "tanh", "sinh", "cbrt", "cos", "cosh"):
        k0 = keys[0][0]
        if k0 and k0[0][1] < 0:
            vals = [-vals[0]]
            keys = (can.key(vals[0]),)
            if name not in ("cos", "cosh"):
                flip = -1
    k = (name,) + keys
    a = eng.apps.get(k)
    if a is None:
        eng.fresh += 1
        var = z3.Real("%s!%d" % (name, eng.fresh))
        a = core.UFApp(name, vals, var)
        a.quad = quad
        eng.apps[k] = a
        _axioms(eng, a)
        eng.applist.append(a)
    return SymNum(a.var if flip > 0 else -a.var)


def _app_of(eng, v):
    if isinstance(v, Fraction):
        return None
    for a in eng.applist:
        if a.var.eq(v):
            return a
    return None


def _exp_of_log(eng, can, name, v):
    try:
        n, d = can.rat(v)
    except _Big:
        return None
    logname = {"exp": "log", "exp2": "log2"}[name]
    logs = {a.var.get_id(): a for a in eng.applist if a.name == logname}
    cand = None
    for m in n:
        ids = [i for i, e in m if i in logs]
        if len(ids) != 1 or dict(m)[ids[0]] != 1:
            return None
        if cand is None:
            cand = ids[0]
        elif cand != ids[0]:
            return None
    if cand is None or any(cand in dict(m) for m in d):
        return None
    rest = {tuple(x for x in m if x[0] != cand): c for m, c in n.items()}
    e = can.term(rest)
    if d is not _ONE and d != _ONE:
        e = e / can.term(d)
    e = z3.simplify(e)
    ev = e.as_fraction() if z3.is_rational_value(e) else e
    if z3.is_rational_value(e):
        ev = Fraction(ev.numerator, ev.denominator)
    return power(SymNum(logs[cand].args[0]), SymNum(ev))


def _axioms(eng, a):
    u = a.var
    n = a.name
    x = zr(a.args[0])
    add = eng.add_axiom
    Z = zr(Fraction(0))
    O = zr(Fraction(1))
    if n == "sqrt":
        add(u >= 0)
        if SQRT_DEF:
            add(z3.Implies(x >= 0, u * u == x))
        if not a.quad:
            add(z3.Implies(x == 0, u == 0))
    elif n in ("exp", "exp2"):
        add(u > 0)
        add((x <= 0) == (u <= 1))
        add((x >= 0) == (u >= 1))
        if n == "exp":
            add(u >= 1 + x)
    elif n in ("log", "log2", "log10"):
        add(z3.Implies(x > 0, z3.And((x <= 1) == (u <= 0), (x >= 1) == (u >= 0))))
        if n == "log":
            add(z3.Implies(x > 0, u <= x - 1))
    elif n == "log1p":
        add(z3.Implies(x > -1, z3.And((x <= 0) == (u <= 0), (x >= 0) == (u >= 0), u <= x)))
    elif n == "expm1":
        add(u > -1)
        add(z3.And((x <= 0) == (u <= 0), (x >= 0) == (u >= 0), u >= x))
    elif n == "pow":
        y = zr(a.args[1])
        add(z3.Implies(x > 0, u > 0))
        add(z3.Implies(x == 0, u == 0))  # exponents are positive by construction
        add(z3.Implies(x > 0, z3.And((x <= 1) == (u <= 1), (x >= 1) == (u >= 1))))
        add(z3.Implies(z3.And(y == 1, x >= 0), u == x))
    elif n in ("sin", "cos"):
        add(u >= -1)
        add(u <= 1)
        if n == "sin":
            add(z3.Implies(x == 0, u == 0))
            add(z3.Implies(z3.And(x > 0, x < zr(_PI - _EPS)), u > 0))
            add(z3.Implies(z3.And(x < 0, x > -zr(_PI - _EPS)), u < 0))
        else:
            add(z3.Implies(x == 0, u == 1))
            add(z3.Implies(z3.And(x < zr(_PI / 2 - _EPS), x > -zr(_PI / 2 - _EPS)), u > 0))
    elif n == "arctan2":
        y, xx = x, zr(a.args[1])
        add(z3.And(u <= zr(_PI + _EPS), u >= -zr(_PI + _EPS)))
        add(z3.Implies(y >= 0, u >= 0))
        add(z3.Implies(z3.And(y >= 0, xx >= 0), u <= zr(_PI / 2 + _EPS)))
        add(z3.Implies(z3.And(y == 0, xx >= 0), u == 0))
        add(z3.Implies(y > 0, u > 0))
    elif n in ("arcsin", "arctan"):
        add(z3.And(u <= zr(_PI / 2 + _EPS), u >= -zr(_PI / 2 + _EPS)))
        add((x >= 0) == (u >= 0))
        add((x <= 0) == (u <= 0))
    elif n == "arccos":
        add(z3.And(u <= zr(_PI + _EPS), u >= 0))
    elif n == "tanh":
        add(z3.And(u < 1, u > -1, (x >= 0) == (u >= 0), (x <= 0) == (u <= 0)))
    if n in PAIRWISE and len(eng.applist) <= PAIR_LIMIT:
        for o in eng.applist:
            if o.name != n:
                continue
            y = zr(o.args[0])
            if n == "pow":
                if a.args[1] is not o.args[1] and not (
                    isinstance(a.args[1], Fraction)
                    and isinstance(o.args[1], Fraction)
                    and abs(a.args[1] - o.args[1]) <= Fraction(1, 10**12)
                ):
                    continue
                dom = z3.And(x >= 0, y >= 0)
            elif n in ("sqrt",):
                dom = z3.And(x >= 0, y >= 0)
            elif n in ("log", "log10", "log2"):
                dom = z3.And(x > 0, y > 0)
            elif n in ("exp", "exp2", "expm1", "tanh", "arctan"):
                dom = True
            else:
                continue
            c = z3.And((x < y) == (u < o.var), (x == y) == (u == o.var))
            add(c if dom is True else z3.Implies(dom, c))


# ------------------------------------------------------------------ scalar functions
def _dom(a, bad):
    return b_or(a.nan, bad)


def _psd(v):
    """v as a sum of squares of affine terms: list of (weight > 0, {atom or None: coefficient}), or None.
    Exact LDL^T of the (homogenised) quadratic form."""
    if isinstance(v, Fraction):
        return None
    can = _state(ENG)
    try:
        n, d = can.rat(v)
    except _Big:
        return None
    if d is not _ONE and (len(d) != 1 or () not in d or d[()] <= 0):
        return None
    k = 1 / d[()]
    Q = {}
    vs = set()
    for m, c in n.items():
        c = c * k
        deg = sum(e for _, e in m)
        if deg > 2:
            return None
        ix = [i for i, e in m for _ in range(e)]
        while len(ix) < 2:
            ix.append(-1)
        vs.update(ix)
        i, j = sorted(ix)
        if i == j:
            Q[i, i] = Q.get((i, i), 0) + c
        else:
            Q[i, j] = Q.get((i, j), 0) + c / 2
            Q[j, i] = Q[i, j]
    vs = sorted(vs)
    if len(vs) > 14:
        return None
    out = []
    rest = list(vs)
    while rest:
        p = next((i for i in rest if Q.get((i, i), 0) != 0), None)
        if p is None:
            if any(Q.get((i, j), 0) != 0 for i in rest for j in rest):
                return None
            break
        w = Q[p, p]
        if w < 0:
            return None
        row = {j: Q.get((p, j), 0) / w for j in rest}
        out.append((w, {j: c for j, c in row.items() if c != 0}))
        rest.remove(p)
        for i in rest:
            for j in rest:
                Q[i, j] = Q.get((i, j), 0) - w * row[i] * row[j]
    return out


def _affine(can, row):
    t = zr(Fraction(0))
    for i, c in row.items():
        t = t + (zr(c) if i == -1 else zr(c) * can.atoms[i])
    return t


def sqrt(a):
    if a.isint and not isinstance(a.v, Fraction):
        k = core.concretize_int(a)
        return SymNum(Fraction(0), True) if k < 0 else SymNum(Fraction(math.sqrt(k)))
    if not a.noinf and ENG.branch(b_and(a.pinf, b_not(a.nan))):
        return SymNum(Fraction(0), False, True)
    sq = _psd(a.v)
    neg = b_or(a.ninf, False if sq is not None else r_cmp(operator.lt, a.v, Fraction(0)))
    if not isinstance(neg, (bool, np.bool_)) and not isinstance(a.v, Fraction):
        neg = ENG.branch(neg)
    if neg is True or neg is np.True_:
        return SymNum(Fraction(0), True)
    # sqrt(t * t) == |t|
    if z3.is_app(a.v) if not isinstance(a.v, Fraction) else False:
        t = a.v
        if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
            r = core.absolute(SymNum(t.arg(0)))
            return SymNum(r.v, a.nan)
    if sq is not None and not sq:
        return SymNum(Fraction(0), a.nan)
    if sq is not None and len(sq) == 1:
        # a perfect square of an affine term
        w, row = sq[0]
        t = core.absolute(SymNum(_affine(_state(ENG), row)))
        return SymNum(zr(Fraction(math.sqrt(w))) * zr(t.v) if w != 1 else t.v, a.nan)
    k = None
    if sq is not None:
        # sqrt(c * q) = sqrt(c) * sqrt(q) with q normalised
        k = sq[0][0]
        n0 = len(ENG.applist)
        q = SymNum(zr(1 / k) * zr(a.v) if k != 1 else a.v)
        r = apply(ENG, "sqrt", [q], quad=True)
        if len(ENG.applist) > n0:
            can = _state(ENG)
            z = z3.And(*[_affine(can, row) == 0 for _, row in sq])
            ENG.add_axiom((r.v == 0) == z)
            if QUAD_THRESHOLDS:
                for t in (Fraction(1e-10), Fraction(1)):
                    ENG.add_axiom((r.v < zr(t)) == (can.term(can.rat(q.v)[0]) < zr(t * t)))
        if k != 1:
            r = SymNum(r.v * zr(Fraction(math.sqrt(k))))
    else:
        r = apply(ENG, "sqrt", [a])
    return SymNum(r.v, _dom(a, neg))


def power(a, b):
    if isinstance(b.v, Fraction) and b.nan is False and b.noinf:
        e = b.v
        if e == 0:
            return SymNum(Fraction(1), isint=a.isint and b.isint)
        if e == 1:
            return a
        if e.denominator == 1 and abs(e) <= 6:
            r = a
            for _ in range(abs(int(e)) - 1):
                r = core.mul(r, a)
            if e < 0:
                r = core.div(lift(1.0), r)
            return r
        if abs(e - Fraction(1, 2)) < Fraction(1, 10**15):
            return sqrt(a)
        if e < 0:
            return core.div(lift(1.0), power(a, SymNum(-e)))
        return _powpos(a, b)
    if not (b.nan is False and b.noinf):
        if ENG.branch(b_or(b.nan, b.pinf, b.ninf)):
            raise Unsupported("power with non-finite exponent")
        b = SymNum(b.v)
    if ENG.branch(r_cmp(operator.eq, b.v, Fraction(0))):
        return SymNum(Fraction(1))
    if ENG.branch(r_cmp(operator.lt, b.v, Fraction(0))):
        return core.div(lift(1.0), power(a, core.neg(b)))
    return _powpos(a, b)


def _powpos(a, b):
    """a ** b for b > 0."""
    if not a.noinf:
        if ENG.branch(b_and(a.pinf, b_not(a.nan))):
            return SymNum(Fraction(0), False, True)
        if ENG.branch(b_and(a.ninf, b_not(a.nan))):
            raise Unsupported("(-inf) ** non-integer")
        a = SymNum(a.v, a.nan)
    if a.nan is True:
        return a
    neg = r_cmp(operator.lt, a.v, Fraction(0))
    if not isinstance(neg, (bool, np.bool_)):
        neg = ENG.branch(b_and(neg, b_not(a.nan)))
    if neg:
        # NaN for non-integer exponents; symbolic exponents are assumed non-integer
        return SymNum(Fraction(0), True)
    if isinstance(a.v, Fraction) and a.v == 0:
        return SymNum(Fraction(0), a.nan)
    if isinstance(a.v, Fraction) and a.v == 1:
        return SymNum(Fraction(1), a.nan)
    app = _app_of(ENG, a.v)
    base, ex = a, b
    if app is not None and app.name == "pow":
        base = SymNum(app.args[0])
        ex = core.mul(SymNum(app.args[1]), b)
    elif app is not None and app.name == "sqrt":
        base = SymNum(app.args[0])
        ex = core.mul(SymNum(Fraction(1, 2)), b)
    elif app is not None and app.name == "exp":
        r = apply(ENG, "exp", [core.mul(SymNum(app.args[0]), b)])
        return SymNum(r.v, a.nan)
    if app is not None and app.name in ("pow", "sqrt"):
        k = _state(ENG).key(ex.v) if not isinstance(ex.v, Fraction) else None
        if isinstance(ex.v, Fraction) and abs(ex.v - 1) < Fraction(1, 10**11):
            return SymNum(base.v, a.nan)
        if k is not None and k == ((((), 1.0),), (((), 1.0),)):
            return SymNum(base.v, a.nan)
    r = apply(ENG, "pow", [base, ex])
    return SymNum(r.v, a.nan)


def _simple(name, dom=None):
    def f(a):
        if not a.noinf:
            if ENG.branch(b_and(b_or(a.pinf, a.ninf), b_not(a.nan))):
                p = ENG.branch(a.pinf)
                if name in ("exp", "exp2"):
                    return SymNum(Fraction(0), False, p)
                if name in ("log", "log2", "log10", "log1p"):
                    return SymNum(Fraction(0), not p, p)
                if name in ("arctan",):
                    return SymNum(_PI / 2 * (1 if p else -1))
                if name == "tanh":
                    return SymNum(Fraction(1 if p else -1))
                if name in ("sin", "cos", "tan"):
                    return SymNum(Fraction(0), True)
                raise Unsupported("%s(inf)" % name)
            a = SymNum(a.v, a.nan)
        if a.nan is True:
            return a
        nan = a.nan
        if dom is not None:
            d = dom(a)
            if d is not None:
                return d
        r = apply(ENG, name, [a])
        return SymNum(r.v, nan)

    return f


def _logdom(lim):
    def d(a):
        lo = r_cmp(operator.lt, a.v, Fraction(lim))
        if ENG.branch(b_and(lo, b_not(a.nan))):
            return SymNum(Fraction(0), True)
        z = r_cmp(operator.eq, a.v, Fraction(lim))
        if ENG.branch(b_and(z, b_not(a.nan))):
            return SymNum(Fraction(0), False, False, True)
        return None

    return d


def _unitdom(a):
    bad = b_or(r_cmp(operator.gt, a.v, Fraction(1)), r_cmp(operator.lt, a.v, Fraction(-1)))
    if ENG.branch(b_and(bad, b_not(a.nan))):
        return SymNum(Fraction(0), True)
    return None


exp = _simple("exp")
exp2 = _simple("exp2")
expm1 = _simple("expm1")
log = _simple("log", _logdom(0))
log2 = _simple("log2", _logdom(0))
log10 = _simple("log10", _logdom(0))
log1p = _simple("log1p", _logdom(-1))
sin = _simple("sin")
cos = _simple("cos")
tan = _simple("tan")
arcsin = _simple("arcsin", _unitdom)
arccos = _simple("arccos", _unitdom)
arctan = _simple("arctan")
tanh = _simple("tanh")
sinh = _simple("sinh")
cosh = _simple("cosh")
cbrt = _simple("cbrt")


def _chord(y, x):
    """arctan2(sqrt(a), sqrt(1 - a)) is arcsin(sqrt(a))"""
    ay, ax = _app_of(ENG, y.v), _app_of(ENG, x.v)
    if ay is None or ax is None or ay.name != "sqrt" or ax.name != "sqrt":
        return False
    can = _state(ENG)
    return can.key(zr(ay.args[0]) + zr(ax.args[0])) == can.key(Fraction(1))


def arctan2(y, x):
    if y.noinf and x.noinf and _chord(y, x):
        r = arcsin(SymNum(y.v))
        return SymNum(r.v, b_or(y.nan, x.nan))
    if not (x.noinf and y.noinf):
        raise Unsupported("arctan2(inf)")
    r = apply(ENG, "arctan2", [y, x])
    return SymNum(r.v, b_or(x.nan, y.nan))


def hypot(x, y):
    return sqrt(core.add(core.mul(x, x), core.mul(y, y)))


def uf(name, args, nan=False):
    """Arbitrary registered function of real arguments (used for model stubs)."""
    r = apply(ENG, name, [lift(a) for a in args])
    return core.lower(SymNum(r.v, nan))


# ------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


def true_env(eng, assign):
    """Extend an input assignment {name: Fraction|bool} with the real values of all
    function applications; returns a list of (z3 var, z3 value) pairs."""
    pairs = []
    for name, (kind, v, n) in eng.inputs.items():
        val = assign[name]
        if kind == "bool":
            pairs.append((v, z3.BoolVal(bool(val))))
        else:
            isn = val is None
            pairs.append((v, zr(Fraction(0) if isn else Fraction(val))))
            if not isinstance(n, (bool, np.bool_)):
                pairs.append((n, z3.BoolVal(isn)))
    for a in eng.applist:
        vals = []
        for x in a.args:
            vals.append(float(num_of(x, pairs)))
        try:
            r = MATH[a.name](*vals)
            if isinstance(r, complex) or r != r or math.isinf(r):
                raise ValueError
        except (ValueError, OverflowError, ZeroDivisionError):
            r = 0.0
        pairs.append((a.var, zr(Fraction(r))))
    return pairs


def num_of(t, pairs):
    if isinstance(t, Fraction):
        return t
    s = z3.simplify(z3.substitute(t, *pairs)) if pairs else z3.simplify(t)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        return Fraction(f.numerator, f.denominator)
    if z3.is_algebraic_value(s):
        f = s.approx(20).as_fraction()
        return Fraction(f.numerator, f.denominator)
    raise EvalError("no value for %s" % s)


def bool_of(t, pairs):
    if isinstance(t, (bool, np.bool_)):
        return bool(t)
    s = z3.simplify(z3.substitute(t, *pairs)) if pairs else z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    raise EvalError("no truth value for %s" % s)


def eval_scalar(x, pairs):
    """SymNum/SymBool/concrete -> float/bool under the assignment."""
    if isinstance(x, core.SymBool):
        return bool_of(x.b, pairs)
    if isinstance(x, SymNum):
        if bool_of(x.nan, pairs):
            return math.nan
        if bool_of(x.pinf, pairs):
            return math.inf
        if bool_of(x.ninf, pairs):
            return -math.inf
        return float(num_of(x.v, pairs))
    return x
