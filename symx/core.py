"""Symbolic execution engine.

Real Python code is executed on proxy numbers (`SymNum`) carrying Z3 terms.  Whenever the code needs
the truth value of a symbolic comparison (`SymBool.__bool__`), the engine asks Z3 which outcomes are
possible under the current path condition and forks if both are.  Exploration is a stateless
depth-first search: a path is re-executed from the start following a recorded prefix of outcomes.
"""
from __future__ import annotations

import builtins
import contextlib
import itertools
import math
import os
import time
from fractions import Fraction

import z3

_INF = float("inf")
_omax, _omin = builtins.max, builtins.min


# ----------------------------------------------------------------------------------------------
# control flow of the engine: BaseException so that code under test cannot swallow it
# ----------------------------------------------------------------------------------------------
class EngineSignal(BaseException):
    pass


class PathInfeasible(EngineSignal):
    """The path condition became unsatisfiable (assumption failed)."""


class Inconclusive(EngineSignal):
    """The solver answered unknown, or the engine met something it cannot encode."""


class NonDeterminism(EngineSignal):
    """Re-execution diverged from the recorded prefix."""


class Violation(EngineSignal):
    """Concrete mode: a check failed."""

    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


_current: list = [None]
_rounding: list = [None]  # the path's Rounding while arithmetic is to be rounded


def current():
    return _current[0]


# ----------------------------------------------------------------------------------------------
# terms
# ----------------------------------------------------------------------------------------------
_const_cache: dict = {}


def const_term(v):
    """Exact Z3 term of a finite Python number."""
    key = (type(v) is int or type(v) is bool, v)
    t = _const_cache.get(key)
    if t is None:
        if isinstance(v, (bool, int)):
            t = z3.RealVal(int(v))
        else:
            f = Fraction(v)
            t = z3.RealVal(f"{f.numerator}/{f.denominator}")
        if len(_const_cache) > 50000:
            _const_cache.clear()
        _const_cache[key] = t
    return t


def is_concrete_number(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, SymNum)


def is_inf(v):
    return isinstance(v, float) and (v == _INF or v == -_INF)


def to_term(v):
    """Real-sorted term of a finite number or SymNum, else None."""
    if isinstance(v, SymNum):
        return v.t
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float) and not math_isfinite(v):
            return None
        return const_term(v)
    return None


math_isfinite = math.isfinite
math_sqrt = math.sqrt


def bterm(c):
    """Bool term of a SymBool / bool."""
    if isinstance(c, SymBool):
        return c.t
    return z3.BoolVal(bool(c))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _current[0].branch(self.t)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.t, o.t))
        if isinstance(o, bool):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.t, o.t))
        if isinstance(o, bool):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bterm(o))
        if isinstance(o, (int, float, SymNum)):
            return self._num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    # booleans are numbers in Python
    def _num(self):
        return SymNum(z3.If(self.t, const_term(1), const_term(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __repr__(self):
        return current().token(self, "")

    def __format__(self, spec):
        return current().token(self, spec)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _is_ite01(t):
    """t is If(c, 1, 0)?"""
    return (
        z3.is_app_of(t, z3.Z3_OP_ITE)
        and z3.is_rational_value(t.arg(1))
        and z3.is_rational_value(t.arg(2))
    )


class SymNum:
    """A real-valued (possibly integer-constrained) symbolic number; the term is Real-sorted."""

    __slots__ = ("t", "isint", "__weakref__")

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint

    # -- arithmetic ---------------------------------------------------------------------------
    def _bin(self, o, f, inf):
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, SymNum):
            return SymNum(z3.simplify(f(self.t, o.t)), self.isint and o.isint)
        if isinstance(o, (int, float, Fraction)):
            if isinstance(o, float) and not math_isfinite(o):
                return inf(o)
            return SymNum(z3.simplify(f(self.t, const_term(o))), self.isint and isinstance(o, int))
        return NotImplemented

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        r = self._bin(o, lambda a, b: a + b, lambda v: v)
        if _rounding[0] is not None:
            r = _rounding[0].result("+", self, o, r)
        return r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b, lambda v: -v)
        if _rounding[0] is not None:
            r = _rounding[0].result("-", self, o, r)
        return r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a, lambda v: v)
        if _rounding[0] is not None:
            r = _rounding[0].result("-", o, self, r)
        return r

    def _mulinf(self, v):
        if self > 0:
            return v
        if self < 0:
            return -v
        return float("nan")

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return SymNum(z3.If(o.t, self.t, const_term(0)), self.isint)
        if isinstance(o, SymNum):
            # keep products with 0/1-like terms linear
            for p, q in ((self.t, o.t), (o.t, self.t)):
                if _is_ite01(p):
                    return SymNum(
                        z3.simplify(z3.If(p.arg(0), p.arg(1) * q, p.arg(2) * q)), self.isint and o.isint
                    )
        if _rounding[0] is not None and not (isinstance(o, int) and o in (0, 1, -1)):
            raise Inconclusive("rounding of a product")
        return self._bin(o, lambda a, b: a * b, self._mulinf)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if (isinstance(o, SymNum) and o == 0) or (not isinstance(o, SymNum) and o == 0):
            raise ZeroDivisionError("division by zero")
        if _rounding[0] is not None:
            raise Inconclusive("rounding of a quotient")
        r = self._bin(o, lambda a, b: a / b, lambda v: 0.0)
        if isinstance(r, SymNum):
            r.isint = False
        return r

    def __rtruediv__(self, o):
        if self == 0:
            raise ZeroDivisionError("division by zero")
        r = self._bin(o, lambda a, b: b / a, lambda v: v if self > 0 else -v)
        if isinstance(r, SymNum):
            r.isint = False
        return r

    def __floordiv__(self, o):
        q = self / o
        return q.__floor__() if isinstance(q, SymNum) else q // 1

    def __rfloordiv__(self, o):
        q = o / self
        return q.__floor__() if isinstance(q, SymNum) else q // 1

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymNum(z3.simplify(-self.t), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)), self.isint)

    def __pow__(self, e, mod=None):
        if isinstance(e, SymNum):
            e = _current[0].realize(e)
        if isinstance(e, (int, float)) and float(e).is_integer() and 0 <= e <= 8:
            r = SymNum(const_term(1), self.isint)
            for _ in range(int(e)):
                r = SymNum(z3.simplify(r.t * self.t), self.isint)
            return r
        if e == 0.5:
            return sym_sqrt(self)
        raise Inconclusive(f"power {e}")

    def __rpow__(self, b):
        e = _current[0].realize(self)
        return b ** e

    # -- rounding -----------------------------------------------------------------------------
    def __floor__(self):
        if self.isint:
            return self
        return SymNum(z3.ToReal(z3.ToInt(self.t)), True)

    def __ceil__(self):
        if self.isint:
            return self
        return SymNum(z3.simplify(-z3.ToReal(z3.ToInt(-self.t))), True)

    def __trunc__(self):
        if self.isint:
            return self
        return SymNum(
            z3.If(self.t >= 0, z3.ToReal(z3.ToInt(self.t)), -z3.ToReal(z3.ToInt(-self.t))), True
        )

    def __round__(self, ndigits=None):
        if ndigits is None:
            if self.isint:
                return self
            half = const_term(0.5)
            lo = z3.ToInt(self.t)
            fr = self.t - z3.ToReal(lo)
            up = z3.ToReal(lo) + 1
            even = z3.If(lo % 2 == 0, z3.ToReal(lo), up)
            return SymNum(z3.If(fr < half, z3.ToReal(lo), z3.If(fr > half, up, even)), True)
        k = 10 ** ndigits
        r = round(self * k)
        return r / k

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    # -- comparison ---------------------------------------------------------------------------
    def _cmp(self, o, f, inf):
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, SymNum):
            return mkbool(f(self.t, o.t))
        if isinstance(o, (int, float, Fraction)):
            if isinstance(o, float) and not math_isfinite(o):
                return inf(o)
            return mkbool(f(self.t, const_term(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: v == _INF)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: v == _INF)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: v == -_INF)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: v == -_INF)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda v: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda v: True)

    # constant hash: hashed containers fall back to (symbolic, hence exact) equality
    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    # -- C boundaries: concretise (recorded, makes the exploration partial) ----------------------
    def __float__(self):
        return float(_current[0].realize(self))

    def __int__(self):
        return int(_current[0].realize(self.__trunc__()))

    def __index__(self):
        if not self.isint and not _current[0].implied(z3.IsInt(self.t)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_current[0].realize(self))

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return current().token(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        return current().token(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Inconclusive("pickling a symbolic value")


def ite(c, a, b):
    """Value-level if (no fork)."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(z3.If(c.t, bterm(a), bterm(b)))
    ta, tb = to_term(a), to_term(b)
    if ta is None or tb is None:
        return a if c else b
    return SymNum(z3.simplify(z3.If(c.t, ta, tb)))


def sym_sqrt(v):
    if isinstance(v, SymNum):
        return _current[0].sqrt(v)
    return math_sqrt(v)


# ----------------------------------------------------------------------------------------------
# symbolic max / min (merged instead of forking)
# ----------------------------------------------------------------------------------------------
def _merge(vals, is_max):
    best_inf = _INF if is_max else -_INF
    finite, seen = [], set()
    for v in vals:
        if is_inf(v):
            if v == best_inf:
                return v
            continue
        if isinstance(v, SymNum):
            k = v.t.get_id()
            if k in seen:
                continue
            seen.add(k)
        finite.append(v)
    if not finite:
        return vals[0]
    concrete = [v for v in finite if not isinstance(v, SymNum)]
    syms = [v for v in finite if isinstance(v, SymNum)]
    if concrete:
        syms.append(_omax(concrete) if is_max else _omin(concrete))
    r = syms[0]
    for v in syms[1:]:
        c = (v > r) if is_max else (v < r)
        r = ite(c, v, r)
    return r


_MISSING = object()


class _Shim:
    """max/min that merges symbolic numbers; not a descriptor (it becomes an Enum value)."""

    def __init__(self, orig, is_max):
        self.orig, self.is_max = orig, is_max
        self.__name__ = orig.__name__

    def __call__(self, *args, key=None, default=_MISSING):
        orig = self.orig
        ctx = _current[0]
        if ctx is None or not ctx.symbolic or key is not None:
            if default is not _MISSING:
                return orig(*args, key=key, default=default)
            return orig(*args, key=key)
        if len(args) == 1:
            vals = list(args[0])
            if not vals and default is not _MISSING:
                return default
        else:
            vals = args
        anysym = False
        for v in vals:
            if type(v) is SymNum or type(v) is SymBool:
                anysym = True
            elif not isinstance(v, (int, float)):
                anysym = False
                break
        if anysym:
            return _merge([v._num() if type(v) is SymBool else v for v in vals], self.is_max)
        return orig(vals)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return self.__name__


sym_max = _Shim(_omax, True)
sym_min = _Shim(_omin, False)


# ----------------------------------------------------------------------------------------------
# hashing: model of CPython's numeric hash for code that compares hashes
# ----------------------------------------------------------------------------------------------
class SymHash(int):
    """C-level value 0 (so hashed containers always compare by equality); Python-level equality
    compares the hashed structure, numbers by CPython's rule hash(-1) == hash(-2)."""

    def __new__(cls, key):
        o = int.__new__(cls, 0)
        o.key = key
        return o

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return _hkey_eq(self.key, o.key)
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 0

    # combining hashes arithmetically keeps the operands' structure
    def _comb(self, op, o):
        return SymHash(("op", op, self.key, o.key if isinstance(o, SymHash) else o))

    def __xor__(self, o):
        return self._comb("^", o)

    def __rxor__(self, o):
        return self._comb("^r", o)

    def __add__(self, o):
        return self._comb("+", o)

    def __radd__(self, o):
        return self._comb("+r", o)

    def __mul__(self, o):
        return self._comb("*", o)

    def __rmul__(self, o):
        return self._comb("*r", o)


def _hnum(v):
    return ite(v == -1, -2, v)


def _hkey_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for p, q in zip(a, b):
            c = _hkey_eq(p, q)
            if c is False:
                return False
            r = c if r is True else (r & c)
        return r
    if isinstance(a, (SymNum, int, float)) and isinstance(b, (SymNum, int, float)):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return _hnum(a) == _hnum(b)
        return hash(a) == hash(b)
    return a == b


_ohash = builtins.hash


def sym_hash(obj):
    if _current[0] is None or not _current[0].symbolic:
        return _ohash(obj)
    if isinstance(obj, (SymNum, int, float)) and not isinstance(obj, (bool, SymHash)):
        return SymHash(obj)
    if isinstance(obj, SymHash):
        return obj
    if type(obj) is tuple:
        return SymHash(tuple(k.key if isinstance(k, SymHash) else k for k in map(sym_hash, obj)))
    h = getattr(type(obj), "__hash__", None)
    if h is not None and hasattr(h, "__code__"):
        return h(obj)
    return _ohash(obj)


# ----------------------------------------------------------------------------------------------
# engine
# ----------------------------------------------------------------------------------------------
class Stats:
    FIELDS = (
        "paths", "infeasible", "branches", "forks", "queries", "unknown", "realized", "obligations",
        "solver_obligations", "trivial_obligations", "validated", "validation_skipped", "validation_mismatch",
        "double_queries", "double_refuted",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.witnesses = {}
        self.samples = []

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.witnesses.items():
            self.witnesses[k] = self.witnesses.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:12]


class Base:
    """What harnesses use; common to the symbolic and the concrete context."""

    symbolic = False

    # logical helpers (never fork)
    @staticmethod
    def all(conds):
        r = True
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            if not isinstance(c, SymBool):
                if not c:
                    return False
                continue
            r = c if r is True else SymBool(z3.And(r.t, c.t))
        return r

    @staticmethod
    def any(conds):
        r = False
        for c in conds:
            if c is True:
                return True
            if c is False:
                continue
            if not isinstance(c, SymBool):
                if c:
                    return True
                continue
            r = c if r is False else SymBool(z3.Or(r.t, c.t))
        return r

    @staticmethod
    def no(c):
        return ~c if isinstance(c, SymBool) else not c

    @contextlib.contextmanager
    def exact(self):
        """Arithmetic of the harness itself, in real numbers even on a path that models rounding."""
        before, _rounding[0] = _rounding[0], None
        try:
            yield
        finally:
            _rounding[0] = before

    def rounding(self):
        """From now on sums and differences of symbolic numbers are rounded like doubles."""

    def implies(self, a, b):
        return self.any([self.no(a), b])

    def iff(self, a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return mkbool(bterm(a) == bterm(b))
        return bool(a) == bool(b)

    ite = staticmethod(ite)

    def max(self, *vals):
        return sym_max(*vals)

    def min(self, *vals):
        return sym_min(*vals)

    def sum(self, vals):
        r = 0
        for v in vals:
            r = r + v
        return r

    def eq(self, a, b):
        """Numeric (or structural, for tuples) equality; tolerant in concrete mode."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.all([self.eq(p, q) for p, q in zip(a, b)])
        r = a == b
        if isinstance(r, SymBool) or r is True:
            return r
        if (
            not self.symbolic and isinstance(a, (int, float)) and isinstance(b, (int, float))
            and math_isfinite(a) and math_isfinite(b)
        ):
            return abs(a - b) <= 1e-7 * _omax(1.0, abs(a), abs(b))
        return bool(r)

    def le(self, a, b):
        r = a <= b
        if isinstance(r, SymBool) or r is True or self.symbolic:
            return r
        return a <= b + 1e-7 * _omax(1.0, abs(a), abs(b)) if math_isfinite(a) and math_isfinite(b) else bool(r)

    def eqall(self, pairs):
        return self.all([self.eq(a, b) for a, b in pairs])


class SymCtx(Base):
    """One symbolic path."""

    symbolic = True

    def __init__(self, prefix, stats, opts, known=()):
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # outcomes of all non-literal decisions, in order
        self.pending = []  # alternative prefixes discovered on this path
        self.stats = stats
        self.opts = opts
        self.known = set(known)
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("query_timeout_ms", 20000))
        self.model = None
        self.memo = {}
        self.keep = []
        self.inputs = {}  # name -> (kind, z3 const)
        self.choices = {}  # name -> int (forked)
        self.checks = []
        self.tokens = []
        self.observed = []
        self.reached = []
        self.sqrt_cache = {}
        self.counter = itertools.count()
        self.rnd_count = 0
        self.failures = []
        self.hashes = 0
        self.store = {}
        self.ranges = {}
        self.rounded = None
        _rounding[0] = None

    def rounding(self):
        from .rounding import Rounding
        self.rounded = _rounding[0] = Rounding(self)

    # -- solver ---------------------------------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive("solver: " + self.solver.reason_unknown())
        return r == z3.sat

    def _add(self, t):
        self.solver.add(t)

    def _model_value(self, t):
        """Truth of t in the cached model of the path condition, or None."""
        if self.model is None:
            return None
        v = self.model.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _sat_with(self, t):
        """Is pc and t satisfiable?  Keeps a model if so."""
        if self._check(t):
            return self.solver.model()
        return None

    def branch(self, t):
        self.stats.branches += 1
        key = t.get_id()
        m = self.memo.get(key)
        if m is not None:
            return m
        if self.pos < len(self.prefix):
            out = self.prefix[self.pos]
            self.pos += 1
            forced = out in (2, 3)
            val = out in (1, 3)
            self.trace.append(out)
            if not forced:
                self._add(t if val else z3.Not(t))
                self.model = None
            self._remember(t, val)
            return val
        nt = z3.Not(t)
        mv = self._model_value(t)
        mt = mf = None
        if mv is True:
            mt = self.model
        elif mv is False:
            mf = self.model
        if mt is None:
            mt = self._sat_with(t)
        if mf is None:
            mf = self._sat_with(nt)
        if mt is None and mf is None:
            raise PathInfeasible()
        if mt is not None and mf is not None:
            self.stats.forks += 1
            self.pending.append(self.trace + [0])
            self.trace.append(1)
            self.pos += 1
            self._add(t)
            self.model = mt
            val = True
        else:
            val = mt is not None
            self.trace.append(3 if val else 2)
            self.pos += 1
            self.model = mt or mf
        self.prefix = self.trace
        self._remember(t, val)
        return val

    def _remember(self, t, val):
        self.keep.append(t)
        self.memo[t.get_id()] = val
        nt = z3.simplify(z3.Not(t))
        self.keep.append(nt)
        self.memo[nt.get_id()] = not val

    def implied(self, t):
        return not self._check(z3.Not(t))

    def realize(self, v):
        """Concrete value of a symbolic number, by forking over its possible values."""
        if not isinstance(v, SymNum):
            return v
        if z3.is_rational_value(v.t):
            f = Fraction(v.t.numerator_as_long(), v.t.denominator_as_long())
            return int(f) if f.denominator == 1 else float(f)
        self.stats.realized += 1
        limit = self.opts.get("realize_limit", 64)
        for n in range(limit):
            if self.pos < len(self.prefix):
                # replaying: the value tried is recorded in the prefix
                val = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(val)
                f = val[1]
            else:
                if self.model is None:
                    if not self._check():
                        raise PathInfeasible()
                    self.model = self.solver.model()
                mv = self.model.eval(v.t, model_completion=True)
                if z3.is_algebraic_value(mv):
                    mv = mv.approx(20)
                f = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                self.trace.append(("v", f))
                self.pos += 1
                self.prefix = self.trace
            c = const_term(f)
            if self.branch(z3.simplify(v.t == c)):
                return int(f) if f.denominator == 1 else float(f)
            self.model = None
        raise Inconclusive("too many values to concretise")

    # -- inputs ----------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        assert name not in self.inputs, name
        c = z3.Real(name)
        self.inputs[name] = ("real", c)
        if lo is not None and hi is not None:
            self.ranges[name] = (Fraction(lo), Fraction(hi))
        if lo is not None:
            self._add(c >= const_term(lo))
        if hi is not None:
            self._add(c <= const_term(hi))
        self.model = None
        return SymNum(c)

    def integer(self, name, lo=None, hi=None):
        assert name not in self.inputs, name
        c = z3.Int(name)
        self.inputs[name] = ("int", c)
        t = z3.ToReal(c)
        if lo is not None:
            self._add(c >= int(lo))
        if hi is not None:
            self._add(c <= int(hi))
        self.model = None
        return SymNum(t, True)

    def boolean(self, name):
        assert name not in self.inputs, name
        c = z3.Bool(name)
        self.inputs[name] = ("bool", c)
        return SymBool(c)

    def choice(self, name, n):
        """A solver-chosen index 0..n-1, forked into concrete values."""
        if n <= 0:
            raise PathInfeasible()
        if n == 1:
            self.choices[name] = 0
            return 0
        v = self.integer(name, 0, n - 1)
        for k in range(n - 1):
            if v == k:
                return k
        return n - 1

    def flag(self, name):
        return bool(self.boolean(name))

    def sqrt(self, v):
        key = v.t.get_id()
        r = self.sqrt_cache.get(key)
        if r is None:
            if v < 0:
                raise ValueError("math domain error")
            c = z3.Real(f"sqrt!{next(self.counter)}")
            self._add(c >= 0)
            self._add(c * c == v.t)
            self.model = None
            r = SymNum(c)
            self.sqrt_cache[key] = r
            self.keep.append(v.t)
        return r

    # -- properties --------------------------------------------------------------------------------
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        self.flush_checks()
        self._add(cond.t)
        self.model = None

    def feasible(self):
        """Is the path condition satisfiable at all?"""
        return self._check()

    def check(self, cond, label, detail=None, known=None):
        if isinstance(cond, SymBool):
            t = cond.t
        else:
            t = z3.BoolVal(bool(cond))
        regions = []
        for kid, region in (known or {}).items():
            if kid in self.known:
                regions.append((kid, bterm(region)))
        self.checks.append((label, t, detail, regions))

    def flush_checks(self):
        todo, self.checks = self.checks, []
        if not todo:
            return
        live = []
        for label, t, detail, regions in todo:
            self.stats.obligations += 1
            if z3.is_true(t):
                self.stats.trivial_obligations += 1
                continue
            self.stats.solver_obligations += 1
            live.append((label, t, detail, regions))
        if not live:
            return
        bad = [z3.And(z3.Not(t), *[z3.Not(r) for _, r in regions]) for _, t, _, regions in live]
        if self._check(z3.Or(*bad)):
            for (label, t, detail, regions), b in zip(live, bad):
                if self._check(b):
                    self.failures.append((label, b, None))
        for label, t, detail, regions in live:
            for kid, r in regions:
                b = z3.And(z3.Not(t), r)
                if self._check(b):
                    self.failures.append((label, b, kid))

    def observe(self, name, value):
        self.observed.append((name, value))

    def reach(self, label):
        self.reached.append(label)

    def token(self, v, spec):
        if isinstance(v, (SymNum, SymBool)):
            # a term whose value is fixed prints as that value
            self.tokens.append((v, spec))
            return f"<<{len(self.tokens) - 1}:{spec}>>"
        return format(v, spec)

    # -- models --------------------------------------------------------------------------------------
    def model_inputs(self, extra):
        """Input values (as exact strings) of a model of pc and extra, preferring small grid values."""
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(extra)
        reals = [c for k, c in self.inputs.values() if k == "real"]
        ints = [c for k, c in self.inputs.values() if k == "int"]
        for denom, bound, tmo in ((1, 200, 3000), (1, 5000, 3000), (8, 5000, 4000), (1024, 2 ** 20, 5000), (None, None, 20000)):
            s.push()
            s.set("timeout", tmo)
            if denom is not None:
                for i, c in enumerate(reals):
                    k = z3.Int(f"grid!{i}")
                    s.add(c * denom == z3.ToReal(k), c <= bound, c >= -bound)
            r = s.check()
            if r == z3.sat:
                m = s.model()
                out = {}
                for name, (kind, c) in self.inputs.items():
                    v = m.eval(c, model_completion=True)
                    if kind == "bool":
                        out[name] = bool(z3.is_true(v))
                    elif kind == "int":
                        out[name] = v.as_long()
                    else:
                        if z3.is_algebraic_value(v):
                            v = v.approx(30)
                        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        out[name] = str(f)
                s.pop()
                return out, (denom is not None), m
            s.pop()
        return None, False, None


def parse_value(v):
    if isinstance(v, str):
        return float(Fraction(v))
    return v


class Exact(Fraction):
    """A rational that stays exact next to floats (which it takes at face value)."""

    def __add__(self, o):
        return _exactly(Fraction.__add__, self, o)

    def __radd__(self, o):
        return _exactly(Fraction.__radd__, self, o)

    def __sub__(self, o):
        return _exactly(Fraction.__sub__, self, o)

    def __rsub__(self, o):
        return _exactly(Fraction.__rsub__, self, o)


def _exactly(f, a, b):
    if isinstance(b, float):
        if not math_isfinite(b):
            return f(a, b)
        b = Fraction(b)
    return Exact(f(a, b))


class ConcCtx(Base):
    """Concrete re-execution of a harness with given input values (ordinary Python numbers)."""

    symbolic = False

    def __init__(self, values, choices=None, opts=None, known=()):
        self.values = dict(values)
        self.choices = dict(choices or {})
        self.opts = opts or {}
        self.known = set()
        self.observed = []
        self.reached = []
        self.rnd_count = 0
        self.hashes = 0
        self.tokens = []
        self.failed = []
        self.store = {}
        self.fractions = False

    def _get(self, name, default):
        return parse_value(self.values.get(name, default))

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, lo if lo is not None else 0.0))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise PathInfeasible()
        return Exact(v) if self.fractions else v

    def integer(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def boolean(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        if n <= 0:
            raise PathInfeasible()
        return _omin(int(self._get(name, 0)), n - 1)

    def flag(self, name):
        return self.boolean(name)

    def sqrt(self, v):
        return math_sqrt(v)

    def assume(self, cond):
        if not cond:
            raise PathInfeasible()

    def check(self, cond, label, detail=None, known=None):
        if not cond:
            self.failed.append((label, detail() if callable(detail) else detail))

    def observe(self, name, value):
        self.observed.append((name, value))

    def reach(self, label):
        self.reached.append(label)

    def realize(self, v):
        return v

    def token(self, v, spec):
        return format(v, spec)
