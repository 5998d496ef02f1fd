"""Doubles: sums and differences whose result is rounded to nearest.

Proving uses a linear model of rounding over the reals: the result r of adding doubles a and b satisfies
|r - (a+b)| <= 2^-53 |a+b| <= 2^-32 (magnitudes below 2^21 by interval arithmetic on the bounded inputs; sums never
underflow inexactly) and, because rounding is monotone and a and b are themselves doubles, r >= a when b >= 0, and
so on where the sign of b is known.  Every behaviour of the
hardware satisfies the model, so what holds in it holds of the doubles.  A failure found in the model may be one
that no doubles show; it is therefore solved again in the theory of IEEE 754 doubles (bit-precise), which gives
the doubles to replay, or shows there are none."""
from __future__ import annotations

import math
import struct
import time
from fractions import Fraction

import z3

from .core import Inconclusive, SymNum, const_term, is_concrete_number, math_isfinite, to_term

U = Fraction(1, 2 ** 53)
COARSE = Fraction(1, 2 ** 32)  # error bound used for every number up to 2^21 (a power of two that keeps terms small)
F64 = z3.Float64()
WIDE = z3.FPSort(15, 113)  # sums and differences of the bounded doubles used here are exact in it
RNE = z3.RNE()
TINY = 2.0 ** -40


class Untranslatable(Exception):
    pass


class Rounding:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.defs = {}  # name of the result -> (op, term, term, exact term)
        self.axioms = set()
        self.keep = []
        self.bounds = {}
        self.intervals = {}

    def interval(self, t):
        """Bounds of a term as two fractions, or None."""
        k = t.get_id()
        if k not in self.intervals:
            self.keep.append(t)
            self.intervals[k] = self._interval(t)
        return self.intervals[k]

    def _interval(self, t):
        if z3.is_rational_value(t):
            return (t.as_fraction(),) * 2
        if t.num_args() == 0:
            name = t.decl().name()
            return self.bounds.get(name) or self.ctx.ranges.get(name)
        parts = [self.interval(c) for c in t.children() if not z3.is_bool(c)]
        if any(p is None for p in parts):
            return None
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            return sum(p[0] for p in parts), sum(p[1] for p in parts)
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return -parts[0][1], -parts[0][0]
        if z3.is_app_of(t, z3.Z3_OP_MUL) and len(parts) == 2:
            ps = [p * q for p in parts[0] for q in parts[1]]
            return min(ps), max(ps)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            (al, ah), (bl, bh) = parts
            larger = _picks(t.arg(0), t.arg(1), t.arg(2))
            if larger == 1:
                return max(al, bl), max(ah, bh)
            if larger == -1:
                return min(al, bl), min(ah, bh)
            return min(al, bl), max(ah, bh)
        return None

    def result(self, op, a, b, exact):
        if not isinstance(exact, SymNum) or exact.isint:
            return exact
        ta, tb = to_term(a), to_term(b)
        if ta is None or tb is None:  # a boolean operand
            return exact
        for v, other in ((a, ta), (b, tb)):
            if is_concrete_number(v) and v == 0 and (op == "+" or v is b):
                return exact
        if z3.is_rational_value(exact.t):
            return exact
        key = (op, *(sorted((ta.get_id(), tb.get_id())) if op == "+" else (ta.get_id(), tb.get_id())))
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        ctx = self.ctx
        name = f"fl!{len(self.defs)}"
        r, e = z3.Real(name), exact.t
        ia, ib = self.interval(ta), self.interval(tb)
        if op == "-":
            ib = None if ib is None else (-ib[1], -ib[0])
        sb = tb if op == "+" else -tb
        if ia is None or ib is None:
            raise Inconclusive("rounding of an unbounded number")
        lo, hi = ia[0] + ib[0], ia[1] + ib[1]
        size = max(abs(lo), abs(hi))
        err = const_term(COARSE if size <= COARSE / U else U * size)
        ax = [r - e <= err, e - r <= err]
        for (l, h), base in ((ib, ta), (ia, sb)):  # base plus a number of known sign
            if l >= 0:
                ax.append(r >= base)
            if h <= 0:
                ax.append(r <= base)
        lo, hi = lo - U * size, hi + U * size
        if ia[0] >= 0 and ib[0] >= 0:
            lo = max(lo, ia[0], ib[0])
        self.bounds[name] = (lo, hi)
        for t in ax:
            self.keep.append(t)
            self.axioms.add(t.get_id())
            ctx._add(t)
        ctx.model = None
        self.defs[name] = (op, ta, tb, e)
        self.keep += [ta, tb, e]
        out = SymNum(r)
        self.cache[key] = out
        return out

    def all_exact(self):
        """Condition under which no sum of the path was rounded."""
        return z3.And(*[z3.Real(n) == e for n, (_, _, _, e) in self.defs.items()]) if self.defs else z3.BoolVal(True)

    # ------------------------------------------------------------------------------ bit-precise
    def doubles(self, extra, model, timeout_ms=40000):
        """("sat", inputs) with doubles showing the path and extra; ("unsat", None); or ("unknown", None)."""
        from .env import _RandomOrig
        ctx, t0 = self.ctx, time.perf_counter()
        fixed = []
        for name, (kind, c) in ctx.inputs.items():
            if kind != "real":
                fixed.append((c, model.eval(c, model_completion=True)))
        goals = [t for t in list(ctx.solver.assertions()) + [extra] if t.get_id() not in self.axioms]
        for attempt in range(25):
            if time.perf_counter() - t0 > timeout_ms / 1000:
                break
            if attempt in (2, 4):  # all of the inputs free
                verdict, found = self._solve(goals, fixed, model, attempt == 2, timeout_ms // 6)
                if verdict == "unsat" and not fixed:
                    return verdict, None
            else:
                pinned = self._pin(extra, fixed, _RandomOrig(attempt), easy=attempt % 3 == 0)
                verdict, found = self._solve(goals, fixed + pinned, model, True, timeout_ms // 6)
            if verdict == "sat":
                return verdict, found
        return "unknown", None

    def _pin(self, extra, fixed, rng, easy):
        """Give most inputs one-decimal values at which the failure remains possible in the model of rounding."""
        ctx = self.ctx
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*ctx.solver.assertions())
        s.add(extra, *[c == v for c, v in fixed])
        names = [n for n, (kind, _) in ctx.inputs.items() if kind == "real"]
        rng.shuffle(names)
        out, m = [], None
        for n in names:
            c = ctx.inputs[n][1]
            lo, hi = ctx.ranges.get(n, (0, 1000))
            tries = [0.0] if easy and rng.random() < 0.5 else [rng.randrange(1, 4000) / 10]
            if m is None and s.check() == z3.sat:
                m = s.model()
            if m is not None:
                v = m.eval(c, model_completion=True)
                if z3.is_rational_value(v):
                    tries.append(round(float(v.as_fraction()) * 10) / 10)
            for v in tries:
                if not lo <= v <= hi:
                    continue
                s.push()
                s.add(c == const_term(v))
                if s.check() == z3.sat:
                    m = s.model()
                    out.append((c, const_term(v)))
                    break
                s.pop()
        return out

    def _solve(self, goals, fixed, model, directed, timeout_ms):
        tr = _Translate(self, fixed, directed)
        s = z3.SolverFor("QF_FP")
        s.set("timeout", timeout_ms)
        try:
            for t in goals:
                s.add(tr.boolean(z3.simplify(z3.substitute(t, *fixed)) if fixed else t, True))
        except Untranslatable:
            return "unknown", None
        for v in tr.inputs.values():
            s.add(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)))
            s.add(z3.Or(z3.And(z3.fpIsZero(v), z3.fpIsPositive(v)), z3.fpGEQ(z3.fpAbs(v), z3.FPVal(TINY, F64))))
        r = s.check()
        if r == z3.sat:
            given = {str(c): v for c, v in fixed}
            return "sat", self._inputs(s.model(), model, tr, given)
        return "unsat" if r == z3.unsat and not tr.stronger else "unknown", None

    def _inputs(self, m, model, tr, given):
        out = {}
        for name, (kind, c) in self.ctx.inputs.items():
            v = model.eval(c, model_completion=True)
            if kind == "bool":
                out[name] = bool(z3.is_true(v))
            elif kind == "int":
                out[name] = v.as_long()
            elif name in tr.inputs:
                bits = m.eval(z3.fpToIEEEBV(tr.inputs[name]), model_completion=True).as_long()
                out[name] = str(Fraction(struct.unpack("<d", struct.pack("<Q", bits))[0]))
            elif name in given:
                out[name] = str(given[name].as_fraction())
            else:
                out[name] = "0"
        return out


def _picks(c, a, b):
    """1 when If(c, a, b) is the larger of a and b, -1 when it is the smaller, 0 otherwise."""
    sign = 1
    while z3.is_not(c):
        c, sign = c.arg(0), -sign
    k = c.decl().kind()
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        pass
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        sign = -sign
    else:
        return 0
    p, q = _Translate._unflatten(c.arg(0), c.arg(1))
    if p.eq(a) and q.eq(b):
        return sign
    if p.eq(b) and q.eq(a):
        return -sign
    return 0


class _Translate:
    """Terms over the reals to terms over doubles.

    Sums the code computes are rounded to nearest.  The harness's own sums are exact: they are evaluated in a wide
    format, or (directed) rounded so that what is asserted can only become stronger, which is cheap to solve."""

    def __init__(self, rounding, fixed, directed):
        self.r, self.fixed, self.directed = rounding, fixed, directed
        self.inputs, self.memo, self.keep = {}, {}, []
        self.stronger = False

    def boolean(self, t, pol):
        k = ("b", t.get_id(), pol)
        if k not in self.memo:
            self.keep.append(t)  # a term that is collected would leave its id to another one
            self.memo[k] = self._boolean(t, pol)
        return self.memo[k]

    def _boolean(self, t, pol):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if z3.is_and(t):
            return z3.And(*[self.boolean(c, pol) for c in t.children()])
        if z3.is_or(t):
            return z3.Or(*[self.boolean(c, pol) for c in t.children()])
        if z3.is_not(t):
            return z3.Not(self.boolean(t.arg(0), not pol if pol is not None else None))
        if z3.is_app_of(t, z3.Z3_OP_IMPLIES):
            return z3.Implies(self.boolean(t.arg(0), not pol if pol is not None else None), self.boolean(t.arg(1), pol))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return z3.If(self.boolean(t.arg(0), None), self.boolean(t.arg(1), pol), self.boolean(t.arg(2), pol))
        if t.num_args() == 2 and z3.is_bool(t.arg(0)):
            a, b = [self.boolean(c, None) for c in t.children()]
            if z3.is_eq(t):
                return a == b
            if z3.is_app_of(t, z3.Z3_OP_XOR):
                return z3.Xor(a, b)
        if t.num_args() == 2 and z3.is_real(t.arg(0)):
            return self.comparison(t, pol)
        raise Untranslatable(t.sexpr()[:200])

    OPS = {z3.Z3_OP_LE: z3.fpLEQ, z3.Z3_OP_LT: z3.fpLT, z3.Z3_OP_GE: z3.fpGEQ, z3.Z3_OP_GT: z3.fpGT, z3.Z3_OP_EQ: z3.fpEQ}

    def comparison(self, t, pol):
        kind = t.decl().kind()
        f = self.OPS.get(kind)
        if f is None:
            raise Untranslatable(t.sexpr()[:200])
        a, b = self._unflatten(t.arg(0), t.arg(1))
        try:
            return f(self.double(a), self.double(b))
        except Untranslatable:
            pass
        if not self.directed:
            return f(self.wide(a), self.wide(b))
        if pol is None or kind == z3.Z3_OP_EQ:
            raise Untranslatable(t.sexpr()[:200])
        a, b = self._balance(t.arg(0), t.arg(1))
        less = kind in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        self.stronger = True
        up_a = less == pol
        return f(self.toward(a, up_a), self.toward(b, not up_a))

    @staticmethod
    def _balance(a, b):
        """a and b with negative summands moved to the other side."""
        sides = ([], [])
        for k, t in enumerate((a, b)):
            for s in (t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]):
                j = k
                if z3.is_app_of(s, z3.Z3_OP_UMINUS):
                    s, j = s.arg(0), 1 - k
                elif z3.is_app_of(s, z3.Z3_OP_MUL) and s.num_args() == 2 and z3.is_rational_value(s.arg(0)) \
                        and s.arg(0).as_fraction() == -1:
                    s, j = s.arg(1), 1 - k
                elif z3.is_rational_value(s) and s.as_fraction() < 0:
                    s, j = const_term(-s.as_fraction()), 1 - k
                if not (z3.is_rational_value(s) and s.as_fraction() == 0):
                    sides[j].append(s)
        out = []
        for side in sides:
            # one at a time, so that a chain of sums has as few roundings as terms
            out.append(side[0] if len(side) == 1 else z3.Sum(side) if side else const_term(0))
        return out

    def toward(self, t, up):
        """The exact value of t, rounded up or down."""
        k = ("t", t.get_id(), up)
        if k not in self.memo:
            self.keep.append(t)  # a term that is collected would leave its id to another one
            self.memo[k] = self._toward(t, up)
        return self.memo[k]

    def _toward(self, t, up):
        try:
            return self.double(t)
        except Untranslatable:
            pass
        mode = z3.RTP() if up else z3.RTN()
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            r = self.toward(t.arg(0), up)
            for a in t.children()[1:]:
                r = z3.fpAdd(mode, r, self.toward(a, up))
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return z3.fpNeg(self.toward(t.arg(0), not up))
        if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            f = t.arg(0).as_fraction()
            if f == -1:
                return z3.fpNeg(self.toward(t.arg(1), not up))
        if z3.is_rational_value(t):
            f = t.as_fraction()
            v = float(f)
            if (Fraction(v) < f) if up else (Fraction(v) > f):
                v = math.nextafter(v, math.inf if up else -math.inf)
            return z3.FPVal(v, F64)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            pick = _picks(t.arg(0), t.arg(1), t.arg(2))
            a, b = self.toward(t.arg(1), up), self.toward(t.arg(2), up)
            if pick:  # rounding is monotone: the larger of the rounded values is the larger one rounded
                c = z3.fpGEQ(a, b) if pick == 1 else z3.fpLEQ(a, b)
                return z3.If(c, a, b)
            return z3.If(self.boolean(t.arg(0), None), a, b)
        raise Untranslatable(t.sexpr()[:200])

    @staticmethod
    def _unflatten(a, b):
        """x + -1*y <= 0 as x <= y."""
        if z3.is_rational_value(b) and b.numerator_as_long() == 0 and z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2:
            for p, q in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                if z3.is_app_of(q, z3.Z3_OP_MUL) and q.num_args() == 2 and z3.is_rational_value(q.arg(0)) \
                        and q.arg(0).as_fraction() == -1:
                    return p, q.arg(1)
        return a, b

    def double(self, t):
        """A double-sorted term; only for what the code holds in one number."""
        k = ("d", t.get_id())
        if k not in self.memo:
            self.keep.append(t)  # a term that is collected would leave its id to another one
            self.memo[k] = self._double(t)
        return self.memo[k]

    def _double(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            try:
                if Fraction(float(f)) == f:
                    return z3.FPVal(float(f), F64)
            except OverflowError:
                pass
            raise Untranslatable("not a double")
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return z3.If(self.boolean(t.arg(0), None), self.double(t.arg(1)), self.double(t.arg(2)))
        if t.num_args() == 0:
            name = t.decl().name()
            d = self.r.defs.get(name)
            if d is not None:
                op, a, b, _ = d
                if self.fixed:
                    a, b = z3.substitute(a, *self.fixed), z3.substitute(b, *self.fixed)
                f = z3.fpAdd if op == "+" else z3.fpSub
                return f(RNE, self.double(a), self.double(b))
            if name in self.r.ctx.inputs and self.r.ctx.inputs[name][0] == "real":
                return self.inputs.setdefault(name, z3.FP(f"in!{name}", F64))
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return z3.fpNeg(self.double(t.arg(0)))
        raise Untranslatable(t.sexpr()[:200])

    def wide(self, t):
        """A term of a format in which the harness's own arithmetic is exact."""
        k = ("w", t.get_id())
        if k not in self.memo:
            self.keep.append(t)  # a term that is collected would leave its id to another one
            self.memo[k] = self._wide(t)
        return self.memo[k]

    def _wide(self, t):
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            r = self.wide(t.arg(0))
            for a in t.children()[1:]:
                r = z3.fpAdd(RNE, r, self.wide(a))
            return r
        if z3.is_app_of(t, z3.Z3_OP_SUB):
            r = self.wide(t.arg(0))
            for a in t.children()[1:]:
                r = z3.fpSub(RNE, r, self.wide(a))
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return z3.fpNeg(self.wide(t.arg(0)))
        if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            f = t.arg(0).as_fraction()
            if f == -1:
                return z3.fpNeg(self.wide(t.arg(1)))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return z3.If(self.boolean(t.arg(0), None), self.wide(t.arg(1)), self.wide(t.arg(2)))
        return z3.fpFPToFP(RNE, self.double(t), WIDE)
