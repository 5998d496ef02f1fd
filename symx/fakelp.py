"""The exact algorithm's linear model, built by the real code over a stand-in for the LP library.

`FakeLP` takes the place of the `pulp` module inside jinete's model module.  Expressions and constraints
are collected exactly as the code writes them (coefficients may be symbolic); infinite coefficients are
refused like pulp refuses them.  `solve` does not optimise: it lets the solver choose *any* assignment
that satisfies the collected constraints.
"""
import sys

import z3

from . import core

SLACK = 1e-6


class PulpError(Exception):
    pass


def finite(v):
    if isinstance(v, float) and (v != v or core.is_inf(v)):
        raise PulpError("NaN/inf value in a linear expression")
    return v


class LpExpr:
    __hash__ = None

    def __init__(self, terms=(), const=0):
        self.terms, self.const = dict(terms), const

    @staticmethod
    def of(v):
        if isinstance(v, LpExpr):
            return v
        if isinstance(v, LpVar):
            return LpExpr({v: 1})
        if isinstance(v, (list, tuple)) or hasattr(v, "__next__"):
            return lp_sum(v)
        return LpExpr((), finite(v))

    def __add__(self, o):
        o = self.of(o)
        t = dict(self.terms)
        for k, c in o.terms.items():
            t[k] = t[k] + c if k in t else c
        return LpExpr(t, self.const + o.const)

    __radd__ = __add__

    def __mul__(self, f):
        if isinstance(f, (LpExpr, LpVar)):
            f, self = (LpExpr.of(f), self)
            if f.terms and self.terms:
                raise TypeError("Non-constant expressions cannot be multiplied")
            if f.terms:
                f, self = self, f
            f = f.const
        finite(f)
        return LpExpr({k: c * f for k, c in self.terms.items()}, self.const * f)

    __rmul__ = __mul__

    def __truediv__(self, f):
        return self * (1 / f)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + self.of(o) * -1

    def __rsub__(self, o):
        return self.of(o) + self * -1

    def __pos__(self):
        return self

    def __le__(self, o):
        return LpCons(self - o, "<=")

    def __ge__(self, o):
        return LpCons(self - o, ">=")

    def __eq__(self, o):
        return LpCons(self - o, "==")

    def evaluate(self):
        r = self.const
        for k, c in self.terms.items():
            r = r + k.times(c)
        return r

    value = evaluate

    def items(self):
        return self.terms.items()

    def __repr__(self):
        return "<linear expression>"


class LpVar:
    """A variable; `lowBound`/`upBound` as in pulp."""

    def __init__(self, name, lowBound=None, upBound=None, cat="Continuous", e=None):
        lib = FakeLP.active
        self.name, self.cat = name, cat
        if cat == "Binary":
            cat, lowBound, upBound = "Integer", 0, 1
        self.lowBound, self.upBound = lowBound, upBound
        lib.declare(self)

    def times(self, c):
        """c * value, linear in the variable when it is an arc decision."""
        if self.bit is not None:
            if isinstance(self.bit, bool):
                return c if self.bit else 0
            return core.ite(self.bit, c, 0)
        return c * self.number

    @property
    def exact(self):
        return self.times(1)

    @property
    def varValue(self):
        if self.bit is None:
            return self.number
        return FakeLP.active.shown(self)

    def value(self):
        return self.varValue

    def setInitialValue(self, *a, **k):
        pass

    # arithmetic
    def __add__(self, o):
        return LpExpr.of(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return LpExpr.of(self) - o

    def __rsub__(self, o):
        return LpExpr.of(o) - self

    def __mul__(self, o):
        return LpExpr.of(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return LpExpr.of(self) / o

    def __neg__(self):
        return LpExpr.of(self) * -1

    def __le__(self, o):
        return LpExpr.of(self) <= o

    def __ge__(self, o):
        return LpExpr.of(self) >= o

    def __eq__(self, o):
        return LpExpr.of(self) == o

    def __hash__(self):
        return id(self)

    @classmethod
    def dicts(cls, name, indices, lowBound=None, upBound=None, cat="Continuous", indexStart=()):
        if not isinstance(indices, tuple):
            return {i: cls(f"{name}_{i}", lowBound, upBound, cat) for i in indices}
        first, rest = indices[0], indices[1:]
        if not rest:
            return {i: cls(f"{name}_{'_'.join(map(str, (*indexStart, i)))}", lowBound, upBound, cat) for i in first}
        return {i: cls.dicts(name, rest, lowBound, upBound, cat, (*indexStart, i)) for i in first}

    @classmethod
    def matrix(cls, name, indices, lowBound=None, upBound=None, cat="Continuous", indexStart=()):
        d = cls.dicts(name, indices, lowBound, upBound, cat, indexStart)

        def lst(v):
            return [lst(a) for a in v.values()] if isinstance(v, dict) else v
        return lst(d)


class LpCons:
    __hash__ = None

    def __init__(self, expr, sense):
        self.expr, self.sense = expr, sense
        finite(expr.const)

    def holds(self, slack=0):
        v = self.expr.evaluate()
        if self.sense == "<=":
            return v <= slack
        if self.sense == ">=":
            return v >= -slack
        if slack:
            return abs(v) <= slack
        return v == 0

    def __bool__(self):
        return True

    def __repr__(self):
        return "<linear constraint>"


def lp_sum(vector):
    r = LpExpr()
    for v in vector:
        r = r + LpExpr.of(v)
    return r


class FakeLP:
    active = None
    LpMinimize, LpMaximize = 1, -1
    LpBinary, LpInteger, LpContinuous = "Binary", "Integer", "Continuous"
    LpStatus = {0: "Not Solved", 1: "Optimal", -1: "Infeasible", -2: "Unbounded", -3: "Undefined"}
    LpStatusOptimal, LpStatusNotSolved, LpStatusInfeasible = 1, 0, -1
    LpConstraintEQ, LpConstraintLE, LpConstraintGE = 0, -1, 1
    LpVariable, LpAffineExpression, LpConstraint, LpConstraintVar, LpSolver, PulpError = LpVar, LpExpr, LpCons, LpCons, object, PulpError
    lpSum = staticmethod(lp_sum)

    def __init__(self, x, mode="any", tolerance=None):
        self.x, self.mode, self.tolerance = x, mode, tolerance
        self.vars, self.problems, self.log = [], [], []
        if tolerance:
            self.low = x.real("integrality.low", 0, tolerance)
            self.high = x.real("integrality.high", 0, tolerance)
        fake = self

        class LpProblem:
            def __init__(self, name="NoName", sense=1):
                self.name, self.sense, self.objective, self.constraints, self.status = name, sense, None, [], 0
                fake.problems.append(self)

            def extend(self, other, use_objective=True):
                items = other.values() if isinstance(other, dict) else other
                for c in items:
                    self.addConstraint(c[1] if isinstance(c, tuple) else c)

            def addConstraint(self, c, name=None):
                if isinstance(c, tuple):
                    c = c[0]
                if isinstance(c, bool):
                    raise TypeError("Can only add LpConstraint, LpAffineExpression or True objects")
                if isinstance(c, LpCons):
                    self.constraints.append(c)
                else:
                    raise TypeError("Can only add constraints")

            def setObjective(self, obj):
                self.objective = LpExpr.of(obj)

            def __iadd__(self, c):
                if isinstance(c, tuple) and isinstance(c[0], LpCons):
                    c = c[0]
                if isinstance(c, LpCons):
                    self.addConstraint(c)
                else:
                    self.setObjective(c[0] if isinstance(c, tuple) else c)
                return self

            def variables(self):
                return list(fake.vars)

            def solve(self, solver=None, **kwargs):
                fake.solve(self)
                self.status = 1
                return 1
        self.LpProblem = LpProblem

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Inconclusive(f"the LP stand-in has no {name}")

    def value(self, v):
        return v.value() if isinstance(v, (LpExpr, LpVar)) else v

    def declare(self, var):
        n = len(self.vars)
        self.vars.append(var)
        var.bit = var.number = None
        integer = var.cat in ("Binary", "Integer")
        if integer and not (var.lowBound in (0, 0.0) and var.upBound in (0, 1)):
            raise core.Inconclusive("integer variables other than 0/1")
        if integer and var.upBound == 0:
            var.bit = False
        elif self.mode == "free":
            if integer:
                var.const = z3.Bool(f"lp!{n}")
                var.bit = core.SymBool(var.const)
            else:
                var.const = z3.Real(f"lp!{n}")
                var.number = core.SymNum(var.const)
        elif integer:
            var.bit = self.x.boolean(f"lp.{var.name}")
        else:
            var.number = self.x.real(f"lp.{var.name}")

    def shown(self, var):
        """Value an LP solver may report for a 0/1 decision."""
        if not self.tolerance:
            return var.exact * 1.0
        if isinstance(var.bit, bool):
            return 1 - self.high if var.bit else self.low
        return core.ite(var.bit, 1 - self.high, self.low)

    def conditions(self, problem, slack=0):
        out = [c.holds(slack) for c in problem.constraints]
        for v in self.vars:
            if v.bit is None:
                if v.lowBound is not None:
                    out.append(v.number >= v.lowBound - slack)
                if v.upBound is not None:
                    out.append(v.number <= v.upBound + slack)
        return out

    def solve(self, problem):
        self.solved = problem
        if self.mode == "free":
            raise Captured()
        self.x.assume(self.x.all(self.conditions(problem, 0 if self.x.symbolic else SLACK)))


class Captured(Exception):
    pass


def lp_modules():
    import pulp
    return [m for n, m in sys.modules.items() if n.startswith("jinete") and any(v is pulp for v in vars(m).values())]


class patched:
    """Puts the stand-in where jinete's modules hold the LP library."""

    def __init__(self, fake):
        self.fake = fake

    def __enter__(self):
        import pulp
        self.saved = [(m, n) for m in lp_modules() for n, v in vars(m).items() if v is pulp]
        if not self.saved:
            raise core.Inconclusive("no module of jinete holds the LP library")
        for m, n in self.saved:
            setattr(m, n, self.fake)
        FakeLP.active = self.fake
        return self.fake

    def __exit__(self, *a):
        import pulp
        for m, n in self.saved:
            setattr(m, n, pulp)
