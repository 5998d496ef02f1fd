"""Does a linear model built over symbolic data admit an assignment, for *all* data of the path?

`admits` answers "exists an assignment satisfying the conditions" as a condition over the data: counterexample-guided
synthesis of witnesses.  A witness fixes the 0/1 decisions and gives every continuous variable one expression from a
pool (starts, loads, constants, ...).  Data the witnesses so far do not cover are looked for by the solver; if such data
admit no assignment at all they are the counterexample, otherwise another witness is built from them.
"""
import time

import z3

from . import core


def _solve(x, s):
    t0 = time.perf_counter()
    s.set("timeout", 60000)
    r = s.check()
    x.stats.solver_s += time.perf_counter() - t0
    x.stats.queries += 1
    if r == z3.unknown:
        raise core.Inconclusive("solver: " + s.reason_unknown())
    return r == z3.sat


def admits(x, fake, conditions, pool, rounds=80):
    if not x.symbolic:
        s = z3.Solver()
        s.add(*[core.bterm(c) for c in conditions])
        return s.check() == z3.sat
    C = z3.And(*[core.bterm(c) for c in conditions])
    data = [c for _, c in x.inputs.values()]
    bits = [v.const for v in fake.vars if v.number is None and not isinstance(v.bit, bool)]
    nums = [v.const for v in fake.vars if v.number is not None]
    terms, seen = [], set()
    for e in pool:
        t = z3.simplify(core.to_term(e))
        if t.get_id() not in seen:
            seen.add(t.get_id())
            terms.append(t)
    sel = [[z3.Bool(f"sel!{i}!{k}") for k in range(len(terms))] for i in range(len(nums))]

    def at(p, t):
        return z3.substitute(t, *p)

    def fit(points):
        """A witness good for all the points, or None."""
        s = z3.Solver()
        for row in sel:
            s.add(z3.PbEq([(b, 1) for b in row], 1))
        for n, p in enumerate(points):
            fresh = [z3.Real(f"at!{n}!{i}") for i in range(len(nums))]
            values = [z3.simplify(at(p, t)) for t in terms]
            for row, v in zip(sel, fresh):
                for b, val in zip(row, values):
                    s.add(z3.Implies(b, v == val))
            s.add(z3.substitute(at(p, C), *zip(nums, fresh)))
        if not _solve(x, s):
            return None
        m = s.model()
        sub = [(b, z3.BoolVal(z3.is_true(m.eval(b, model_completion=True)))) for b in bits]
        for c, row in zip(nums, sel):
            sub.append((c, next(t for b, t in zip(row, terms) if z3.is_true(m.eval(b, model_completion=True)))))
        return z3.simplify(z3.substitute(C, *sub))

    open_ = z3.Solver()
    open_.add(*x.solver.assertions())
    done, group, current = [], [], None
    for _ in range(rounds):
        open_.push()
        if current is not None:
            open_.add(z3.Not(current))
        if not _solve(x, open_):
            return core.mkbool(z3.Or(*done, *([current] if current is not None else [])))
        m = open_.model()
        open_.pop()
        p = [(c, m.eval(c, model_completion=True)) for c in data]
        if any(z3.is_algebraic_value(v) for _, v in p):
            raise core.Inconclusive("irrational data")
        better = fit(group + [p])
        if better is not None:
            group, current = group + [p], better
            continue
        s = z3.Solver()
        s.add(at(p, C))
        if not _solve(x, s):
            return core.mkbool(z3.Not(z3.And(*[c == v for c, v in p])))
        if current is not None:
            done.append(current)
            open_.add(z3.Not(current))
        group, current = [p], fit([p])
        if current is None:
            raise core.Inconclusive("the model admits the data, but with no assignment of the expected form")
    raise core.Inconclusive("too many witnesses")
