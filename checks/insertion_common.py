"""Insertion algorithm runs shared by C07 and C08."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.algorithms import (  # noqa: E402
    InsertionAlgorithm, RankingInsertionIterator, StatelessInsertionIterator)
from jinete.algorithms.heuristics.insertion import BestStatelessInsertionIterator  # noqa: E402
from jinete.algorithms.heuristics.insertion.strategies import (  # noqa: E402
    IntensiveInsertionStrategy, SamplingInsertionStrategy, TailInsertionStrategy)
from jinete.models import DialARideObjective  # noqa: E402
from jinete.models import criterions  # noqa: E402

ITERATORS = dict(ranking=RankingInsertionIterator, stateless=StatelessInsertionIterator, best=BestStatelessInsertionIterator)
STRATEGIES = dict(intensive=IntensiveInsertionStrategy, sampling=SamplingInsertionStrategy, tail=TailInsertionStrategy)


# which limits of trips and vehicles are symbolic
KINDS = dict(
    span=(dict(), dict(latest="sym")),
    late=(dict(o_tw="none", d_tw="late"), dict()),
    wait=(dict(o_tw="early", d_tw="none"), dict(latest="sym")),
    load=(dict(capacity="sym"), dict(capacity="sym")),
    ride=(dict(timeout="sym"), dict()),
    work=(dict(o_tw="early", d_tw="none"), dict(timeout="sym")),
    serve=(dict(duration="sym"), dict(latest="sym")),
)


def build(x, nv, nt, kind, geometry="sym", hetero=False):
    """nv vehicles and nt trips.  kind: which limits are symbolic."""
    w = World(x, 1 + 2 * nt, tri=True)
    if geometry == "line":
        # positions on a line: depot 0, trip i from 3i+1 to 3i+4 (concrete distances)
        xs = [0] + [c for i in range(nt) for c in (3 * i + 1, 3 * i + 4)]
        for i, j in w.surface.matrix:
            w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(xs[i] - xs[j]))
            if w.surface.back:
                w.surface.back[i, j] = w.surface.tmatrix[i, j]
    tk, vk = KINDS[kind]
    if not hetero:
        # all vehicles share one symbolic limit
        vk = {k: x.real(f"all.{k}", 0, BIG) if v == "sym" else v for k, v in vk.items()}
    vs = [w.vehicle(f"v{i}", 0, **{**dict(earliest=0.0, latest=INF, timeout=INF, capacity=float(nt)), **vk}) for i in range(nv)]
    ts = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, **{**dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), **tk}) for i in range(nt)]
    return w, vs, ts


def recorder(base, log):
    class Recorder(base):
        def __next__(self):
            try:
                r = super().__next__()
            except StopIteration:
                log.append(None)
                raise
            log.append(r)
            return r
    return Recorder


def run(x, job, fleet, iterator, strategy, initial=None, **options):
    log = []
    alg = InsertionAlgorithm(iterator_cls=recorder(ITERATORS[iterator], log), initial=initial, fleet=fleet, job=job,
                             strategy_cls=STRATEGIES[strategy], **options)
    return alg.optimize(), log


def initial_result(x, job, fleet, vs, ts, layout):
    """layout: per vehicle None (not in the initial planning) or the list of trips it already serves."""
    routes = {fresh_route(v, [(k, ts[i]) for i in served for k in "PD"]) for v, served in zip(vs, layout) if served is not None}
    result = make_result(job, fleet, routes)
    for r in routes:
        x.assume(x.all([schedule_conditions(x, r, 0.0)]))
    return result
