"""C08: every insertion picks among the k best available candidates, until none is left."""
from checks.insertion_common import *  # noqa: F401,F403

PROPERTY = "C08"
BOUNDS = ("quick: 1-3 identical vehicles, 1-3 trips, with and without initial routes, k = 1 and 2, the six criteria, intensive, "
          "tail and sampling strategies; limits (latest return, delivery limits, pickup starts, route durations, ride times, loads, service durations) symbolic, distances concrete on "
          "a line or symbolic for up to 2 trips; thorough: symbolic distances and k = 3 too. Data in [0, 1000]")
ASSUMPTIONS = ["travel times symmetric with the triangle inequality (some cases: one-way ones, or ones that depend on the clock)",
               "vehicles are identical, so empty vehicles' candidates count once; the neighbourhood covers all trips",
               "candidates are what the chosen strategy proposes for a route (C06) and scores what the criterion says (C12)"]
MUST_REACH = {"quick": ["picked", "stopped", "stopped-early", "second-best", "new-vehicle"]}

CRITERIA = dict(
    last=criterions.EarliestLastDepartureTimeRouteCriterion, mean=criterions.ShortestAveragePlannerTripDurationCriterion,
    short=criterions.ShortestTimeRouteCriterion, long=criterions.LongestTimeRouteCriterion,
    util=criterions.LongestUtilTimeRouteCriterion, hashcode=criterions.HashCodeRouteCriterion)


def steps(x, nv, nt, kind, geometry, iterator, strategy, criterion="last", layout=None, k=1):
    w, vs, ts = build(x, nv, nt, kind, geometry)
    job, fleet = Job(set(ts), DialARideObjective), Fleet(set(vs))
    initial = None if layout is None else initial_result(x, job, fleet, vs, ts, layout)
    options = {} if iterator == "stateless" else dict(randomized_size=k)
    result, log = run(x, job, fleet, iterator, strategy, initial, criterion_cls=CRITERIA[criterion], **options)
    crit = CRITERIA[criterion]()
    upward = criterion in ("long", "util", "hashcode")
    current = {v: Route(v) for v in vs} if initial is None else {r.vehicle: r.clone() for r in initial.routes}
    propose = STRATEGIES[strategy]()
    for picked in log:
        pending = [t for t in ts if not any(t is u for r in current.values() for u in r.trips)]
        scores, empties = [], 0
        for v, r in current.items():
            if not any(True for _ in r.trips):
                empties += 1
                if empties > 1:
                    continue
            for c in propose.compute(r, pending):
                scores.append(crit.scoring(c))
        if picked is None:
            x.check(not scores, "building stops only when no pending trip has a feasible candidate")
            x.reach("stopped")
            if pending:
                x.reach("stopped-early")
            break
        x.check(bool(picked.feasible) and len(scores) > 0, "a candidate is picked only if there is a feasible one")
        added = [t for t in pending if any(t is u for u in picked.trips)]
        old = current[picked.vehicle]
        x.check(len(added) == 1 and len(list(picked.trips)) == len(list(old.trips)) + 1 and
                {id(t) for t in old.trips} <= {id(t) for t in picked.trips}, "a step adds one pending trip to a current route")
        if iterator != "stateless":
            mine = crit.scoring(picked)
            better = [(s > mine if upward else s < mine) for s in scores]
            x.check(x.sum([x.ite(b, 1, 0) for b in better]) <= k - 1, f"one of the {'best' if k == 1 else 'k best'} candidates is picked")
            if k > 1 and len(scores) > 1 and x.symbolic:
                x.reach("second-best")
        if not any(True for _ in old.trips) and any(any(True for _ in r.trips) for r in current.values()):
            x.reach("new-vehicle")
        x.reach("picked")
        current[picked.vehicle] = picked
    x.check(log[-1] is None, "the iterator is asked until it has no candidate")
    x.observe("value", tuple(result.optimization_value))


def cases(tier):
    out = []

    def add(nv, nt, kind, geometry, iterator, strategy, criterion="last", layout=None, k=1):
        name = (f"{iterator}-{strategy}-{nv}v{nt}t-{kind}-{geometry}-{criterion}-k{k}"
                + (f"-{layout}" if layout is not None else ""))
        out.append(dict(name=name, harness="steps", params=dict(
            nv=nv, nt=nt, kind=kind, geometry=geometry, iterator=iterator, strategy=strategy, criterion=criterion,
            layout=layout, k=k)))
    for it_ in ITERATORS:
        add(1, 2, "span", "sym", it_, "tail")
        add(2, 2, "span", "line", it_, "intensive")
        add(2, 2, "late", "line", it_, "intensive")
        add(2, 2, "wait", "line", it_, "intensive")
        add(2, 3, "span", "line", it_, "tail")
        add(2, 3, "late", "line", it_, "tail", "last", [[0], []])
        add(3, 3, "late", "line", it_, "tail", "last", [[0], [], []])
        add(2, 2, "late", "line", it_, "sampling")
        for kind in ("load", "ride", "work", "serve"):
            add(2, 2, kind, "line", it_, "tail")
        add(3, 3, "late", "line", it_, "tail", "last", [[0], [1], []])
        add(3, 3, "work", "line", it_, "tail", "last", [[0], [1], []])
        add(3, 3, "wait", "line", it_, "intensive", "last", [[0], [1], []])
        out += together([c for c in out if c["name"] in (f"{it_}-tail-2v2t-load-line-last-k1", f"{it_}-tail-2v2t-ride-line-last-k1")],
                        patterns=("twin", "swap", "loop", "home"))
        out += traffic([c for c in out if c["name"] == f"{it_}-tail-1v2t-span-sym-last-k1"], kinds=("directed",))
        out += traffic([c for c in out if c["name"] in (f"{it_}-intensive-2v2t-wait-line-last-k1", f"{it_}-tail-2v3t-late-line-last-k1-[[0], []]")],
                       kinds=("clock",))
        if it_ != "stateless":
            for c in CRITERIA:
                if c != "last":
                    add(2, 2, "late", "line", it_, "tail", c)
            add(2, 2, "span", "sym", it_, "tail", "last", None, 2)
            add(2, 2, "wait", "line", it_, "intensive", "last", None, 2)
            add(2, 3, "wait", "line", it_, "tail", "short", [[0], []], 2)
            add(2, 3, "late", "line", it_, "intensive", "last", [[0], []], 2)
            add(3, 3, "late", "line", it_, "tail", "short", [[0], [1], []], 2)
            add(2, 3, "wait", "line", it_, "tail", "last", [[0], [1]], 1)
            add(2, 3, "wait", "line", it_, "tail", "last", [[0], [1]], 2)
        if tier == "thorough":
            add(1, 2, "span", "sym", it_, "intensive")
            add(2, 3, "late", "line", it_, "intensive")
            if it_ != "stateless":
                add(2, 3, "wait", "line", it_, "tail", "last", None, 3)
                add(2, 3, "span", "sym", it_, "tail", "last", [[0], []], 2)
                add(2, 4, "late", "line", it_, "tail", "mean", [[0], [1]], 3)
    return out
