"""C10: metaheuristics return the best planning they met and wire their stages together."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.algorithms import (  # noqa: E402
    Algorithm, GraspAlgorithm, InsertionAlgorithm, IterativeAlgorithm, LocalSearchAlgorithm, SequentialAlgorithm)
from jinete.models import DialARideObjective  # noqa: E402

PROPERTY = "C10"
BOUNDS = ("quick: iterative runs of 1-4 episodes, sequences of 1-3 stages and GRASP runs of 1-2 outer episodes over recording stages "
          "whose plannings have 0 or 1 served trips and arbitrary driven distances (symbolic), with and without restarts, an initial "
          "result, extra options, stage seeds, stage fleets and jobs, and second runs of the same algorithm; the same with the real insertion and local-search stages on 2 trips; "
          "thorough: up to 6 episodes, 4 stages, 3 GRASP episodes. Data in [0, 1000]")
ASSUMPTIONS = ["distinct draws of the random source are taken as distinct where seeds are compared",
               "in GRASP the local-search stage's own class, restart mode and episode count (3) are fixed by design"]
MUST_REACH = {"quick": ["iterative", "no-restart", "tie", "sequential", "grasp", "nested", "real"]}


class Log:
    def __init__(self, x, w, vehicle, counts):
        self.x, self.w, self.vehicle, self.calls, self.counts, self.offset = x, w, vehicle, [], counts, 0

    def planning(self, k):
        """k-th planning: one route, with a served trip or not; its distance is symbolic."""
        n = self.counts[k % len(self.counts)]
        trip = self.w.trips[k + self.offset]
        return Planning({fresh_route(self.vehicle, [("P", trip), ("D", trip)] if n else [([], [], trip.origin_position)])})


def stub(log, tag):
    class Stub(Algorithm):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.call = dict(tag=tag, args=args, kwargs=dict(kwargs), planning=None, instance=self)
            log.calls.append(self.call)

        def _optimize(self):
            k = sum(c["planning"] is not None for c in log.calls)
            self.call["order"] = k
            self.call["planning"] = log.planning(k)
            return self.call["planning"]
    return Stub


def value(planning):
    """(served trips, minus distance) from the definition."""
    n, d = 0, 0
    for r in planning.routes:
        pos = r.vehicle.origin_position
        for s in r.stops:
            d = d - pos.surface.distance(pos, s.position)
            pos = s.position
            n += len(list(s.pickup_planned_trips))
    return n, d


def geq(x, a, b):
    return x.any([a[0] > b[0], x.all([a[0] == b[0], x.le(b[1], a[1])])])


def best(x, planning, others):
    return x.all([geq(x, value(planning), value(o)) for o in others])


def setup(x, calls, counts):
    w = World(x, 1 + calls, tri=False)
    v = w.vehicle("v0", 0, earliest=0.0, latest=INF, timeout=INF, capacity=INF)
    for i in range(calls):
        w.trip(f"t{i}", 1 + i, 0, tw="none", timeout=INF, capacity=1.0, duration=0.0)
    job, fleet = Job(set(w.trips), DialARideObjective), Fleet({v})
    return w, v, job, fleet, Log(x, w, v, counts)


def same_plan(planning, candidates):
    """The candidate whose planning this is (same object, or the same single route's stops)."""
    for c in candidates:
        if c is planning:
            return True
    return False


def seeds_ok(x, calls, label):
    """Every call has a seed; different calls have different ones (when the random source's draws differ)."""
    seeds = [c["kwargs"].get("seed") for c in calls]
    x.check(all(s is not None for s in seeds), f"{label}: every run is given a seed")
    if any(s is None for s in seeds):
        return
    draws = [v for k, v in x.store.get("rnd", {}).items()]
    distinct = x.all([x.no(a == b) for i, a in enumerate(draws) for b in draws[:i]])
    for i, a in enumerate(seeds):
        for b in seeds[:i]:
            x.check(x.implies(distinct, x.no(a == b)), f"{label}: each run has its own seed")


def episodes(x, calls, restart, given, label):
    """The rules of an iterative run over its recorded episodes."""
    for i, c in enumerate(calls):
        got = c["kwargs"].get("initial")
        if restart or i == 0:
            x.check(got is given if given is None or isinstance(given, Result) else same_plan(getattr(got, "planning", None), [given]),
                    f"{label}: an episode starts from the given result")
            continue
        earlier = [e["planning"] for e in calls[:i]]
        ok = isinstance(got, Result) and same_plan(got.planning, earlier)
        x.check(ok, f"{label}: without restarts an episode starts from an earlier result")
        if ok:
            x.check(best(x, got.planning, earlier), f"{label}: without restarts an episode starts from the best result so far")


def plumbing(x, calls, job, fleet, options, label):
    for c in calls:
        x.check(c["instance"].fleet is fleet, f"{label}: fleet reaches the runs")
        x.check(c["instance"].job is job, f"{label}: job reaches the runs")
        for k, v in options.items():
            x.check(c["kwargs"].get(k) is v, f"{label}: options reach the runs unchanged")


def iterative(x, n, restart, counts=(1,), initial=False, seed=7, options=True, again=False):
    w, v, job, fleet, log = setup(x, 2 * n if again else n, counts)
    opts = dict(alpha=object(), beta=[1, 2]) if options else {}
    given = make_result(job, fleet, [fresh_route(v, [])]) if initial else None
    kw = dict(opts)
    if initial:
        kw["initial"] = given
    frozen = dict(kw)
    algorithm = IterativeAlgorithm(episodes=n, algorithm_cls=stub(log, "e"), seed=seed, restart_mode=restart, fleet=fleet, job=job, **kw)
    result = algorithm.optimize()
    if again:
        # the rules hold for a second run of the same algorithm too
        log.calls.clear()
        log.offset = n
        result = algorithm.optimize()
    x.check(len(log.calls) == n, "iterative: the configured number of episodes runs")
    x.check(kw == frozen, "iterative: the options are not modified")
    plans = [c["planning"] for c in log.calls]
    x.check(result.planning in plans, "iterative: returns one of the episodes' plannings")
    x.check(best(x, result.planning, plans), "iterative: returns the best of the episodes")
    x.check(result.job is job and result.fleet is fleet, "iterative: the result is for the given instance")
    seeds_ok(x, log.calls, "iterative")
    episodes(x, log.calls, restart, given, "iterative")
    plumbing(x, log.calls, job, fleet, opts, "iterative")
    x.observe("best", value(result.planning))
    x.reach("iterative")
    if not restart and n > 1:
        x.reach("no-restart")
    vals = [value(p) for p in plans]
    if n > 1 and vals[0][0] == vals[1][0] and vals[0][1] == vals[1][1]:
        x.reach("tie")


def sequential(x, n, initial=False, seeded=(), other_fleet=(), counts=(1,), again=False):
    w, v, job, fleet, log = setup(x, 2 * n if again else n, counts)
    other = Fleet({v})
    stages, opts = [], []
    for i in range(n):
        o = dict(alpha=object(), n=i)
        if i in seeded:
            o["seed"] = 1000 + i
        if i in other_fleet:
            o["fleet"] = other
        stages.append((stub(log, i), o))
        opts.append(dict(o))
    given = make_result(job, fleet, [fresh_route(v, [])]) if initial else None
    algorithm = SequentialAlgorithm(initial=given, algorithms_cls=stages, seed=7, fleet=fleet, job=job)
    result = algorithm.optimize()
    if again:
        log.calls.clear()
        log.offset = n
        result = algorithm.optimize()
    calls = log.calls
    x.check([c["tag"] for c in calls] == list(range(n)) and [c.get("order") for c in calls] == list(range(n)),
            "sequential: the stages run once each, in order")
    x.check(all(o == s[1] for o, s in zip(opts, stages)), "sequential: the options are not modified")
    for i, c in enumerate(calls):
        got = c["kwargs"].get("initial")
        if i == 0:
            x.check(got is given, "sequential: the first stage starts from the given result")
        else:
            x.check(isinstance(got, Result) and got.planning is calls[i - 1]["planning"],
                    "sequential: each stage starts from the previous stage's result")
        x.check(c["instance"].fleet is (other if i in other_fleet else fleet), "sequential: fleet reaches the stages")
        x.check(c["instance"].job is job, "sequential: job reaches the stages")
        for k, val in opts[i].items():
            x.check(c["kwargs"].get(k) is val, "sequential: per-stage options reach the stage unchanged")
    seeds_ok(x, [c for c in calls if c["tag"] not in seeded], "sequential")
    x.check(bool(calls) and result.planning is calls[-1]["planning"], "sequential: returns the last stage's planning")
    x.observe("last", value(result.planning))
    x.reach("sequential")


def grasp(x, outer, first, counts=(1,), seed=7, fixed=False, own=None):
    per = first + 3
    w, v, job, fleet, log = setup(x, outer * per, counts)
    if fixed:  # distances given; only which planning is served or not varies
        for k, i in enumerate(sorted(w.surface.matrix)):
            w.surface.matrix[i] = w.surface.tmatrix[i] = float((k * 37) % 11)
    a, b = object(), object()
    first_kwargs = dict(algorithm_cls=stub(log, "first"), episodes=first, alpha=a)
    local_kwargs = dict(algorithms_cls=[(stub(log, "local"), dict(beta=b))])
    fleets = dict(first=fleet, local=fleet)
    jobs = dict(first=job, local=job)
    if own in ("first", "local"):
        fleets[own], jobs[own] = Fleet({v}), Job(set(w.trips), DialARideObjective)
        (first_kwargs if own == "first" else local_kwargs).update(fleet=fleets[own], job=jobs[own])
    frozen = dict(first_kwargs), dict(local_kwargs)
    result = GraspAlgorithm(first_solution_kwargs=first_kwargs, local_search_kwargs=local_kwargs,
                            seed=seed, episodes=outer, fleet=fleet, job=job).optimize()
    x.check((first_kwargs, local_kwargs) == frozen, "grasp: the options are not modified")
    calls = log.calls
    x.check([c["tag"] for c in calls] == (["first"] * first + ["local"] * 3) * outer,
            "grasp: each episode is a first-solution stage followed by a local-search stage")
    if len(calls) != outer * per:
        return
    finals = []
    for k in range(outer):
        fs, ls = calls[k * per:k * per + first], calls[k * per + first:(k + 1) * per]
        plumbing(x, fs, jobs["first"], fleets["first"], dict(alpha=a), "grasp first solution")
        plumbing(x, ls, jobs["local"], fleets["local"], dict(beta=b), "grasp local search")
        x.check(not any("alpha" in c["kwargs"] for c in ls) and not any("beta" in c["kwargs"] for c in fs),
                "grasp: options reach their own stage only")
        seeds_ok(x, fs + ls, "grasp")
        episodes(x, fs, True, None, "grasp first solution")
        got = ls[0]["kwargs"].get("initial")
        plans = [c["planning"] for c in fs]
        ok = isinstance(got, Result) and got.planning in plans
        x.check(ok, "grasp: local search starts from a first solution")
        if ok:
            x.check(best(x, got.planning, plans), "grasp: local search starts from the best first solution")
        for i in (1, 2):
            got = ls[i]["kwargs"].get("initial")
            earlier = [c["planning"] for c in ls[:i]]
            ok = isinstance(got, Result) and got.planning in earlier
            x.check(ok, "grasp: each local search goes on from an earlier one")
            if ok:
                x.check(best(x, got.planning, earlier), "grasp: each local search goes on from the best one so far")
        finals += [c["planning"] for c in ls]
    x.check(result.planning in finals, "grasp: returns a planning of the local-search stage")
    x.check(best(x, result.planning, finals), "grasp: returns the best local-search planning")
    x.observe("best", value(result.planning))
    x.reach("grasp")


def nested(x, outer, inner, restart=False):
    """Iterative over iterative: both rules compose."""
    w, v, job, fleet, log = setup(x, outer * inner, (1,))
    result = IterativeAlgorithm(episodes=outer, algorithm_cls=SequentialAlgorithm, restart_mode=restart, fleet=fleet, job=job, seed=3,
                                algorithms_cls=[(stub(log, i), dict(n=i)) for i in range(inner)]).optimize()
    calls = log.calls
    x.check([c["tag"] for c in calls] == list(range(inner)) * outer, "nested: every episode runs all stages")
    lasts = [c["planning"] for c in calls if c["tag"] == inner - 1]
    x.check(result.planning in lasts, "nested: returns the last stage's planning of an episode")
    x.check(best(x, result.planning, lasts), "nested: returns the best of the episodes")
    for k in range(1, outer):
        got = calls[k * inner]["kwargs"].get("initial") if len(calls) > k * inner else None
        if restart:
            x.check(got is None, "nested: with restarts an episode starts anew")
        else:
            ok = isinstance(got, Result) and got.planning in lasts[:k]
            x.check(ok, "nested: an episode starts from an earlier result")
            if ok:
                x.check(best(x, got.planning, lasts[:k]), "nested: an episode starts from the best so far")
    seeds_ok(x, calls, "nested")
    x.observe("best", value(result.planning))
    x.reach("nested")


def recording(base, log):
    class Recording(base):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._entry = dict(kwargs=dict(kwargs), result=None)
            log.append(self._entry)

        def optimize(self):
            r = super().optimize()
            self._entry["result"] = r
            return r
    return Recording


def real(x, which, nt=2):
    """The real stages: what comes back is the best of what they produced, valid, and keeps what was given."""
    w = World(x, 1 + 2 * nt, tri=True)
    xs = [0] + [c for i in range(nt) for c in (3 * i + 1, 3 * i + 4)]
    for i, j in w.surface.matrix:
        w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(xs[i] - xs[j]))
    v = w.vehicle("v0", 0, earliest=0.0, latest="sym", timeout=INF, capacity=INF)
    for i in range(nt):
        w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF, capacity=1.0, duration=0.0)
    job, fleet = Job(set(w.trips), DialARideObjective), Fleet({v})
    log, local = [], []
    x.store["draw_limit"] = 5
    if which == "iterative":
        alg = IterativeAlgorithm(episodes=2, algorithm_cls=recording(InsertionAlgorithm, log), seed=5, fleet=fleet, job=job)
    elif which == "sequential":
        initial = make_result(job, fleet, [fresh_route(v, [("P", w.trips[0]), ("D", w.trips[0])])])
        x.assume(schedule_conditions(x, list(initial.routes)[0], 0.0))
        alg = SequentialAlgorithm(initial=initial, fleet=fleet, job=job, seed=5)
    else:
        alg = GraspAlgorithm(episodes=1, seed=5, fleet=fleet, job=job,
                             first_solution_kwargs=dict(algorithm_cls=recording(InsertionAlgorithm, log), episodes=1),
                             local_search_kwargs=dict(algorithms_cls=[(recording(LocalSearchAlgorithm, local), {})]))
    result = alg.optimize()
    served = [t.identifier for r in result.routes for t in r.trips]
    x.check(len(set(served)) == len(served), "real: each trip at most once")
    for r in result.routes:
        x.check(schedule_conditions(x, r), "real: every route satisfies its constraints")
    if which == "sequential":
        x.check(w.trips[0].identifier in served, "real: trips of the initial result stay served")
    runs = [e["result"].planning for e in (local or log)]
    if runs:
        x.check(best(x, result.planning, runs), "real: the returned planning is the best of the runs")
    if local:
        x.check(best(x, result.planning, [log[0]["result"].planning]), "real: local search does not worsen the first solution")
    x.observe("best", value(result.planning))
    x.reach("real")


def cases(tier):
    out = []

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    deep = tier == "thorough"
    for n in range(1, 7 if deep else 5):
        for restart in (True, False):
            add("iterative", f"{n}-{'restart' if restart else 'continue'}", n=n, restart=restart)
    for restart in (True, False):
        add("iterative", f"3-mixed-{restart}", n=3, restart=restart, counts=(1, 0))
        add("iterative", f"3-mixed2-{restart}", n=3, restart=restart, counts=(0, 1, 1))
        add("iterative", f"2-initial-{restart}", n=2, restart=restart, initial=True)
        add("iterative", f"3-initial-{restart}", n=3, restart=restart, initial=True, counts=(0,))
        add("iterative", f"2-noopt-{restart}", n=2, restart=restart, options=False, seed=0)
    for n in range(1, 5 if deep else 4):
        add("sequential", f"{n}", n=n)
        add("sequential", f"{n}-initial", n=n, initial=True, counts=(1, 0))
        add("sequential", f"{n}-seeded", n=n, seeded=[0], other_fleet=[n - 1])
    add("sequential", "3-down", n=3, initial=True, counts=(1, 1, 0))
    for c in ((1,), (1, 0, 1), (0, 1, 1, 0)):
        nm = "".join(map(str, c))
        add("grasp", f"1-1-{nm}", outer=1, first=1, counts=c)
        add("grasp", f"1-2-{nm}", outer=1, first=2, counts=c)
        add("grasp", f"2-1-{nm}", outer=2, first=1, counts=c)
    for own in ("first", "local"):
        add("grasp", f"1-2-own-{own}", outer=1, first=2, own=own)
        add("grasp", f"2-1-own-{own}", outer=2, first=1, own=own, fixed=True)
    for restart in (True, False):
        add("iterative", f"2-again-{restart}", n=2, restart=restart, again=True)
        add("iterative", f"2-again-initial-{restart}", n=2, restart=restart, again=True, initial=True)
    add("sequential", "2-again", n=2, again=True)
    add("sequential", "2-again-initial", n=2, again=True, initial=True, seeded=[1])
    if deep:
        add("grasp", "2-2", outer=2, first=2)
    add("nested", "2-2", outer=2, inner=2)
    add("nested", "3-2", outer=3, inner=2)
    add("nested", "3-2-restart", outer=3, inner=2, restart=True)
    for k in ("iterative", "sequential", "grasp"):
        add("real", k, which=k)
        if deep:
            add("real", f"{k}-3", which=k, nt=3)
    return out
