"""C24: the seed decides every random choice."""
from checks.insertion_common import *  # noqa: F401,F403
from checks.c10 import Log, setup, stub  # noqa: E402
from jinete.algorithms import (  # noqa: E402
    GraspAlgorithm, IterativeAlgorithm, LocalSearchAlgorithm, OneShiftLocalSearchStrategy, ReallocationLocalSearchStrategy,
    SequentialAlgorithm, TwoOPTLocalSearchStrategy)

PROPERTY = "C24"
BOUNDS = ("two runs with the same seed (zero or any integer >= 1000) compared draw by draw and planning by planning; quick: insertion with "
          "the three iterators and strategies on up to 2 vehicles and 3 trips with 1-3 best candidates, sampling directly with 1-2 of "
          "its pairs, local search with each strategy on 2 routes (first draw, 9 trips; complete runs, 2 trips), iterative, "
          "sequential, nested and GRASP runs of up to 3 episodes and stages over recording and real stages; thorough: 3 vehicles, "
          "4 candidates, 5 episodes. A generator seeded with s gives an arbitrary function of s and the draw's number; an unseeded "
          "one (and the global one) arbitrary values; data in [0, 1000]")
ASSUMPTIONS = ["both runs enumerate the sets they build in the same order", "different seeds and differently numbered draws of "
               "seeds are different from each other (growing, in the order they are drawn)"]
MUST_REACH = {"quick": ["twice", "drawn", "seed matters", "episodes differ", "stages differ", "own seed", "first draws"]}


def plan(planning):
    return sorted((r.vehicle.identifier, tuple((tuple(sorted(p.trip.identifier for p in s.pickup_planned_trips)),
                                                tuple(sorted(p.trip.identifier for p in s.delivery_planned_trips))) for s in r.stops),
                   tuple(s.position.idx for s in r.stops)) for r in planning.routes)


class Stopped(Exception):
    pass


def once(x, make, base):
    """One run: its outcome and the random values it drew, with sets enumerated as in the other run."""
    x.store["hash_next"] = base
    del x.store.setdefault("draws", [])[:]
    try:
        out = make()
    except core.PathInfeasible:
        if len(x.store.get("rnd", {})) < x.store.get("draw_limit", 1 << 30):
            raise
        out = None  # the bound on the number of draws was met
        x.reach("first draws")
    return out, list(x.store["draws"])


def both(x, make, shape):
    base = x.store.get("hash_next", 0)
    a, da = once(x, make, base)
    limit, seen = x.store.get("draw_limit"), len(x.store.get("rnd", {}))
    if a is None:
        x.store["draw_limit"] = 2 * seen  # an unseeded generator asks for new values in the second run
    b, db = once(x, make, base)
    if a is None:
        x.store["draw_limit"] = limit
        n = min(len(da), len(db))
        x.check(n > 0, "both runs draw the same values")
        x.check(x.all([x.eq(p, q) for p, q in zip(da[:n], db[:n])]), "both runs draw the same values")
    else:
        x.check(len(da) == len(db), "both runs draw equally often")
        x.check(x.all([x.eq(p, q) for p, q in zip(da, db)]), "both runs draw the same values")
        x.check(b is not None and shape(a) == shape(b), "both runs make the same choices")
    if da:
        x.reach("drawn")
    x.reach("twice")
    return a, b


def apart(x, *seeds):
    """Seeds and drawn seeds are all different (so that no two generators coincide by chance): growing, in the order made."""
    vals = list(seeds) + list(x.store.get("wide_draws", []))
    x.assume(x.all([1000 <= v for v in vals[1:]] + [a < b for a, b in zip(vals, vals[1:])]))


def seed_of(x, name="seed"):
    """Zero or any larger number that no default or own seed is."""
    seed = x.integer(name, 0, 2 ** 31)
    x.assume(x.any([seed == 0, seed >= 1000]))
    return seed


def insertion(x, nv, nt, kind, geometry, iterator, strategy, k=2, layout=None):
    w, vs, ts = build(x, nv, nt, kind, geometry)
    job, fleet = Job(set(ts), DialARideObjective), Fleet(set(vs))
    initial = None if layout is None else initial_result(x, job, fleet, vs, ts, layout)
    s = seed_of(x)
    options = dict(seed=s) if iterator == "stateless" else dict(seed=s, randomized_size=k)
    a, b = both(x, lambda: run(x, job, fleet, iterator, strategy, initial, **options)[0].planning, plan)
    apart(x, s)
    x.observe("served", len([1 for r in a.routes for _ in r.trips]))


def matters(x, nv, nt, kind, geometry, iterator, k=2):
    """Another seed may lead to another planning (some path must show it)."""
    w, vs, ts = build(x, nv, nt, kind, geometry)
    job, fleet = Job(set(ts), DialARideObjective), Fleet(set(vs))
    s, r = seed_of(x), seed_of(x, "other")
    x.assume(x.no(s == r))
    base = x.store.get("hash_next", 0)
    outs = [once(x, lambda: run(x, job, fleet, iterator, "tail", None, seed=q, randomized_size=k)[1], base)[0] for q in (s, r)]
    firsts = [None if not o or o[0] is None else (o[0].vehicle.identifier, tuple(t.identifier for t in o[0].trips)) for o in outs]
    x.check((firsts[0] is None) == (firsts[1] is None), "the first step exists for both seeds")
    if firsts[0] != firsts[1]:
        x.reach("seed matters")
    x.observe("first", firsts[0] is None)


def sampling(x, trips, count, base_trips=1):
    w, vs, ts = build(x, 1, base_trips + trips, "span", "line")
    route = fresh_route(vs[0], [(k, ts[i]) for i in range(base_trips) for k in "PD"])
    x.assume(schedule_conditions(x, route, 0.0))
    s = seed_of(x)
    new = [ts[base_trips + i] for i in range(trips)]
    x.store["draw_limit"] = 2 * count + 2
    a, b = both(x, lambda: SamplingInsertionStrategy(seed=s, only_feasible=False).compute(route.clone(), new, count=count),
                lambda out: [[(tuple(p.trip.identifier for p in v.pickup_planned_trips), v.position.idx) for v in r.stops] for r in out])
    apart(x, s)
    x.observe("candidates", 0 if a is None else len(a))


def search(x, strategy, first=False, options=True):
    """Local search twice from the same result; `first`: a route long enough for pairs to be sampled, up to the first draw."""
    cls = dict(reallocation=ReallocationLocalSearchStrategy, two_opt=TwoOPTLocalSearchStrategy, one_shift=OneShiftLocalSearchStrategy)[strategy]
    n = 9 if first else 2
    w = World(x, 1 + 2 * n, tri=False)
    for i, j in w.surface.matrix:
        w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(i - j)) if first else w.surface.matrix[i, j]
    late = x.real("latest", 0, BIG)
    vs = [w.vehicle(f"v{i}", 0, earliest=0.0, latest=late, timeout=INF, capacity=float(n)) for i in range(2)]
    for i in range(n):
        w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF, capacity=1.0, duration=0.0)
    split = 1
    lay = [[i for i in range(split)], [i for i in range(split, n)]]
    routes = [fresh_route(v, [(k, w.trips[i]) for i in served for k in "PD"]) for v, served in zip(vs, lay)]
    job, fleet = Job(set(w.trips), DialARideObjective), Fleet(set(vs))
    for r in routes:
        x.assume(schedule_conditions(x, r, 0.0))
    s = seed_of(x)
    if first:
        x.store["draw_limit"] = 1
    given = make_result(job, fleet, routes)
    a, b = both(x, lambda: LocalSearchAlgorithm(initial=given, strategy_cls=cls, fleet=fleet, job=job, seed=s).optimize().planning, plan)
    apart(x, s)
    x.observe("routes", 0 if a is None else len(a.routes))


def build_meta(x, which, job, fleet, seed, log, n, m, own=None, restart=True):
    if which == "iterative":
        return IterativeAlgorithm(episodes=n, algorithm_cls=stub(log, "e"), seed=seed, restart_mode=restart, fleet=fleet, job=job)
    if which == "sequential":
        return SequentialAlgorithm(algorithms_cls=[(stub(log, i), {} if i != own else dict(seed=77)) for i in range(n)], seed=seed,
                                   fleet=fleet, job=job)
    if which == "nested":
        return IterativeAlgorithm(episodes=n, algorithm_cls=SequentialAlgorithm, restart_mode=restart, seed=seed, fleet=fleet, job=job,
                                  algorithms_cls=[(stub(log, i), {} if i != own else dict(seed=77)) for i in range(m)])
    first = dict(algorithm_cls=stub(log, "first"), episodes=m)
    if own is not None:
        first["seed"] = 77
    return GraspAlgorithm(first_solution_kwargs=first, local_search_kwargs=dict(algorithms_cls=[(stub(log, "local"), {})]),
                          seed=seed, episodes=n, fleet=fleet, job=job)


def meta(x, which, n, m=1, own=None, restart=True):
    """Stages' seeds: the same in both runs with one seed, able to differ with another, and from one another."""
    calls = n * (m + 3 if which == "grasp" else m)
    w, v, job, fleet, _ = setup(x, calls, (1,))
    for i, key in enumerate(sorted(w.surface.matrix)):
        w.surface.matrix[key] = w.surface.tmatrix[key] = float((i * 37) % 11)
    s, r = seed_of(x), seed_of(x, "other")
    x.assume(x.no(s == r))
    runs = []
    base = x.store.get("hash_next", 0)
    for q in (s, s, r):
        log = Log(x, w, v, (1,))
        once(x, lambda: build_meta(x, which, job, fleet, q, log, n, m, own, restart).optimize(), base)
        runs.append([(c["tag"], c["kwargs"].get("seed")) for c in log.calls])
    a, b, c = runs
    apart(x, s, r)
    x.check([t for t, _ in a] == [t for t, _ in b], "the same stages run with the same seed")
    drawn, other = [], []
    for i, ((tag, p), (_, q)) in enumerate(zip(a, b)):
        x.check(p is not None and q is not None, "every stage is given a seed")
        if p is None or q is None:
            return
        x.check(x.eq(p, q), "stages get the same seeds in both runs")
        if which != "grasp" and own is not None and tag == own:
            x.check(x.eq(p, 77), "a stage keeps its own seed")
            x.reach("own seed")
        else:
            drawn.append(p)
            other.append(c[i][1] if i < len(c) else None)
    if which == "grasp" and own is not None:
        x.reach("own seed")
        drawn, other = zip(*[(p, o) for (t, p), p_, o in zip(a, drawn, other) if t == "local"])
    # a drawn seed is a fresh value of the generator: nothing forces it to any particular value
    for p, o in zip(drawn, other):
        if o is None:
            continue
        x.check(x.no(x.eq(p, o)), "another seed gives the stages other seeds")
    if drawn:
        x.reach("seed matters")
    for i, p in enumerate(drawn):
        for q in drawn[:i]:
            x.check(x.no(x.eq(p, q)), "stages that are not given a seed get different ones")
            x.reach("episodes differ" if which in ("iterative", "grasp") else "stages differ")
    x.observe("calls", len(a))


def real(x, which, nt=2):
    """Metaheuristics over the real stages, twice."""
    w = World(x, 1 + 2 * nt, tri=True)
    xs = [0] + [c for i in range(nt) for c in (3 * i + 1, 3 * i + 4)]
    for i, j in w.surface.matrix:
        w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(xs[i] - xs[j]))
    late = x.real("latest", 0, BIG)
    vs = [w.vehicle(f"v{i}", 0, earliest=0.0, latest=late, timeout=INF, capacity=INF) for i in range(2)]
    for i in range(nt):
        w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF, capacity=1.0, duration=0.0)
    job, fleet = Job(set(w.trips), DialARideObjective), Fleet(set(vs))
    s = seed_of(x)
    ins = dict(randomized_size=2, strategy_cls=TailInsertionStrategy)

    def make():
        if which == "iterative":
            alg = IterativeAlgorithm(episodes=2, seed=s, fleet=fleet, job=job, **ins)
        elif which == "sequential":
            alg = SequentialAlgorithm(algorithms_cls=[(InsertionAlgorithm, dict(ins)), (LocalSearchAlgorithm, {})], seed=s, fleet=fleet, job=job)
        else:
            alg = GraspAlgorithm(seed=s, episodes=1, fleet=fleet, job=job, first_solution_kwargs=dict(ins, episodes=1),
                                 local_search_kwargs=dict(algorithms_cls=[(LocalSearchAlgorithm, {})]))
        return alg.optimize().planning
    a, b = both(x, make, plan)
    apart(x, s)
    x.observe("routes", len(a.routes))


def cases(tier):
    out = []
    deep = tier == "thorough"

    def add(h, name, expect=None, **p):
        c = dict(name=f"{h}-{name}", harness=h, params=p)
        if expect:
            c["expect"] = expect
        out.append(c)
    for it_ in ("ranking", "best", "stateless"):
        for st in ("tail", "intensive", "sampling"):
            add("insertion", f"{it_}-{st}", nv=2, nt=2, kind="late", geometry="line", iterator=it_, strategy=st)
        add("insertion", f"{it_}-3", nv=2, nt=3, kind="span", geometry="line", iterator=it_, strategy="tail", k=3)
        add("insertion", f"{it_}-initial", nv=2, nt=3, kind="late", geometry="line", iterator=it_, strategy="tail", layout=[[0], []])
        if deep:
            add("insertion", f"{it_}-4", nv=3, nt=3, kind="late", geometry="line", iterator=it_, strategy="tail", k=4)
            add("insertion", f"{it_}-sym", nv=1, nt=2, kind="span", geometry="sym", iterator=it_, strategy="tail", k=2)
    for it_ in ("ranking", "best"):
        add("matters", it_, nv=1, nt=2, kind="span", geometry="line", iterator=it_, expect=["seed matters"])
    for t, c in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if deep else ()):
        add("sampling", f"{t}-{c}", trips=t, count=c)
    for st in ("reallocation", "two_opt", "one_shift"):
        add("search", st, strategy=st)
    add("search", "reallocation-long", strategy="reallocation", first=True, expect=["first draws"])
    for n in range(1, 6 if deep else 4):
        for restart in (True, False):
            add("meta", f"iterative-{n}-{restart}", which="iterative", n=n, restart=restart)
        add("meta", f"sequential-{n}", which="sequential", n=n)
        add("meta", f"sequential-{n}-own", which="sequential", n=n, own=0)
    add("meta", "nested-2-2", which="nested", n=2, m=2)
    add("meta", "nested-2-2-own", which="nested", n=2, m=2, own=1, restart=False)
    add("meta", "grasp-1-1", which="grasp", n=1, m=1)
    add("meta", "grasp-1-2", which="grasp", n=1, m=2)
    add("meta", "grasp-2-1", which="grasp", n=2, m=1)
    add("meta", "grasp-own", which="grasp", n=1, m=1, own=0)
    for k in ("iterative", "sequential", "grasp"):
        add("real", k, which=k)
    return out
