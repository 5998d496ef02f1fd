"""C07: the insertion algorithm's planning is valid and keeps what it was given or has accepted."""
from checks.insertion_common import *  # noqa: F401,F403

PROPERTY = "C07"
BOUNDS = ("quick: 1-3 vehicles, 1-3 trips, with and without an initial planning (0-2 served trips, vehicles missing from it), "
          "ranking, stateless and best-stateless iterators, intensive, tail and sampling strategies, 1 or 2 best candidates "
          "drawn at random, proposals restricted to feasible ones or not; symbolic distances with a symbolic latest return, or, on a "
          "line, symbolic delivery limits, pickup starts, service durations, ride times, loads (0 too) and capacities, latest "
          "returns and route durations, alike or different per vehicle; thorough: more trips and vehicles. Data in [0, 1000]")
ASSUMPTIONS = ["travel times symmetric with the triangle inequality (some cases: one-way ones, or ones that depend on the clock)",
               "every vehicle can at least return to its depot unused, and the initial planning is feasible",
               "sampling strategies cover all position pairs (the default count)"]
MUST_REACH = {"quick": ["all-served", "some-left", "none-served", "from-initial", "stop-iteration", "stopped at an infeasible one"]}


def algorithm(x, nv, nt, kind, geometry, iterator, strategy, layout=None, k=1, **more):
    w, vs, ts = build(x, nv, nt, kind, geometry, more.pop("hetero", False))
    job, fleet = Job(set(ts), DialARideObjective), Fleet(set(vs))
    initial = snaps = None
    if layout is not None:
        initial = initial_result(x, job, fleet, vs, ts, layout)
        given = {t: r.vehicle for r in initial.routes for t in r.trips}
        snaps = [(r, snapshot(r)) for r in initial.routes]
    options = dict(more) if iterator == "stateless" else dict(more, randomized_size=k)
    result, log = run(x, job, fleet, iterator, strategy, initial, **options)
    routes = list(result.routes)
    x.check(len({id(r.vehicle) for r in routes}) == len(routes), "each vehicle has at most one route")
    x.check(all(any(r.vehicle is v for v in vs) for r in routes), "only vehicles of the fleet are used")
    served = [t for r in routes for t in r.trips]
    x.check(len({id(t) for t in served}) == len(served), "each trip is served at most once")
    x.check(all(any(t is u for u in ts) for t in served), "only trips of the job are served")
    for r in routes:
        x.check(schedule_conditions(x, r), "every route satisfies its constraints")
        x.check(bool(r.feasible), "every route is feasible")
        x.check(structure_ok(x, r), "routes are well linked")
    for r in log:
        if r is not None and r.feasible:
            now = [q for q in routes if q.vehicle is r.vehicle]
            x.check(len(now) == 1 and {id(t) for t in r.trips} <= {id(t) for t in now[0].trips},
                    "an accepted trip stays served, by the same vehicle")
    if layout is not None:
        x.check(len(initial.routes) == len(snaps) and all(any(r is q for q, _ in snaps) for r in initial.routes),
                "the initial planning has the same routes as before")
        for r, s in snaps:
            x.check(same_snapshot(x, s, snapshot(r)), "the initial routes report the same as before")
        for t, v in given.items():
            x.check(any(r.vehicle is v and any(u is t for u in r.trips) for r in routes),
                    "trips of the initial planning stay served, by the same vehicle")
        x.check(not any(s is q for r, _ in snaps for s in r.stops for p in routes for q in p.stops),
                "the new planning shares no stop with the initial one")
        x.reach("from-initial")
    if log and log[-1] is None:
        x.reach("stop-iteration")
    if any(r is not None and not r.feasible for r in log):
        x.reach("stopped at an infeasible one")
    x.reach("all-served" if len(served) == nt else "some-left" if served else "none-served")
    x.observe("served", len(served))
    x.observe("value", tuple(result.optimization_value))


def cases(tier):
    out = []

    def add(nv, nt, kind, geometry, iterator, strategy, layout=None, k=1, **more):
        name = f"{iterator}-{strategy}-{nv}v{nt}t-{kind}-{geometry}-k{k}" + (f"-{layout}" if layout is not None else "")
        name += "".join(f"-{a}={b}" for a, b in more.items())
        out.append(dict(name=name, harness="algorithm", params=dict(nv=nv, nt=nt, kind=kind, geometry=geometry, iterator=iterator,
                                                                     strategy=strategy, layout=layout, k=k, **more)))
    for it_ in ITERATORS:
        add(1, 1, "span", "sym", it_, "intensive")
        if it_ == "stateless" or tier == "thorough":
            add(1, 2, "span", "sym", it_, "intensive")
        add(1, 2, "span", "sym", it_, "tail")
        add(2, 2, "span", "line", it_, "intensive")
        add(2, 2, "late", "line", it_, "intensive")
        add(2, 2, "wait", "line", it_, "intensive")
        add(2, 3, "span", "line", it_, "tail")
        add(2, 2, "span", "sym", it_, "tail", [[0], []])
        add(2, 3, "span", "line", it_, "tail", [[0], []])
        add(2, 3, "late", "line", it_, "tail", [[0], None])
        add(3, 3, "span", "line", it_, "intensive", [[0], [1], []])
        add(2, 3, "span", "line", it_, "tail", [[], []])
        add(2, 2, "span", "line", it_, "sampling")
        add(2, 3, "late", "line", it_, "intensive", [[0], []])
        add(2, 2, "wait", "line", it_, "sampling", [[], [1]])
        add(2, 3, "wait", "line", it_, "tail", [[1], [0]])
        for kind in ("load", "ride", "work", "serve"):
            add(2, 2, kind, "line", it_, "tail")
            add(2, 3, kind, "line", it_, "tail", [[0], []])
        add(2, 3, "load", "line", it_, "intensive", [[0], [1]])
        add(2, 2, "load", "line", it_, "tail", hetero=True)
        add(2, 2, "span", "line", it_, "tail", hetero=True)
        add(2, 3, "span", "line", it_, "tail", [[0], []], hetero=True)
        for kind in ("span", "late", "wait"):
            add(1, 2, kind, "line", it_, "intensive", only_feasible=False)
            add(2, 2, kind, "line", it_, "tail", [[0], []], only_feasible=False)
        add(2, 3, "work", "line", it_, "tail", only_feasible=False)
        add(2, 2, "wait", "line", it_, "tail")
        out += together([c for c in out if c["name"] in (f"{it_}-tail-2v2t-load-line-k1", f"{it_}-tail-2v2t-wait-line-k1")],
                        patterns=("twin", "swap", "loop", "home"))
        out += traffic([c for c in out if c["name"] in (f"{it_}-tail-2v2t-span-sym-k1-[[0], []]", f"{it_}-tail-1v2t-span-sym-k1")], kinds=("directed",))
        out += traffic([c for c in out if c["name"] in (f"{it_}-intensive-2v2t-wait-line-k1", f"{it_}-tail-2v3t-late-line-k1-[[0], None]",
                                                        f"{it_}-tail-2v2t-ride-line-k1")], kinds=("clock",))
        if it_ != "stateless":
            add(2, 2, "late", "line", it_, "tail", None, 2)
            add(2, 3, "span", "line", it_, "tail", [[0], []], 2)
        if tier == "thorough":
            add(2, 3, "span", "line", it_, "intensive")
            add(2, 3, "late", "line", it_, "intensive")
            add(2, 3, "wait", "line", it_, "tail")
            add(2, 2, "span", "sym", it_, "intensive", [[0], []])
            add(3, 4, "late", "line", it_, "tail", [[0], [], []])
            add(2, 3, "span", "sym", it_, "tail")
    return out
