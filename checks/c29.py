"""C29: local search takes the improvements within its reach."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from checks.c06 import expected_visits  # noqa: E402
from checks.c09 import KINDS, OBJECTIVES, STRATEGIES, LocalSearchAlgorithm, PathInfeasible, build, value  # noqa: E402,F401

PROPERTY = "C29"
BOUNDS = ("quick: feasible plannings of one route with 1-3 trips or two routes with 0-2 trips each, any visiting order, stops that "
          "serve two trips; each strategy once, and the local-search algorithm (up to two rounds around the real strategies, up to 4 "
          "around an arbitrary one, thresholds 1-3); the three objectives; one kind of limit symbolic at a time, distances symbolic "
          "or on a line; thorough: more trips, orders and limits. Data in [0, 1000]")
ASSUMPTIONS = ["the given planning is feasible, every stop is served as early as possible and no start was asked for",
               "travel times symmetric with the triangle inequality (some cases: one-way ones, or ones that depend on the clock)",
               "at most 128 pairs of positions per trip, so the reallocation tries all of them",
               "a neighbour counts when it keeps every limit exactly with each stop served as early as possible"]
MUST_REACH = {"quick": ["better neighbour", "no better neighbour", "improved", "two-opt", "shift", "move", "last round", "around",
                        "reset"]}


def figures(x, objective, vehicle, visits):
    """(meets every limit exactly, objective value) of a route served as early as possible."""
    rows = timeline(vehicle, visits)
    ok = constraints(x, vehicle, visits, rows, 0.0)
    total, picked, pos = 0, {}, vehicle.origin_position
    for v, r in zip(visits, rows):
        if objective == "ride":
            total = total - pos.surface.distance(pos, v.position)
            pos = v.position
        for t in v.pickups:
            picked[t] = r
            if objective == "hashcode":
                d = t.origin_position.surface.distance(t.origin_position, t.destination_position)
                total = total + x.ite(t.capacity == 0, 0, d + x.ite(r["departure"] == t.origin_earliest, t.on_time_bonus, 0))
        for t in v.deliveries:
            if objective == "taxi" and t in picked:
                total = total + x.ite(t.capacity == 0, 0, r["start"] - picked[t]["departure"])
    return ok, total


def in_order(visits):
    seen = set()
    for v in visits:
        seen |= {id(t) for t in v.pickups}
        if any(id(t) not in seen for t in v.deliveries):
            return False
    return True


def reversals(visits):
    """The route with a run of at least three consecutive stops (depots excluded) the other way round."""
    last = len(visits) - 1
    for i in range(1, last):
        for j in range(i + 2, last):
            out = visits[:i] + visits[i:j + 1][::-1] + visits[j + 1:]
            if in_order(out):
                yield out


def swaps(visits):
    """The route with two neighbouring stops (depots excluded) swapped."""
    for i in range(1, len(visits) - 2):
        out = visits[:i] + [visits[i + 1], visits[i]] + visits[i + 2:]
        if in_order(out):
            yield out


def moves(a, b):
    """The two routes after one of a's trips moves to b."""
    for t in [t for v in a for t in v.pickups]:
        rest = [Visit(v.position, [u for u in v.pickups if u is not t], [u for u in v.deliveries if u is not t]) for v in a]
        rest = [rest[0]] + [v for v in rest[1:-1] if v.pickups or v.deliveries] + [rest[-1]]
        for i in range(len(b)):
            for j in range(i + 1, len(b)):
                yield rest, expected_visits(b, t, i, j)


def neighbours(x, objective, strategy, routes):
    """[(feasible, gain)] of the neighbours of the given routes: the gain is over the routes changed."""
    described = [(r.vehicle, visits_of(r)) for r in routes]
    out = []
    if strategy == "move":
        own = [figures(x, objective, v, visits)[1] for v, visits in described]
        for p, (va, a) in enumerate(described):
            for q, (vb, b) in enumerate(described):
                if p == q:
                    continue
                for na, nb in moves(a, b):
                    fa, ga = figures(x, objective, va, na)
                    fb, gb = figures(x, objective, vb, nb)
                    out.append((x.all([fa, fb]), ga + gb - own[p] - own[q]))
    else:
        for v, visits in described:
            base = figures(x, objective, v, visits)[1]
            for n in (reversals if strategy == "opt" else swaps)(visits):
                f, g = figures(x, objective, v, n)
                out.append((f, g - base))
    return out


def takes(x, layout, kind, strategy, objective="ride", geometry="sym", at_depot=()):
    x.store["fair_draws"] = True  # no draw decides anything when every pair is tried
    w, vs, ts, routes = build(x, layout, kind, geometry, at_depot)
    job, fleet = Job(set(ts), OBJECTIVES[objective]), Fleet(set(vs))
    for r in routes:
        x.assume(schedule_conditions(x, r, 0.0))
    before = value(x, objective, routes)
    given = neighbours(x, objective, strategy, routes)
    separate = [(r.vehicle, value(x, objective, [r]), neighbours(x, objective, strategy, [r])) for r in routes]
    result = STRATEGIES[strategy](make_result(job, fleet, routes)).improve()
    got = list(result.routes)
    after = value(x, objective, got)
    better = x.any([x.all([f, g > 1e-6]) for f, g in given])
    if strategy == "opt":
        for v, own, near in separate:
            mine = value(x, objective, [r for r in got if r.vehicle is v])
            x.check(x.all([x.implies(f, x.le(own + g, mine)) for f, g in near]),
                    "two-opt: each route is at least as good as with any of its runs reversed")
        x.reach("two-opt")
    elif strategy == "shift":
        x.check(x.implies(better, after > before), "one-shift: a better planning is returned when swapping two neighbours gives one")
        x.reach("shift")
    else:
        x.check(x.all([x.implies(f, x.le(before + g, after)) for f, g in given]),
                "reallocation: the planning is at least as good as with any one trip moved to another route")
        x.reach("move")
    if geometry == "line":  # these questions split paths: asked only where that is cheap
        x.reach("better neighbour" if bool(better) else "no better neighbour")
        if bool(after > before):
            x.reach("improved")
    x.observe("after", after)


def settled(x, layout, kind, strategy, objective="ride", geometry="sym", threshold=1):
    """The algorithm's result has no better neighbour left."""
    x.store["fair_draws"] = True
    w, vs, ts, routes = build(x, layout, kind, geometry)
    job, fleet = Job(set(ts), OBJECTIVES[objective]), Fleet(set(vs))
    for r in routes:
        x.assume(schedule_conditions(x, r, 0.0))
    result = LocalSearchAlgorithm(initial=make_result(job, fleet, routes), strategy_cls=STRATEGIES[strategy],
                                  no_improvement_threshold=threshold, fleet=fleet, job=job).optimize()
    near = neighbours(x, objective, strategy, list(result.routes))
    x.check(x.all([x.implies(f, g <= 1e-6) for f, g in near]), "algorithm: no better neighbour of the result is left")
    x.reach("last round")
    x.observe("after", value(x, objective, list(result.routes)))


def around(x, rounds, threshold, objective="ride"):
    """Around an arbitrary strategy: goes on until `threshold` rounds in a row brought nothing better."""
    n = rounds + 1
    w = World(x, 1 + 2 * n, tri=False)
    v = w.vehicle("v0", 0, earliest=0.0, latest=INF, timeout=INF, capacity=INF)
    ts = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF, capacity=1.0, duration=0.0) for i in range(n)]
    job, fleet = Job(set(ts), OBJECTIVES[objective]), Fleet({v})
    met = [make_result(job, fleet, [fresh_route(v, [("P", t), ("D", t)])]) for t in ts]
    asked = []

    class Strategy:
        def __init__(self, result, *args, **kwargs):
            asked.append(result)

        def improve(self):
            if len(asked) > rounds:
                raise PathInfeasible  # longer runs are outside the bounds
            return met[len(asked)]

    LocalSearchAlgorithm(initial=met[0], strategy_cls=Strategy, no_improvement_threshold=threshold, fleet=fleet, job=job).optimize()
    values = [value(x, objective, list(m.routes)) for m in met[:len(asked) + 1]]
    x.check(len(asked) >= threshold, "algorithm: at least as many rounds as the threshold")
    recent = values[len(values) - threshold:]
    earlier = values[:len(values) - threshold]
    best = earlier[0] if earlier else values[0]
    for e in earlier[1:]:
        best = x.ite(e > best, e, best)
    x.check(x.all([x.le(r, best) for r in recent]), "algorithm: it stops only after that many rounds in a row without improvement")
    for k, r in enumerate(asked):
        top = values[0]
        for e in values[1:k + 1]:
            top = x.ite(e > top, e, top)
        x.check(x.le(top, value(x, objective, list(r.routes))), "algorithm: every round starts from the best so far")
    if len(asked) > threshold:
        x.reach("reset")
    x.reach("around")
    x.observe("rounds", len(asked))


def cases(tier):
    out = []
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    nm = lambda o: "".join(f"{k}{i}" if k in ("P", "D") else "(" + "".join(map(str, k)) + "/" + "".join(map(str, i)) + ")"
                           for k, i in o) or "empty"

    def add(harness, strategy, layout, kind, **kw):
        name = f"{harness}-{strategy}-{'+'.join(map(nm, layout))}-{kind}" + "".join(f"-{k}={v}" for k, v in kw.items())
        out.append(dict(name=name, harness=harness, params=dict(layout=layout, kind=kind, strategy=strategy, **kw)))
    one, two = canon(1), canon(2)
    shared = [[([0, 1], []), ([], [0]), ([], [1])], [([0], []), ([1], [0]), ([], [1])]]
    three = [("P", 0), ("P", 1), ("P", 2), ("D", 0), ("D", 1), ("D", 2)]
    last = [("P", 2), ("D", 2)]
    ride = lambda *ids: [(k, i) for i in ids for k in "PD"]
    for rest in (range(4, 7), range(4, 9), range(4, 10)):  # many pairs of positions: up to 120
        add("takes", "move", [ride(0, 1, 3), ride(2, *rest)], "none", geometry="line")
        add("takes", "move", [ride(0, 1, 3), ride(*rest[::-1], 2)], "none", geometry="line")
    for s in ("shift", "opt"):
        for o in two:
            for kind in ("none", "late", "ride", "back", "load"):
                add("takes", s, [o], kind)
            for ob in ("taxi", "hashcode"):
                for kind in ("none", "wait", "limit"):
                    add("takes", s, [o], kind, objective=ob)
            add("takes", s, [o], "wait")
        add("takes", s, [two[1]], "dur")
        add("takes", s, [shared[0]], "late")
        add("takes", s, [shared[1]], "late")
        add("takes", s, [two[1], last], "none", geometry="line")
        add("settled", s, [two[1]], "late", geometry="line")
    add("takes", "opt", [three], "none")
    add("takes", "shift", [three], "none")
    add("takes", "move", [one[0], [("P", 1), ("D", 1)]], "none")
    for ob in ("ride", "taxi"):
        for kind in ("late", "ride", "load", "wait"):
            add("takes", "opt", [three], kind, geometry="line", objective=ob)
            add("takes", "shift", [three], kind, geometry="line", objective=ob)
    two_routes = [two[1], [("P", 2), ("P", 3), ("D", 2), ("D", 3)]]
    add("takes", "opt", two_routes, "late", geometry="line")
    add("takes", "shift", two_routes, "late", geometry="line")
    back = [("P", 2), ("P", 0), ("P", 1), ("D", 0), ("D", 1), ("D", 2)]
    more = [("P", 5), ("P", 4), ("P", 3), ("D", 3), ("D", 5), ("D", 4)]
    for kind in ("none", "back"):
        add("takes", "opt", [back, more], kind, geometry="line")
        add("takes", "shift", [back, more], kind, geometry="line")
    add("settled", "opt", [three], "late", geometry="line")
    for kind in ("none", "late", "ride", "load", "back", "wait", "limit", "hold"):
        add("takes", "move", [one[0], []], kind)
        for ob in ("ride", "taxi"):
            if kind != "hold" or tier == "thorough":
                add("takes", "move", [one[0], [("P", 1), ("D", 1)]], kind, geometry="line", objective=ob)
    add("takes", "move", [one[0], [("P", 1), ("D", 1)]], "wait", geometry="line", objective="hashcode")
    for o in two:
        add("takes", "move", [o, []], "late", geometry="line")
        add("takes", "move", [o, last], "none", geometry="line")
    add("takes", "move", [shared[0], []], "late")
    for mine in ((0, 1, 3), (0, 3, 1), (3, 0, 1)):  # the trip to move comes first, second and third
        add("takes", "move", [ride(*mine), ride(2, 4)], "back", geometry="line")
    add("takes", "move", [ride(0, 1, 2, 4), ride(3, 5)], "back", geometry="line")
    add("takes", "move", [one[0], [("P", 1), ("D", 1)], last], "back", geometry="line")
    add("settled", "move", [one[0], [("P", 1), ("D", 1)]], "late", geometry="line")
    add("settled", "move", [two[0], []], "back", geometry="line")
    for c in list(out):
        if c["name"] in (f"takes-opt-{nm(two[1])}-load", f"takes-shift-{nm(two[1])}-late",
                         f"takes-move-{nm(one[0])}+{nm([('P', 1), ('D', 1)])}-late-geometry=line-objective=ride"):
            out += together([c], patterns=("twin", "swap", "loop"))
            if c["params"].get("geometry") != "line":
                out += traffic([c], kinds=("directed",))
            out += traffic([c], kinds=("clock",))
    for threshold in (1, 2, 3):
        for rounds in range(threshold, 5):
            for ob in ("ride", "taxi"):
                out.append(dict(name=f"around-{rounds}-{threshold}-{ob}", harness="around",
                                params=dict(rounds=rounds, threshold=threshold, objective=ob)))
    if tier == "thorough":
        for o in canon(3):
            for s in ("shift", "opt"):
                for kind in ("none", "late"):
                    add("takes", s, [o], kind)
            add("takes", "move", [o, []], "none", geometry="line")
        for o in two:
            for kind in ("late", "ride", "load", "back", "wait"):
                add("takes", "move", [o, []], kind)
            for s in ("shift", "opt"):
                add("settled", s, [o], "none")
    return out
