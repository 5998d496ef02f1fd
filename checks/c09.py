"""C09: local search never worsens, loses or breaks a planning."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.algorithms.heuristics.local_search import (  # noqa: E402
    LocalSearchAlgorithm, OneShiftLocalSearchStrategy, ReallocationLocalSearchStrategy, TwoOPTLocalSearchStrategy)
from symx.core import PathInfeasible  # noqa: E402
from jinete.models import DialARideObjective, HashCodeObjective, TaxiSharingObjective  # noqa: E402

PROPERTY = "C09"
BOUNDS = ("quick: feasible plannings of one route with 1-3 trips or two routes with 0-2 trips each, any visiting order, stops that "
          "serve two trips, a waypoint or trip at the depot; each strategy alone and inside the local-search algorithm (at most "
          "two rounds of improvement; around an arbitrary strategy: up to 4 rounds); one kind of limit symbolic at a time (delivery limits, pickup starts, ride times, loads, "
          "vehicle return, route duration) with symbolic distances; the three objectives; thorough: more trips and several limits together. "
          "Data in [0, 1000]")
ASSUMPTIONS = ["the given planning is feasible; travel times symmetric with the triangle inequality (some cases also with "
               "one-way ones, or with ones that depend on the clock)",
               "the reported objective value is the one of C11 (checked there)"]
MUST_REACH = {"quick": ["improved", "unchanged", "reallocated", "algorithm", "algorithm-improved", "around"]}
STRATEGIES = dict(shift=OneShiftLocalSearchStrategy, opt=TwoOPTLocalSearchStrategy, move=ReallocationLocalSearchStrategy)
OBJECTIVES = dict(ride=DialARideObjective, taxi=TaxiSharingObjective, hashcode=HashCodeObjective)
KINDS = dict(
    none=(dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF, capacity=INF)),
    late=(dict(o_tw="none", d_tw="late", timeout=INF, capacity=1.0, duration=0.0),
          dict(earliest=0.0, latest=INF, timeout=INF, capacity=INF)),
    dur=(dict(o_tw="late", d_tw="none", timeout=INF, capacity=1.0, duration="sym"),
         dict(earliest=0.0, latest=INF, timeout=INF, capacity=INF)),
    wait=(dict(o_tw="early", d_tw="none", timeout=INF, capacity=1.0, duration=0.0),
          dict(earliest=0.0, latest="sym", timeout=INF, capacity=INF)),
    ride=(dict(tw="none", timeout="sym", capacity=1.0, duration=0.0),
          dict(earliest=0.0, latest=INF, timeout=INF, capacity=INF)),
    load=(dict(tw="none", timeout=INF, capacity="sym", duration=0.0),
          dict(earliest=0.0, latest=INF, timeout=INF, capacity="sym")),
    back=(dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), dict(earliest=0.0, latest="sym", timeout=INF, capacity=INF)),
    limit=(dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), dict(earliest=0.0, latest=INF, timeout="sym", capacity=INF)),
    hold=(dict(o_tw="early", d_tw="none", timeout="sym", capacity=1.0, duration=0.0),
          dict(earliest=0.0, latest=INF, timeout="sym", capacity=INF)),
)


def build(x, layout, kind, geometry="sym", at_depot=()):
    """layout: per vehicle a sequence of (kind, trip) or (pickups, deliveries) for stops serving several trips."""
    used = sorted({i for route in layout for item in route for i in
                   ([item[1]] if item[0] in ("P", "D") else list(item[0]) + list(item[1]))})
    n = len(used)
    w = World(x, 1 + 2 * n, tri=True)
    if geometry == "line":
        xs = [0] + [c for i in range(n) for c in (3 * i + 1, 3 * i + 4)]
        for i, j in w.surface.matrix:
            w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(xs[i] - xs[j]))
            if w.surface.back:
                w.surface.back[i, j] = w.surface.tmatrix[i, j]
    tk, vk = KINDS[kind]
    vs = [w.vehicle(f"v{i}", 0, **vk) for i in range(len(layout))]
    at = {}
    for route in layout:
        for item in route:
            if item[0] not in ("P", "D"):
                spot = 1 + 2 * (item[0] + item[1])[0] + (0 if item[0] else 1)
                for i in item[0]:
                    at[i, "P"] = spot
                for i in item[1]:
                    at[i, "D"] = spot
    for i in at_depot:
        at[i, "D"] = 0
    ts = [w.trip(f"t{i}", at.get((i, "P"), 1 + 2 * i), at.get((i, "D"), 2 + 2 * i), **tk) for i in range(n)]
    routes = []
    for v, seq in zip(vs, layout):
        items = []
        for a, b in seq:
            if a in ("P", "D"):
                items.append((a, ts[b]))
            else:
                t = ts[(a + b)[0]]
                items.append(([ts[i] for i in a], [ts[i] for i in b], t.origin_position if a else t.destination_position))
        routes.append(fresh_route(v, items))
    return w, vs, ts, routes


def value(x, objective, routes):
    """Objective value from the definition (last component, larger is better)."""
    total = 0
    for r in routes:
        stops = r.stops
        if objective == "ride":
            pos = r.vehicle.origin_position
            for s in stops:
                total = total - pos.surface.distance(pos, s.position)
                pos = s.position
        for s in stops:
            for p in s.pickup_planned_trips:
                t = p.trip
                if objective == "taxi":
                    total = total + x.ite(t.capacity == 0, 0, p.delivery.starting_time - p.pickup.departure_time)
                elif objective == "hashcode":
                    d = t.origin_position.surface.distance(t.origin_position, t.destination_position)
                    total = total + x.ite(t.capacity == 0, 0, d + x.ite(p.pickup.departure_time == t.origin_earliest, t.on_time_bonus, 0))
    return total


def judge(x, routes, ts, vs, objective, before, tag):
    x.check(len({id(r.vehicle) for r in routes}) == len(routes), f"{tag}: at most one route per vehicle")
    x.check({id(r.vehicle) for r in routes} == {id(v) for v in vs}, f"{tag}: the same vehicles")
    served = [t for r in routes for t in r.trips]
    x.check(sorted(t.identifier for t in served) == sorted(t.identifier for t in ts) and all(any(t is u for u in ts) for t in served),
            f"{tag}: the same trips, each once")
    for r in routes:
        x.check(structure_ok(x, r), f"{tag}: routes are well linked")
        x.check(schedule_conditions(x, r), f"{tag}: every route satisfies its constraints")
        x.check(bool(r.feasible), f"{tag}: every route is feasible")
    after = value(x, objective, routes)
    x.check(x.le(before, after), f"{tag}: the objective is at least as good")
    return after


def search(x, layout, kind, strategy, objective="ride", geometry="sym", at_depot=(), algorithm=False, retimed=None, read=False):
    w, vs, ts, routes = build(x, layout, kind, geometry, at_depot)
    job, fleet = Job(set(ts), OBJECTIVES[objective]), Fleet(set(vs))
    if retimed is not None:
        routes[0].stops[retimed].starting_time = x.real("req", 0, BIG)
        routes[0].flush()
    for r in routes:
        x.assume(schedule_conditions(x, r, 0.0))
    initial = make_result(job, fleet, routes)
    if read:
        x.check(bool(initial.feasible), "the initial planning is feasible")
    before = value(x, objective, routes)
    snaps = [snapshot(r) for r in routes]
    cls = STRATEGIES[strategy]
    if algorithm:
        result = LocalSearchAlgorithm(initial=initial, strategy_cls=cls, fleet=fleet, job=job).optimize()
    else:
        result = cls(initial).improve()
    after = judge(x, list(result.routes), ts, vs, objective, before, "result")
    x.check(bool(result.feasible), "the result is feasible")
    x.check({id(r) for r in initial.routes} == {id(r) for r in routes}, "the given planning has the same routes as before")
    x.check(x.all([same_snapshot(x, s, snapshot(r)) for s, r in zip(snaps, routes)]),
            "the given routes report the same as before")
    x.check(all(structure_ok(x, r) for r in routes), "the given routes' links are intact")
    label = [r for r in result.routes if service_order(r) not in [service_order(q) for q in routes]]
    x.reach("improved" if label else "unchanged")
    if len(label) == 2 and strategy == "move":
        x.reach("reallocated")
    if algorithm:
        x.reach("algorithm")
        if label:
            x.reach("algorithm-improved")
    x.observe("after", after)
    x.observe("before", before)


def around(x, rounds, threshold, objective="ride"):
    """The local-search algorithm around an arbitrary strategy: the best of everything it met comes back."""
    n = rounds + 1
    w = World(x, 1 + 2 * n, tri=False)
    v = w.vehicle("v0", 0, earliest=0.0, latest=INF, timeout=INF, capacity=INF)
    ts = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF, capacity=1.0, duration=0.0) for i in range(n)]
    job, fleet = Job(set(ts), OBJECTIVES[objective]), Fleet({v})
    met = [make_result(job, fleet, [fresh_route(v, [("P", t), ("D", t)])]) for t in ts]
    asked = []

    class Strategy:
        def __init__(self, result, *args, **kwargs):
            asked.append(result)

        def improve(self):
            if len(asked) > rounds:
                raise PathInfeasible  # longer runs are outside the bounds
            return met[len(asked)]

    result = LocalSearchAlgorithm(initial=met[0], strategy_cls=Strategy, no_improvement_threshold=threshold, fleet=fleet, job=job).optimize()
    seen = met[:len(asked) + 1]
    x.check(any(result.planning is m.planning for m in seen), "algorithm: returns the given planning or one it met")
    got = value(x, objective, list(result.routes))
    for m in seen:
        x.check(x.le(value(x, objective, list(m.routes)), got), "algorithm: the objective is at least as good as anything met")
    x.reach("around")
    x.observe("got", got)


def cases(tier):
    out = []
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    nm = lambda o: "".join(f"{k}{i}" if k in ("P", "D") else "(" + "".join(map(str, k)) + "/" + "".join(map(str, i)) + ")"
                           for k, i in o) or "empty"

    def add(strategy, layout, kind, **kw):
        name = f"{strategy}-{'+'.join(map(nm, layout))}-{kind}" + "".join(f"-{k}={v}" for k, v in kw.items())
        out.append(dict(name=name, harness="search", params=dict(layout=layout, kind=kind, strategy=strategy, **kw)))
    one, two = canon(1), canon(2)
    seq = [("P", 0), ("D", 0), ("P", 1), ("D", 1)]
    for s in ("shift", "opt"):
        add(s, [one[0]], "late", at_depot=[0])
        add(s, [[]], "none")
        for o in two:
            for kind in ("late", "ride", "back", "load"):
                add(s, [o], kind)
            for ob in ("taxi", "hashcode"):
                for kind in ("ride", "back", "limit"):
                    add(s, [o], kind, objective=ob)
            add(s, [o], "hold", objective="taxi")
            add(s, [o], "wait")
            add(s, [o], "limit")
        add(s, [two[0]], "wait", objective="taxi")
        add(s, [two[0]], "dur")
        add(s, [two[0]], "late", read=True)
        add(s, [two[0]], "late", algorithm=True)
        add(s, [two[0]], "late", objective="taxi")
        add(s, [two[0]], "late", objective="hashcode")
        add(s, [seq], "back", at_depot=[1])
        add(s, [[([0, 1], []), ([], [0]), ([], [1])]], "late")
        add(s, [[([0], []), ([1], [0]), ([], [1])]], "late")
        add(s, [two[0], [("P", 2), ("D", 2), ("P", 3), ("D", 3)]], "none", geometry="line")
        add(s, [two[0], [("P", 2), ("P", 3), ("D", 2), ("D", 3)]], "late", geometry="line")
        for k in (0, 1, 3):
            add(s, [two[1]], "none", retimed=k)
    three = [("P", 0), ("P", 1), ("P", 2), ("D", 0), ("D", 1), ("D", 2)]
    add("opt", [three], "none")
    add("opt", [three], "late", geometry="line")
    add("opt", [three], "none", algorithm=True, geometry="line")
    for kind in ("wait", "hold"):
        for ob in ("ride", "taxi"):
            add("opt", [three], kind, geometry="line", objective=ob)
    add("opt", [three], "back", geometry="line", objective="taxi")
    add("opt", [three], "limit", geometry="line", objective="taxi")
    add("shift", [three], "late", geometry="line")
    add("opt", [[("P", 1), ("P", 2), ("P", 0), ("D", 1), ("D", 2), ("D", 0)]], "late", geometry="line", algorithm=True)
    for kind in ("late", "ride", "load", "back", "wait", "limit", "hold"):
        add("move", [one[0], []], kind)
        if kind != "hold" or tier == "thorough":
            add("move", [one[0], [("P", 1), ("D", 1)]], kind, geometry="line")
    add("move", [one[0], [("P", 1), ("D", 1)]], "none")
    add("move", [[("P", 0), ("D", 0), ("P", 1), ("D", 1)], [("P", 2), ("D", 2)]], "none", geometry="line")
    add("move", [two[0], []], "late", geometry="line")
    add("move", [[([0, 1], []), ([], [0, 1])], []], "late")
    for o in two[1:]:
        for kind in ("ride", "back", "hold"):
            add("move", [o, []], kind, geometry="line")
            add("move", [o, []], kind, geometry="line", objective="taxi")
    last = [("P", 2), ("D", 2)]
    for o in two:
        for ob in ("ride", "taxi", "hashcode"):
            add("move", [o, last], "none", geometry="line", objective=ob)
            if ob == "taxi" or tier == "thorough":
                add("move", [o, last], "back", geometry="line", objective=ob)
    for k in (2, 4):
        add("move", [two[0], []], "ride", retimed=k, **(dict(geometry="line") if k == 2 else {}))
    add("move", [[("P", 0), ("D", 0), ("P", 1), ("P", 2), ("D", 1), ("D", 2)], []], "hold", geometry="line")
    for ob in ("taxi", "hashcode"):
        for kind in ("wait", "back", "limit", "ride"):
            add("move", [one[0], [("P", 1), ("D", 1)]], kind, geometry="line", objective=ob)
    add("move", [one[0], [("P", 1), ("D", 1)]], "wait", geometry="line", algorithm=True)
    add("move", [one[0], [("P", 1), ("D", 1)], []], "back", geometry="line", algorithm=True)
    for c in list(out):
        if c["name"] in (f"shift-{nm(two[0])}-late", f"opt-{nm(two[0])}-late", f"opt-{nm(two[1])}-load", f"shift-{nm(two[2])}-wait",
                         f"move-{nm(one[0])}+{nm([('P', 1), ('D', 1)])}-late-geometry=line", f"move-{nm(two[0])}+empty-late-geometry=line"):
            out += together([c], patterns=("twin", "swap", "loop"))
            if c["params"].get("geometry") != "line":
                out += traffic([c], kinds=("directed",))
            if c["params"]["kind"] != "late" or c["params"].get("geometry") == "line":
                out += traffic([c], kinds=("clock",))
    for threshold in (1, 2, 3):
        for rounds in range(threshold, 5):
            for ob in ("ride", "taxi"):
                out.append(dict(name=f"around-{rounds}-{threshold}-{ob}", harness="around",
                                params=dict(rounds=rounds, threshold=threshold, objective=ob)))
    if tier == "thorough":
        for o in canon(3):
            add("opt", [o], "late", read=True)
            add("shift", [o], "late", geometry="line", read=True)
        for o in two:
            for kind in ("late", "ride", "load", "back", "wait", "dur"):
                add("move", [o, []], kind, read=True)
                add("shift", [o], kind, algorithm=True, read=True)
        for kind in ("late", "ride", "load", "back", "wait", "dur"):
            add("move", [one[0], [("P", 1), ("D", 1)]], kind)
            add("move", [[("P", 0), ("D", 0), ("P", 1), ("D", 1)], [("P", 2), ("D", 2)]], kind, geometry="line", algorithm=True)
    return out
