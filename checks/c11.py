"""C11: objective values mean what they say and rank correctly."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.models import DialARideObjective, HashCodeObjective, TaxiSharingObjective  # noqa: E402

PROPERTY = "C11"
BOUNDS = ("quick: routes of up to 2 trips in any visiting order (3 trips in some), stops serving several trips, waypoints, plannings of "
          "up to 3 routes (also empty ones and none); distances, travel times, windows, durations, loads (0 or positive) and bonuses "
          "symbolic; choosing the best of up to 4 values, plannings, routes or results with missing ones; thorough: all orders of 3 "
          "trips, 5 candidates. Data in [0, 1000], choice values in [-1000, 1000]")
ASSUMPTIONS = ["travel times and distances symmetric; the schedule itself is the one of C01"]
MUST_REACH = {"quick": ["value", "empty planning", "bonus", "no bonus", "empty trip", "best", "best-none", "best-tie", "best-result"]}
OBJECTIVES = dict(ride=DialARideObjective, taxi=TaxiSharingObjective, hashcode=HashCodeObjective)


def build(x, layout, data):
    """layout: per vehicle a sequence of (kind, trip) / (pickups, deliveries) / ("W",) waypoint."""
    used = sorted({i for r in layout for item in r for i in
                   ([item[1]] if item[0] in ("P", "D") else [] if item[0] == "W" else list(item[0]) + list(item[1]))})
    n = len(used)
    w = World(x, 2 + 2 * n, tri=False, separate_time=True)
    vs = [w.vehicle(f"v{i}", 0, earliest="sym" if i == 0 else 0.0, latest=INF, timeout=INF, capacity=INF) for i in range(len(layout))]
    at = {}
    for r in layout:
        for item in r:
            if item[0] not in ("P", "D", "W"):
                spot = 1 + 2 * (list(item[0]) + list(item[1]))[0] + (0 if item[0] else 1)
                for i in item[0]:
                    at[i, "P"] = spot
                for i in item[1]:
                    at[i, "D"] = spot
    for i in range(n):
        w.trip(f"t{i}", at.get((i, "P"), 1 + 2 * i), at.get((i, "D"), 2 + 2 * i), **data)
    routes = []
    for v, seq in zip(vs, layout):
        items = []
        for item in seq:
            if item[0] in ("P", "D"):
                items.append((item[0], w.trips[item[1]]))
            elif item[0] == "W":
                items.append(([], [], w.p[-1]))
            else:
                a, b = item
                t = w.trips[(list(a) + list(b))[0]]
                items.append(([w.trips[i] for i in a], [w.trips[i] for i in b], t.origin_position if a else t.destination_position))
        routes.append(fresh_route(v, items))
    return w, routes


def expected(x, name, vehicle, visits, rows):
    """The objective's components for one route from its definition, over the oracle's schedule."""
    if name == "ride":
        d, pos = 0, vehicle.origin.position
        for v in visits:
            d = d + pos.surface.distance(pos, v.position)
            pos = v.position
        return [sum(len(v.pickups) for v in visits), -d]
    picked, total = {}, 0
    for v, r in zip(visits, rows):
        for t in v.pickups:
            picked[t] = r
        for t in v.deliveries:
            if name == "taxi":
                points = r["start"] - picked[t]["departure"]
            else:
                earliest = derived(t)[0]
                points = t.origin.position.surface.distance(t.origin.position, t.destination.position) + \
                    x.ite(picked[t]["departure"] == earliest, t.on_time_bonus, 0.0)
            total = total + x.ite(t.capacity == 0, 0.0, points)
    return [total]


def values(x, layout, objective, data):
    w, routes = build(x, layout, data)
    job, fleet = Job(set(w.trips), OBJECTIVES[objective]), Fleet(set(w.vehicles))
    ob = job.objective
    x.check(type(ob) is OBJECTIVES[objective], "the job's objective is the requested one")
    wants = []
    for r in routes:
        visits = visits_of(r)
        rows = timeline(r.vehicle, visits)
        want = expected(x, objective, r.vehicle, visits, rows)
        got = ob.optimization_function(r)
        x.check(len(got) == len(want), "route value has the right dimensions")
        for g, e in zip(got, want):
            x.check(x.eq(g, e), "route value is the definition's")
        x.observe("route", tuple(got))
        wants.append(want)
        if objective == "hashcode":
            for v, row in zip(visits, rows):
                for t in v.pickups:
                    x.reach("bonus" if row["departure"] == derived(t)[0] else "no bonus")
        for v in visits:
            for t in v.pickups:
                if t.capacity == 0:
                    x.reach("empty trip")
    total = [0] * (2 if objective == "ride" else 1)
    for want in wants:
        total = [a + b for a, b in zip(total, want)]
    planning = Planning(set(routes))
    result = make_result(job, fleet, routes)
    for got in (ob.optimization_function(planning), ob.optimization_function(result), result.optimization_value):
        x.check(len(got) == len(total), "planning value has the right dimensions")
        for g, e in zip(got, total):
            x.check(x.eq(g, e), "planning value is the sum over its routes")
    x.reach("value")
    if not routes:
        x.reach("empty planning")


def lexle(x, a, b):
    """a <= b, first component first."""
    r = True
    for p, q in reversed(list(zip(a, b))):
        r = x.any([p < q, x.all([p == q, r])]) if r is not True else x.le(p, q)
    return r


def best_values(x, objective, n, missing=()):
    ob = OBJECTIVES[objective]()
    dim = 2 if objective == "ride" else 1
    vals = [None if i in missing else tuple(x.real(f"c{i}_{k}", -1000, 1000) for k in range(dim)) for i in range(n)]
    got = ob.best(*vals)
    present = [v for v in vals if v is not None]
    if not present:
        x.check(got is None, "the best of nothing is nothing")
        x.reach("best-none")
        return
    x.check(any(got is v for v in present), "the best is one of the candidates")
    x.check(x.all([lexle(x, v, got) for v in present]), "no candidate exceeds the best")
    x.observe("best", got)
    x.reach("best")
    if len(present) > 1 and present[0][0] == present[1][0]:
        x.reach("best-tie")


def best_objects(x, objective, kind, n, missing=(), data=None):
    """Best of routes / plannings / results of their own instances with one job."""
    w, routes = build(x, [[("P", i), ("D", i)] if i % 3 else [("P", i), ("W",), ("D", i)] for i in range(n)], data)
    job, fleet = Job(set(w.trips), OBJECTIVES[objective]), Fleet(set(w.vehicles))
    ob = job.objective
    wants = [expected(x, objective, r.vehicle, visits_of(r), timeline(r.vehicle, visits_of(r))) for r in routes]
    objs = [r if kind == "route" else Planning({r}) if kind == "planning" else make_result(job, fleet, [r]) for r in routes]
    args = [None if i in missing else o for i, o in enumerate(objs)]
    got = ob.best(*args)
    idx = [i for i in range(n) if i not in missing]
    hit = [i for i in idx if objs[i] is got]
    x.check(len(hit) == 1, "the best is one of the candidates")
    if hit:
        x.check(x.all([lexle(x, wants[i], wants[hit[0]]) for i in idx]), "no candidate exceeds the best")
    x.reach("best-result")
    x.observe("best", tuple(wants[hit[0]]) if hit else 0)


FULL = dict(timeout="sym", capacity="sym", duration="sym", bonus="sym", tw="sym")
LIGHT = dict(timeout=INF, capacity="sym", duration=0.0, bonus="sym", o_tw="early", d_tw="none")


def cases(tier):
    out = []

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    nm = lambda s: "".join("W" if i[0] == "W" else f"{i[0]}{i[1]}" if i[0] in ("P", "D") else f"({i[0]}{i[1]})" for i in s) or "empty"
    two = [o for o in simple_orders(2) if o[0] == ("P", 0)]
    for ob in OBJECTIVES:
        add("values", f"{ob}-none", layout=[], objective=ob, data=FULL)
        add("values", f"{ob}-empty", layout=[[], []], objective=ob, data=FULL)
        add("values", f"{ob}-way", layout=[[("W",), ("P", 0), ("W",), ("D", 0)]], objective=ob, data=FULL)
        for o in two:
            add("values", f"{ob}-{nm(o)}", layout=[o], objective=ob, data=FULL)
        add("values", f"{ob}-shared", layout=[[([0, 1], []), ([], [0]), ([], [1])]], objective=ob, data=FULL)
        add("values", f"{ob}-mixed", layout=[[([0], []), ([1], [0]), ([], [1])]], objective=ob, data=FULL)
        add("values", f"{ob}-both", layout=[[([0, 1], []), ([], [0, 1])]], objective=ob, data=FULL)
        add("values", f"{ob}-1+1", layout=[[("P", 0), ("D", 0)], [("P", 1), ("D", 1)]], objective=ob, data=FULL)
        add("values", f"{ob}-1+0+1", layout=[[("P", 0), ("D", 0)], [], [("P", 1), ("D", 1)]], objective=ob, data=LIGHT)
        add("values", f"{ob}-2+1", layout=[[("P", 0), ("P", 1), ("D", 0), ("D", 1)], [("P", 2), ("D", 2)]], objective=ob, data=LIGHT)
        for o in ([x for x in simple_orders(3) if x[0] == ("P", 0)] if tier == "thorough" else
                  [[("P", 0), ("P", 1), ("P", 2), ("D", 1), ("D", 0), ("D", 2)]]):
            add("values", f"{ob}-{nm(o)}", layout=[o], objective=ob, data=LIGHT)
        out += together([c for c in out if c["name"].startswith(f"values-{ob}-P") or c["name"].endswith((f"{ob}-1+1", f"{ob}-2+1"))], base=2)
        for n in range(0, 6 if tier == "thorough" else 5):
            add("best_values", f"{ob}-{n}", objective=ob, n=n)
            if n:
                add("best_values", f"{ob}-{n}-first", objective=ob, n=n, missing=[0])
            if n > 2:
                add("best_values", f"{ob}-{n}-two", objective=ob, n=n, missing=[0, n - 1])
        for kind in ("route", "planning", "result"):
            add("best_objects", f"{ob}-{kind}-2", objective=ob, kind=kind, n=2, data=LIGHT)
            add("best_objects", f"{ob}-{kind}-3", objective=ob, kind=kind, n=3, missing=[1], data=LIGHT)
    return out
