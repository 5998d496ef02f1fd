"""C23: result figures match the planning."""
from checks.planning_common import *  # noqa: F401,F403

PROPERTY = "C23"
BOUNDS = ("quick: plannings of 0-3 routes with up to 2 trips each in every visiting order (3 trips in some), stops shared by several "
          "trips, waypoints, requested starts, 0-3 trips left out; figures read again after a trip was removed or inserted; every "
          "time, window, duration, load, distance and travel time symbolic; thorough: every order of 3 trips. Data in [0, 1000]")
ASSUMPTIONS = ["the job has a trip (the rate of an empty job is not defined)", "times are those of C01"]
MUST_REACH = {"quick": ["figures", "trip", "shared", "empty ride", "pending", "unloaded route", "edited"]}


def figures(x, layout, data, pending=0, retimed=(), names=None, vehicle=None, read=False, edit=None):
    w, result, shown = build(x, layout, data, pending=pending, retimed=retimed, vehicle=vehicle, names=names)
    check_all(x, w, result, shown)
    if edit is not None:
        route, visits = shown[0]
        what, i = edit
        t = w.trips[i]
        if what == "remove":
            route.remove_trip(t)
            visits[:] = [v for v in visits if not (v.pickups + v.deliveries) or set(v.pickups + v.deliveries) != {t}]
            for v in visits:
                v.pickups, v.deliveries = [a for a in v.pickups if a is not t], [a for a in v.deliveries if a is not t]
        else:
            pickup = Stop(route.vehicle, t.origin_position, route.stops[0])
            delivery = Stop(route.vehicle, t.destination_position, pickup)
            route.append_planned_trip(PlannedTrip(route.vehicle, t, pickup, delivery))
            visits[1:1] = [Visit(t.origin_position, [t]), Visit(t.destination_position, [], [t])]
        x.reach("edited")
        check_all(x, w, result, shown)


def check_all(x, w, result, shown):
    served, planned, loaded = set(), [], []
    for route, visits in shown:
        v = route.vehicle
        rows, legs_ = timeline(v, visits), legs(visits, v)
        here = [t for s in visits for t in s.pickups]
        planned += here
        if here:
            loaded.append(route)
        else:
            x.reach("unloaded route")
        full = []
        for t in here:
            if t.capacity == 0:
                x.reach("empty ride")
            else:
                served.add(t)
                full.append(t)
        x.check(bool(route.loaded) == bool(here), "a route is loaded when it serves a trip")
        x.check(sorted(t.identifier for t in route.trips) == sorted(t.identifier for t in here), "a route's trips")
        x.check(sorted(t.identifier for t in route.loaded_trips) == sorted(t.identifier for t in full), "a route's non-empty trips")
        x.check(route.loaded_trips_count == len(full), "number of non-empty trips")
        x.check(x.eq(route.distance, x.sum([d for d, _ in legs_])), "a route's distance")
        x.check(x.eq(route.duration, rows[-1]["departure"] - rows[0]["departure"]), "a route's duration")
        x.check(x.eq(route.waiting_time, x.sum([r["waiting"] for r in rows])), "a route's waiting time")
        figs = {t: trip_figures(x, visits, rows, legs_, t) for t in here}
        x.check(x.eq(route.transit_time, x.sum([f["duration"] for f in figs.values()])), "a route's transit time")
        for pt in route.planned_trips:
            f = figs.get(pt.trip)
            if f is None:
                continue
            x.reach("trip")
            x.check(x.eq(pt.waiting_time, f["waiting"]), "a planned trip's waiting time")
            x.check(x.eq(pt.transit_time, f["transit"]), "a planned trip's transit time")
            x.check(x.eq(pt.load_time, f["loading"]), "a planned trip's loading time")
            x.check(x.eq(pt.duration, f["duration"]), "a planned trip's ride time")
            x.check(x.all([x.eq(pt.pickup_time, f["pickup"]), x.eq(pt.delivery_time, f["delivery"])]), "a planned trip's times")
            x.check(x.eq(pt.capacity, pt.trip.capacity), "a planned trip's load")
            x.check(x.eq(pt.distance, pt.trip.origin_position.distance_to(pt.trip.destination_position)), "a planned trip's distance")
            x.observe("ride", pt.duration)
        x.check(len(list(route.planned_trips)) == len(here), "a route's planned trips")
        if any(len(s.pickups) + len(s.deliveries) > 1 for s in visits):
            x.reach("shared")
        x.observe("distance", route.distance)
    n = len(result.job.trips)
    if n > len(planned):
        x.reach("pending")
    x.check(x.eq(result.coverage_rate, len(served) / n), "coverage rate")
    x.check(x.all([0 <= result.coverage_rate, result.coverage_rate <= 1]), "coverage rate is between 0 and 1")
    x.check({id(t) for t in result.completed_trips} == {id(t) for t in served} and len(list(result.completed_trips)) == len(served),
            "completed trips")
    p = result.planning
    x.check({id(r) for r in p.loaded_routes} == {id(r) for r in loaded} and len(list(p.loaded_routes)) == len(loaded), "loaded routes")
    x.check({id(r) for r in result.routes} == {id(r) for r, _ in shown}, "routes")
    x.check(sorted(id(t) for t in p.trips) == sorted(id(t) for t in planned), "a planning's trips")
    x.check({id(v) for v in p.vehicles} == {id(r.vehicle) for r, _ in shown}, "a planning's vehicles")
    x.check({id(t) for t in result.trips} == {id(t) for t in w.trips} and {id(v) for v in result.vehicles} == {id(v) for v in w.vehicles},
            "a result's trips and vehicles")
    x.reach("figures")


def cases(tier):
    out = []

    def add(name, layout, data=TIMED, **p):
        out.append(dict(name=name, harness="figures", params=dict(layout=layout, data=data, **p)))
    free = dict(earliest="sym", latest=INF, capacity="sym", timeout=INF)
    same = dict(retimed=[1, 2])
    for k in range(4):
        add(f"none-{k}", [], pending=max(k, 1)) if k != 1 else add("empty", [[]], pending=1)
    add("one", [ONE], FULL)
    add("one-pending", [ONE], FULL, pending=3)
    add("one-retimed", [ONE], FULL, **same)
    add("way", [[("W",), ("P", 0), ("W",), ("D", 0), ("W",)]], vehicle=free)
    add("1+0", [ONE, []], vehicle=free, pending=1)
    add("1+way", [ONE, [("W",)]], vehicle=free)
    add("1+1", [ONE, shift(ONE, 1)], vehicle=free, pending=1)
    add("one-emptied", [ONE], LIGHT, vehicle=free, edit=("remove", 0))
    add("1+1-emptied", [ONE, shift(ONE, 1)], LIGHT, vehicle=free, edit=("remove", 0))
    add("empty-filled", [[]], LIGHT, vehicle=free, pending=1, edit=("add", 0))
    add("0+1-filled", [[], ONE], LIGHT, vehicle=free, pending=1, edit=("add", 1))
    for o in simple_orders(2):
        add(label(o), [o], TIMED, vehicle=free)
        add(label(o) + "-retimed", [o], LIGHT, retimed=[1, 3], vehicle=free)
        for i in range(2):
            add(f"{label(o)}-remove{i}", [o], LIGHT, vehicle=free, edit=("remove", i))
        add(f"{label(o)}-add", [o], LIGHT, vehicle=free, pending=1, edit=("add", 2))
    out += together(out[3:], base=2, patterns=("twin", "swap", "loop", "stay"))
    for name, r in (("shared", [([0, 1], []), ([], [1]), ([], [0])]), ("mixed", [([0], []), ([1], [0]), ([], [1])]),
                    ("both", [([0, 1], []), ([], [0, 1])])):
        add(name, [r], TIMED, vehicle=free)
        add(name + "-remove", [r], LIGHT, vehicle=free, edit=("remove", 0))
        add(name + "-plus", [r, shift(ONE, 2)], LIGHT, vehicle=free)
    add("1+1+1", [ONE, shift(ONE, 1), shift(ONE, 2)], LIGHT, vehicle=free)
    add("1+2", [ONE, shift([("P", 1), ("P", 0), ("D", 0), ("D", 1)], 1)], LIGHT, vehicle=free)
    add("3", [[("P", 2), ("P", 0), ("D", 0), ("P", 1), ("D", 2), ("D", 1)]], LIGHT, vehicle=free)
    if tier == "thorough":
        for o in simple_orders(3):
            add(label(o), [o], TIMED, vehicle=free)
            add(label(o) + "-remove", [o], LIGHT, vehicle=free, edit=("remove", 1))
    return out
