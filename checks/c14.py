"""C14: every solution of the linear model becomes a feasible full planning."""
from checks.milp_common import *  # noqa: F401,F403

PROPERTY = "C14"
BOUNDS = ("quick: 1-2 vehicles with 0-2 trips (1 x 2, 2 x 1, and 2 x 2 on a line), one kind of limit symbolic at a time, symbolic distances, "
          "coinciding positions, vehicles with other depots, reported arc values up to 1e-6 away from 0 and 1; thorough: 3 trips, 2 x 2 "
          "with symbolic distances, several limits at once. Data in [0, 1000]; every assignment of the model's variables is covered")
ASSUMPTIONS = ["arc values are 0/1 within the model's constraints, whatever deviation is reported",
               "the LP library is replaced by a stand-in that collects the real constraints and lets Z3 choose the assignment",
               "different positions are a positive distance apart; travel times symmetric with the triangle inequality"]
MUST_REACH = {"quick": ["solved", "idle vehicle", "shared ride", "waits"]}


def solve(x, nv, nt, kind, tolerance=None, **geometry):
    w = build(x, nv, nt, kind, **geometry)
    job, fleet = Job(set(w.trips), DialARideObjective), Fleet(set(w.vehicles))
    fake = FakeLP(x, "any", tolerance)
    with patched(fake):
        result = MilpAlgorithm(fleet=fleet, job=job).optimize()
        objective = fake.solved.objective.evaluate() if nt or nv else 0
    routes = list(result.routes)
    x.check(len(routes) == nv and {id(r.vehicle) for r in routes} == {id(v) for v in w.vehicles}, "one route per vehicle")
    served = [t for r in routes for t in r.trips]
    x.check(sorted(t.identifier for t in served) == sorted(t.identifier for t in w.trips), "every trip is served exactly once")
    driven = 0
    for r in routes:
        x.check(structure_ok(x, r), "routes are well linked")
        x.check(schedule_conditions(x, r), "every route satisfies its constraints")
        x.check(bool(r.feasible), "every route is feasible")
        pos = r.vehicle.origin_position
        for s in r.stops:
            driven = driven + pos.surface.distance(pos, s.position)
            pos = s.position
        load = 0
        for s in r.stops:
            load += len(list(s.pickup_planned_trips)) - len(list(s.delivery_planned_trips))
            if load > 1:
                x.reach("shared ride")
    x.check(x.eq(driven, objective), "the distance driven is the model's objective")
    x.observe("driven", driven)
    x.reach("solved")
    if any(not list(r.trips) for r in routes):
        x.reach("idle vehicle")
    if any(s.waiting_time > 0 for r in routes for s in r.stops[1:]):
        x.reach("waits")


def cases(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, harness="solve", params=p))
    kinds = [k for k in KINDS if k != "all"]
    add("1x0", nv=1, nt=0, kind="day")
    for k in kinds:
        add(f"1x1-{k}", nv=1, nt=1, kind=k)
        add(f"2x1-{k}", nv=2, nt=1, kind=k, geometry="line")
        add(f"1x2-line-{k}", nv=1, nt=2, kind=k, geometry="line")
    add("1x1-all", nv=1, nt=1, kind="all")
    add("2x1-sym", nv=2, nt=1, kind="plain")
    for k in ("plain", "late", "load"):
        add(f"1x2-{k}", nv=1, nt=2, kind=k)
    for k in ("late", "load"):
        add(f"1x2-tol-{k}", nv=1, nt=2, kind=k, tolerance=1e-6, geometry="line")
        add(f"2x2-{k}", nv=2, nt=2, kind=k, geometry="line")
    add("1x1-tol", nv=1, nt=1, kind="win", tolerance=1e-6)
    # coinciding positions
    for name, places in SPOTS.items():
        add(f"1x2-{name}", nv=1, nt=2, kind="late", places=places, geometry="line")
        if name in ("depot", "home", "none"):
            add(f"1x1-{name}", nv=1, nt=1, kind="dur", places=places)
    add("1x2-origins-load", nv=1, nt=2, kind="load", places=SPOTS["origins"], geometry="line")
    # other depots
    add("1x1-ends", nv=1, nt=1, kind="day", depots=[(0, 1)])
    add("2x1-depots", nv=2, nt=1, kind="day", depots=[(0, 0), (1, 1)], geometry="line")
    add("2x1-ends", nv=2, nt=1, kind="late", depots=[(0, 1), (1, 2)], geometry="line")
    if tier == "thorough":
        for k in kinds:
            add(f"1x2-deep-{k}", nv=1, nt=2, kind=k, tolerance=1e-6)
            add(f"2x2-deep-{k}", nv=2, nt=2, kind=k, geometry="line", tolerance=1e-6)
            add(f"1x3-{k}", nv=1, nt=3, kind=k, geometry="line")
        add("1x2-all", nv=1, nt=2, kind="all")
        add("2x1-all", nv=2, nt=1, kind="all")
        add("2x2-depots", nv=2, nt=2, kind="late", depots=[(0, 1), (1, 2)], geometry="line")
        for name, places in SPOTS.items():
            add(f"1x2-deep-{name}", nv=1, nt=2, kind="dur", places=places)
    return out
