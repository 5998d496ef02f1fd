"""C15: the linear model admits every feasible planning that serves all trips, at its driven distance."""
from checks.milp_common import *  # noqa: F401,F403
from symx.admits import admits

PROPERTY = "C15"
BOUNDS = ("quick: 1-2 vehicles and 0-2 trips, every assignment of trips to vehicles and every order of stops; one kind of limit "
          "symbolic at a time, symbolic distances for up to 2 trips in one vehicle, coinciding positions, vehicles with other "
          "depots; thorough: 2 x 2 with symbolic distances, 3 trips on a line, all limits at once. Data in [0, 1000]; every "
          "schedule that is not later than waiting for the latest of the earliest times explains")
ASSUMPTIONS = ["travel times symmetric with the triangle inequality, different positions a positive distance apart",
               "the LP library is replaced by a stand-in that collects the real objective and constraints"]
MUST_REACH = {"quick": ["asked", "idle vehicle", "shared ride"]}
SLACK = 1e-6


def admit(x, nv, nt, kind, owner, orders, **geometry):
    """owner[i]: vehicle of trip i; orders[k]: stops of vehicle k as [kind, trip]."""
    w = build(x, nv, nt, kind, **geometry)
    pool, driven, schedules = [0] + list(range(1, 2 * nt + 2)), 0, {}
    for k, v in enumerate(w.vehicles):
        visits = [Visit(v.origin.position)]
        for c, i in orders[k]:
            t = w.trips[i]
            visits.append(Visit(t.origin.position, [t]) if c == "P" else Visit(t.destination.position, [], [t]))
        visits.append(Visit(v.destination.position))
        rows, load, pos, ready, limit = [], 0, v.origin.position, v.origin.earliest, v.origin.earliest
        for n, s in enumerate(visits):
            start = x.real(f"start_{k}_{n}", 0)
            leg = s.position.surface.time(pos, s.position)
            x.assume(ready + leg <= start)
            driven = driven + s.position.surface.distance(pos, s.position)
            dur = 0
            for t in s.pickups:
                dur, load = t.origin.duration, load + t.capacity
                limit = core.sym_max(limit, derived(t)[0])
            for t in s.deliveries:
                dur, load = t.destination.duration, load - t.capacity
                limit = core.sym_max(limit, derived(t)[2])
            rows.append(dict(arrival=ready + leg, start=start, departure=start + dur, load=load, duration=dur, leg=leg))
            ready, pos = start + dur, s.position
            pool += [start, load]
        x.assume(rows[-1]["start"] <= limit + x.sum([r["duration"] + r["leg"] for r in rows]))
        x.assume(constraints(x, v, visits, rows))
    if not x.feasible() if x.symbolic else False:
        return
    fake = FakeLP(x, "free")
    with patched(fake):
        try:
            MilpAlgorithm(fleet=Fleet(set(w.vehicles)), job=Job(set(w.trips), DialARideObjective)).optimize()
        except Captured:
            pass
    slack = 0 if x.symbolic else SLACK
    problem = fake.solved
    goal = fake.conditions(problem, slack) + [problem.objective.evaluate() <= driven + slack]
    x.check(admits(x, fake, goal, pool), "the model admits the planning at its driven distance")
    x.observe("driven", driven)
    x.reach("asked")
    if any(not o for o in orders):
        x.reach("idle vehicle")
    if any(o[:2] == [["P", 0], ["P", 1]] for o in orders):
        x.reach("shared ride")


def plans(nv, nt):
    """Every assignment of trips to vehicles with every order of stops."""
    import itertools
    for owner in itertools.product(range(nv), repeat=nt):
        per = [[i for i in range(nt) if owner[i] == k] for k in range(nv)]
        for combo in itertools.product(*[simple_orders(len(p)) for p in per]):
            yield owner, [[[c, p[i]] for c, i in o] for p, o in zip(per, combo)]


def cases(tier):
    out = []

    def add(name, nv, nt, only=None, **p):
        for n, (owner, orders) in enumerate(plans(nv, nt)):
            if only is None or n in only:
                out.append(dict(name=f"{name}-{n}", harness="admit", params=dict(nv=nv, nt=nt, owner=list(owner), orders=orders, **p)))
    kinds = [k for k in KINDS if k != "all"]
    add("1x0", 1, 0, kind="day")
    for k in kinds:
        add(f"1x1-{k}", 1, 1, kind=k)
        add(f"2x1-{k}", 2, 1, kind=k, geometry="line")
        add(f"1x2-line-{k}", 1, 2, kind=k, geometry="line")
    add("1x1-all", 1, 1, kind="all")
    add("2x1-sym", 2, 1, kind="plain")
    for k in ("plain", "late", "load", "ride"):
        add(f"1x2-{k}", 1, 2, kind=k)
    for k in ("late", "load"):
        add(f"2x2-{k}", 2, 2, kind=k, geometry="line", only=(0, 3, 6, 7))
    for name, places in SPOTS.items():
        add(f"1x2-{name}", 1, 2, kind="late", places=places, geometry="line")
        if name in ("depot", "home", "none"):
            add(f"1x1-{name}", 1, 1, kind="dur", places=places)
    add("1x2-origins-load", 1, 2, kind="load", places=SPOTS["origins"], geometry="line")
    add("1x1-ends", 1, 1, kind="day", depots=[(0, 1)])
    add("2x1-depots", 2, 1, kind="day", depots=[(0, 0), (1, 1)], geometry="line")
    add("2x1-ends", 2, 1, kind="late", depots=[(0, 1), (1, 2)], geometry="line")
    if tier == "thorough":
        for k in kinds:
            add(f"1x2-deep-{k}", 1, 2, kind=k)
            add(f"2x2-deep-{k}", 2, 2, kind=k, geometry="line")
            add(f"1x3-{k}", 1, 3, kind=k, geometry="line", only=range(0, 90, 7))
        add("1x2-all", 1, 2, kind="all")
        add("2x1-all", 2, 1, kind="all")
        add("2x2-sym", 2, 2, kind="late")
        add("2x2-depots", 2, 2, kind="late", depots=[(0, 1), (1, 2)], geometry="line")
    return out
