"""C02: the feasibility verdict against the constraints themselves, both ways, after any edit history."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403

PROPERTY = "C02"
BOUNDS = ("quick: every route of up to 2 trips (all interleavings), shared stops, separate start/end depots, wrong end "
          "stops, plannings of up to 2 routes; histories verdict-edit-verdict (edit: append anywhere, remove, retime, "
          "waypoint, clone) from a one-trip route that is feasible or violates one chosen constraint; thorough: 3 trips, "
          "two edits. All data symbolic in [0, 1000]")
ASSUMPTIONS = ["times are non-negative; travel times satisfy the triangle inequality and are symmetric (directed-*: one-way; clock-*: "
               "one-way, and longer by some amount from some moment on, never shorter than the time the windows were derived from)",
               "between satisfied exactly and violated by more than the library's 0.001 tolerance nothing is claimed",
               "services performed together at one stop have equal durations (otherwise 'ride' is ambiguous: from the end of "
               "the own service, as in the derived windows, or from the stop's departure)",
               "a start set on a stop is followed by Route.flush()"]
MUST_REACH = {"quick": ["feasible", "infeasible", "edit:True>True", "edit:True>False", "edit:False>True", "empty-planning"]}


def setup(x, n, timeout="sym", tw="sym", extra=0, depots=1, travel=None, **kw):
    w = World(x, depots + 2 * n + extra, tri=True, travel=travel)
    v = w.vehicle("v", 0, depots - 1 if depots > 1 else None, **kw)
    trips = [w.trip(f"t{i}", depots + 2 * i, depots + 1 + 2 * i, timeout=timeout, tw=tw) for i in range(n)]
    return w, v, trips


def verdict(x, h, tag):
    rows = h.rows()
    exact = constraints(x, h.vehicle, h.visits, rows, 0.0)
    loose = constraints(x, h.vehicle, h.visits, rows, EPS)
    got = bool(h.route.feasible)
    if got:
        x.check(loose, f"{tag}: reported feasible, so every constraint holds")
    else:
        x.check(x.no(exact), f"{tag}: reported infeasible, so some constraint fails")
    return got


def trip_verdicts(x, h, got, tag):
    rows = h.rows()
    for pt in h.route.planned_trips:
        t = pt.trip
        i = next(k for k, v in enumerate(h.visits) if t in v.pickups)
        j = next(k for k, v in enumerate(h.visits) if t in v.deliveries)
        a, b = rows[i], rows[j]
        alone = x.all([t.origin.earliest <= a["start"] + EPS, a["start"] <= t.origin.latest + EPS,
                       t.destination.earliest <= b["start"] + EPS, b["start"] <= t.destination.latest + EPS,
                       b["start"] - a["departure"] <= t.timeout + EPS,
                       a["load"] <= h.vehicle.capacity + EPS, b["load"] <= h.vehicle.capacity + EPS])
        r = bool(pt.feasible)
        if r:
            x.check(alone, f"{tag}: planned trip reported feasible, so its constraints hold")
        else:
            x.check(not got, f"{tag}: planned trip infeasible in a feasible route")
            # nothing else in the route may make this trip infeasible: only its own two stops
            vis = [h.visits[i], h.visits[j]]
            conds = [x.le(b["start"] - a["departure"], t.timeout)]
            for v, row in ((vis[0], a), (vis[1], b)):
                conds.append(row["load"] <= h.vehicle.capacity)
                conds += [row["start"] <= core.sym_min(row["latest"], INF)]
            x.check(x.no(x.all(conds)), f"{tag}: planned trip reported infeasible, so one of its constraints fails")


def static(x, order, n, timeout="sym", tw="sym", depots=1, trip_level=False, travel=None):
    w, v, trips = setup(x, n, timeout, tw, depots=depots, travel=travel)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in order])
    got = verdict(x, h, "built")
    if trip_level:
        trip_verdicts(x, h, got, "built")
    x.reach("feasible" if got else "infeasible")
    x.observe("feasible", got)


def shared(x, stops, n, edit=False):
    w, v, trips, h = shared_route(x, n, stops, tri=True)
    for ps, ds in stops:  # services performed together take equally long (see ASSUMPTIONS)
        durs = [trips[i].origin.duration for i in ps] + [trips[i].destination.duration for i in ds]
        x.assume(x.all([a == b for a, b in zip(durs, durs[1:])]))
    got = verdict(x, h, "shared")
    if edit:
        h.read()
        name = h.edit("e", [], ("remove",))
        verdict(x, h, "after edit of shared stops")
        x.observe("op", name)
    x.observe("feasible", got)


def wrong_ends(x):
    """The vehicle starts or ends somewhere else than at its own depots."""
    w, v, trips = setup(x, 1, depots=2, extra=1)
    t = trips[0]
    first_at = (v.origin_position, w.p[-1], v.destination_position)[x.choice("first", 3)]
    last_at = (v.destination_position, w.p[-1], v.origin_position)[x.choice("last", 3)]
    a = Stop(v, first_at, None)
    b = Stop(v, t.origin_position, a)
    c = Stop(v, t.destination_position, b)
    PlannedTrip(v, t, b, c)
    d = Stop(v, last_at, c)
    route = Route(v, [a, b, c, d])
    good = first_at is v.origin_position and last_at is v.destination_position
    got = bool(route.feasible)
    if not good:
        x.check(not got, "a route away from its depots is infeasible")
    else:
        x.reach("right-ends")
    x.observe("feasible", got)


VIOLATIONS = ("none", "pickup-late", "ride", "load", "back-late", "duration")


def assume_state(x, h, kind):
    """Assume that the current route violates exactly the chosen constraint (or none)."""
    rows, v = h.rows(), h.vehicle
    gap = 0.5
    conds = []

    def c(name, lhs, rhs):
        if core.is_inf(rhs):
            return
        conds.append(lhs > rhs + gap if name == kind else lhs <= rhs)
    picked = {}
    for vis, r in zip(h.visits, rows):
        for t in vis.pickups:
            picked[t] = r
            oe, ol, de, dl = derived(t)
            c("pickup-late", r["start"], ol)
        for t in vis.deliveries:
            oe, ol, de, dl = derived(t)
            c("delivery-late", r["start"], dl)
            c("ride", r["start"] - picked[t]["departure"], t.timeout)
        if vis.pickups:
            c("load", r["load"], v.capacity)
    c("back-late", rows[-1]["departure"], v.destination.latest)
    c("duration", rows[-1]["departure"] - rows[0]["departure"], v.timeout)
    x.assume(x.all(conds))


def history(x, kind, n, edits, ops, first=(("P", 0), ("D", 0)), maybe_read=False, travel=None):
    w, v, trips = setup(x, n, extra=1, travel=travel)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in first])
    used = {i for _, i in first}
    spare = [t for i, t in enumerate(trips) if i not in used]
    assume_state(x, h, kind)
    before = bool(h.route.feasible)
    for pt in h.route.planned_trips:
        pt.feasible
    x.check(before == (kind == "none"), "verdict before the edit")
    names = []
    for e in range(edits):
        names.append(h.edit(f"e{e}", spare, ops))
        if e < edits - 1 and (not maybe_read or x.flag(f"read{e}")):
            verdict(x, h, "between edits")
    after = verdict(x, h, "after edit")
    trips_ok = x.all([bool(p.feasible) for p in h.route.planned_trips])
    if after:
        x.check(trips_ok, "after edit: feasible route, feasible planned trips")
    x.reach(f"edit:{before}>{after}")
    x.observe("ops", tuple(names))
    x.observe("after", after)


def plannings(x, k):
    from jinete.models import DialARideObjective
    w = World(x, 1 + 2 * max(k, 1), tri=True)
    vehicles = [w.vehicle(f"v{i}", 0, earliest=0.0, timeout=INF) for i in range(k)]
    trips = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="late", duration=0.0, timeout=INF, capacity=1) for i in range(k)]
    hs = [Hist(x, w, v, [("P", t), ("D", t)]) for v, t in zip(vehicles, trips)]
    if k and x.flag("one_empty"):
        hs[-1] = Hist(x, w, vehicles[-1], [])
    routes = {h.route for h in hs}
    job = Job(set(trips), DialARideObjective)
    result = make_result(job, Fleet(set(vehicles)), routes)
    got = bool(result.planning.feasible)
    exact = x.all([constraints(x, h.vehicle, h.visits, h.rows(), 0.0) for h in hs])
    loose = x.all([constraints(x, h.vehicle, h.visits, h.rows(), EPS) for h in hs])
    if got:
        x.check(loose, "planning reported feasible, so all its routes are")
    else:
        x.check(x.no(exact), "planning reported infeasible, so one of its routes is")
    x.check(bool(result.feasible) == got, "the result repeats the planning's verdict")
    if k == 0:
        x.check(got, "a planning with no routes is feasible")
        x.reach("empty-planning")
    x.observe("feasible", got)


def naive(x):
    """The naive algorithm returns an (empty, feasible) planning on every instance."""
    from jinete.algorithms import NaiveAlgorithm
    from jinete.models import DialARideObjective
    w, v, trips = setup(x, 1)
    result = NaiveAlgorithm(Fleet({v}), Job(set(trips), DialARideObjective)).optimize()
    x.check(bool(result.feasible), "the naive algorithm's empty planning is feasible")
    x.check(len(result.planning.routes) == 0, "the naive algorithm's planning is empty")


def cases(tier):
    out = []
    for n in (0, 1, 2):
        for o in simple_orders(n):
            if n == 2 and o[0][1] != 0 and tier == "quick":
                continue  # the other half is the same up to renaming the trips
            out.append(dict(name="static-" + "".join(f"{k}{i}" for k, i in o), harness="static",
                            params=dict(order=o, n=n, trip_level=n == 1)))
    out += together([c for c in out if c["params"]["n"] == 2], patterns=("twin", "swap", "loop")) + \
        together([c for c in out if c["params"]["n"] == 1], patterns=("loop", "home"))
    out.append(dict(name="static-trips", harness="static", params=dict(order=simple_orders(2)[0], n=2, trip_level=True, tw="late")))
    out.append(dict(name="static-inf", harness="static", params=dict(order=simple_orders(2)[0], n=2, timeout=INF)))
    out.append(dict(name="static-notw", harness="static", params=dict(order=simple_orders(2)[1], n=2, tw="none")))
    for travel in ("directed", "clock"):
        for o in (simple_orders(1)[0], simple_orders(2)[0], simple_orders(2)[1]):
            out.append(dict(name=f"{travel}-" + "".join(f"{k}{i}" for k, i in o), harness="static",
                            params=dict(order=o, n=len(o) // 2, travel=travel, trip_level=len(o) == 2)))
    out.append(dict(name="static-2depots", harness="static", params=dict(order=simple_orders(1)[0], n=1, depots=2)))
    out.append(dict(name="shared-22", harness="shared", params=dict(n=2, stops=[((0, 1), ()), ((), (0, 1))])))
    out.append(dict(name="shared-swap", harness="shared", params=dict(n=2, stops=[((0,), ()), ((1,), (0,)), ((), (1,))])))
    out.append(dict(name="shared-edit-22", harness="shared", params=dict(n=2, edit=True, stops=[((0, 1), ()), ((), (0, 1))])))
    out.append(dict(name="shared-edit-211", harness="shared", params=dict(n=2, edit=True, stops=[((0, 1), ()), ((), (0,)), ((), (1,))])))
    out.append(dict(name="wrong-ends", harness="wrong_ends"))
    for k in (0, 1, 2):
        out.append(dict(name=f"planning-{k}", harness="plannings", params=dict(k=k)))
    out.append(dict(name="naive", harness="naive"))
    light = ("remove", "retime", "waypoint", "clone")
    for kind in VIOLATIONS:
        ops = ("append",) + light if kind == "none" or tier == "thorough" else light
        out.append(dict(name=f"history-{kind}", harness="history", params=dict(kind=kind, n=2, edits=1, ops=ops)))
    for kind in ("none", "ride"):
        out.append(dict(name=f"clock-history-{kind}", harness="history",
                        params=dict(kind=kind, n=1, edits=1, ops=light, travel="clock")))
    out.append(dict(name="history-remove2", harness="history", params=dict(
        kind="none", n=2, edits=1, ops=("remove",), first=(("P", 0), ("P", 1), ("D", 0), ("D", 1)))))
    out.append(dict(name="history-two", harness="history", params=dict(kind="none", n=1, edits=2, ops=light)))
    if tier == "thorough":
        for kind in VIOLATIONS:
            out.append(dict(name=f"history2-{kind}", harness="history", params=dict(kind=kind, n=2, edits=2, ops=("append",) + light, maybe_read=True)))
        for o in simple_orders(3):
            if [i for k, i in o if k == "P"] == [0, 1, 2]:
                out.append(dict(name="static-" + "".join(f"{k}{i}" for k, i in o), harness="static", params=dict(order=o, n=3)))
    return out
