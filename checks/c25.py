"""C25: rounding in double arithmetic never turns a valid plan into a crash or changes a verdict beyond the tolerance."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from symx import core  # noqa: E402

PROPERTY = "C25"
BOUNDS = ("quick: every interleaving of up to 3 trips' pickups and deliveries (loads), of up to 2 trips (times), the "
          "shared-stop shapes of SHARED, and removing or inserting a trip in a loaded route; thorough: 4 trips (loads), 3 "
          "trips nested, chained and overlapping (times). All numbers are doubles: loads, times, windows, durations and "
          "travel times in [0, 1000], capacities in [0, 10000]")
ASSUMPTIONS = [
    "every sum and difference of the code's numbers is rounded to nearest (at most two loads change at one stop, where the "
    "interpreter's compensated sum() rounds like a plain sum)",
    "proofs use the linear model |fl(a+b)-(a+b)| <= 2^-53 |a+b| with monotonicity, which contains every behaviour of doubles; "
    "a failure in the model is decided again in the theory of IEEE 754 doubles (there nonzero inputs are at least 2^-40)",
]
MUST_REACH = {"quick": ["loads", "full", "over", "times", "in time", "late", "edited"]}


def both(x, make):
    """The same objects twice: in the code's numbers, and in exact numbers for the oracle."""
    with x.exact():
        code = make(x)
    if x.symbolic:
        return code, code
    x.fractions = True
    try:
        return code, make(x)
    finally:
        x.fractions = False


def still(w):
    for m in (w.surface.matrix, w.surface.tmatrix):
        for k in m:
            m[k] = 0.0


def close(a, b):
    return (a - b <= EPS) & (b - a <= EPS)


def check_loads(x, route, onboard, cap, tag):
    """onboard: exact load after each stop."""
    rows = []
    for s, true in zip(route.stops, onboard):
        q = s.capacity
        with x.exact():
            x.check(q >= -EPS, f"{tag}: reported loads are not negative")
            x.check(close(exact(x, q), true), f"{tag}: reported load is what is on board")
        rows.append(q)
    ok = bool(route.feasible)
    with x.exact():
        fits = x.all([t <= cap for t in onboard])
        x.check(x.implies(fits, ok), f"{tag}: a vehicle that can hold its load is not over capacity")
        x.check(x.implies(ok, x.all([t <= cap + 2 * EPS for t in onboard])), f"{tag}: an accepted load fits")
    x.reach("full" if ok else "over")
    return rows


def exact(x, v):
    return v if x.symbolic or isinstance(v, int) else core.Exact(v)


def loaded_world(x, n, hi=None):
    def make(x):
        w = World(x, 1 + 2 * n)
        still(w)
        v = w.vehicle("v", 0, earliest=0.0, latest=INF, timeout=INF, capacity=x.real("cap", 0, 10 * BIG))
        for i in range(n):
            w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", duration=0.0, timeout=INF)
        return w, v
    return both(x, make)


def amounts(x, trips, visits):
    """Exact loads after each visit: what was picked up and not yet delivered."""
    out, inside = [], []
    with x.exact():
        for ps, ds in visits:
            inside = [i for i in inside + list(ps) if i not in ds]
            out.append(x.sum([trips[i].capacity for i in inside]))
    return out


def loads(x, order, n):
    x.rounding()
    (w, v), (m, mv) = loaded_world(x, n)
    h = Hist(x, w, v, [(k, w.trips[i]) for k, i in order])
    on = amounts(x, m.trips, [((), ())] + [((i,), ()) if k == "P" else ((), (i,)) for k, i in order] + [((), ())])
    rows = check_loads(x, h.route, on, mv.capacity, "loads")
    x.reach("loads")
    for k, q in enumerate(rows):
        x.observe(f"q{k}", q)


def edited(x, order, n, gone):
    """Loads after a trip has been taken out of a route that was read."""
    x.rounding()
    (w, v), (m, mv) = loaded_world(x, n)
    h = Hist(x, w, v, [(k, w.trips[i]) for k, i in order])
    for s in h.route.stops:
        s.capacity
    h.route.remove_trip(w.trips[gone])
    rest = [(k, i) for k, i in order if i != gone]
    on = amounts(x, m.trips, [((), ())] + [((i,), ()) if k == "P" else ((), (i,)) for k, i in rest] + [((), ())])
    rows = check_loads(x, h.route, on, mv.capacity, "edited")
    x.reach("edited")
    for k, q in enumerate(rows):
        x.observe(f"q{k}", q)


SHARED = {
    "pick2-drop2": (2, [((0, 1), ()), ((), (0, 1))]),
    "pick2-drop1-drop1": (2, [((0, 1), ()), ((), (0,)), ((), (1,))]),
    "pick1-swap-drop1": (2, [((0,), ()), ((1,), (0,)), ((), (1,))]),
    "pick1-pick1-drop2": (2, [((0,), ()), ((1,), ()), ((), (0, 1))]),
    "chain3": (3, [((0, 1), ()), ((2,), (0,)), ((), (1, 2))]),
}


def shared(x, shape):
    n, stops = SHARED[shape]
    x.rounding()

    def make(x):
        w = World(x, 1 + len(stops))
        still(w)
        v = w.vehicle("v", 0, earliest=0.0, latest=INF, timeout=INF, capacity=x.real("cap", 0, 10 * BIG))
        at = {}
        for k, (ps, ds) in enumerate(stops):
            for i in ps:
                at.setdefault(i, {})["o"] = k + 1
            for i in ds:
                at.setdefault(i, {})["d"] = k + 1
        for i in range(n):
            w.trip(f"t{i}", at[i]["o"], at[i]["d"], tw="none", duration=0.0, timeout=INF)
        return w, v
    (w, v), (m, mv) = both(x, make)
    h = Hist(x, w, v, [([w.trips[i] for i in ps], [w.trips[i] for i in ds], w.p[k + 1]) for k, (ps, ds) in enumerate(stops)])
    on = amounts(x, m.trips, [((), ())] + stops + [((), ())])
    rows = check_loads(x, h.route, on, mv.capacity, "shared")
    for k, q in enumerate(rows):
        x.observe(f"q{k}", q)


def times(x, order, n, tw="sym", timeout="sym"):
    x.rounding()

    def make(x):
        w = World(x, 2 + 2 * n, tri=True)
        v = w.vehicle("v", 0, 1, capacity=INF)
        for i in range(n):
            w.trip(f"t{i}", 2 + 2 * i, 3 + 2 * i, tw=tw, capacity=1, timeout=timeout)
        return w, v
    (w, v), (m, mv) = both(x, make)
    route = fresh_route(v, [(k, w.trips[i]) for k, i in order])
    visits = visits_of(fresh_route(mv, [(k, m.trips[i]) for k, i in order]))
    with x.exact():
        rows = timeline(mv, visits)
    for s, r in zip(route.stops, rows):
        a, b, d, wait = s.arrival_time, s.starting_time, s.departure_time, s.waiting_time
        with x.exact():
            for got, want, what in ((a, "arrival", "arrival"), (b, "start", "start"), (d, "departure", "departure"), (wait, "waiting", "waiting")):
                x.check(close(exact(x, got), r[want]), f"times: {what} is the exact one")
        x.check(wait >= -EPS, "times: no negative waiting")
        x.observe("dep", d)
    ok = bool(route.feasible)
    with x.exact():
        x.check(x.implies(constraints(x, mv, visits, rows), ok), "times: a plan that meets every constraint is accepted")
        x.check(x.implies(ok, constraints(x, mv, visits, rows, eps=2 * EPS)), "times: an accepted plan meets every constraint")
    x.reach("times")
    x.reach("in time" if ok else "late")
    x.observe("ok", ok)


def cases(tier):
    out = []

    def name(o):
        return "".join(f"{k}{i}" for k, i in o)
    for n in range(1, 4 if tier == "quick" else 5):
        for o in simple_orders(n):
            if [i for k, i in o if k == "P"] != list(range(n)):
                continue  # trips are interchangeable
            out.append(dict(name="loads-" + name(o), harness="loads", params=dict(order=o, n=n)))
            if n == 3 or n == 2:
                out.append(dict(name="edited-" + name(o), harness="edited", params=dict(order=o, n=n, gone=0)))
    for s in SHARED:
        out.append(dict(name="shared-" + s, harness="shared", params=dict(shape=s)))
    for n in (1, 2):
        for o in simple_orders(n):
            if [i for k, i in o if k == "P"] != list(range(n)):
                continue
            out.append(dict(name="times-" + name(o), harness="times", params=dict(order=o, n=n)))
    if tier != "quick":
        for o in ([("P", 0), ("P", 1), ("P", 2), ("D", 2), ("D", 1), ("D", 0)],
                  [("P", 0), ("D", 0), ("P", 1), ("D", 1), ("P", 2), ("D", 2)],
                  [("P", 0), ("P", 1), ("D", 0), ("P", 2), ("D", 1), ("D", 2)]):
            out.append(dict(name="times-" + name(o), harness="times", params=dict(order=o, n=3)))
    out.append(dict(name="times-inf", harness="times", params=dict(order=simple_orders(2)[0], n=2, timeout=INF)))
    out.append(dict(name="times-notw", harness="times", params=dict(order=simple_orders(2)[0], n=2, tw="none")))
    return out
