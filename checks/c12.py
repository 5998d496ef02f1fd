"""C12: route criteria score and order routes consistently."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.models import criterions as cr  # noqa: E402

PROPERTY = "C12"
BOUNDS = ("quick: scores of routes with up to 2 trips in any visiting order and 3 in some, shared stops, requested starts, feasible or not, with symbolic distances, "
          "windows, durations, ride limits, loads, bonuses and vehicle limits (some per case); best, sorted and n-best (n = 0 to "
          "one more than there are) of up to 3 routes, missing ones included; thorough: 4 routes, all orders of 3 trips. Data in [0, 1000]")
ASSUMPTIONS = ["a route's feasibility is the one of C02 and its schedule the one of C01", "HashCode points are those of trips with a load (for empty ones they are not defined); the other scores count empty trips like any other",
               "the mean over no trips counts as 0"]
MUST_REACH = {"quick": ["feasible", "infeasible", "no trips", "bonus", "ranked", "tie", "mixed", "missing", "empty trip"]}
CRITERIA = dict(
    last=(cr.EarliestLastDepartureTimeRouteCriterion, -1),
    mean=(cr.ShortestAveragePlannerTripDurationCriterion, -1),
    short=(cr.ShortestTimeRouteCriterion, -1),
    long=(cr.LongestTimeRouteCriterion, 1),
    util=(cr.LongestUtilTimeRouteCriterion, 1),
    hashcode=(cr.HashCodeRouteCriterion, 1),
)


def definition(x, name, vehicle, visits, rows):
    picked, rides, direct, points = {}, [], 0, 0
    for v, r in zip(visits, rows):
        for t in v.pickups:
            picked[t] = r
        for t in v.deliveries:
            rides.append(r["start"] - picked[t]["departure"])
            d = t.origin.position.surface.distance(t.origin.position, t.destination.position)
            direct = direct + d
            points = points + d + x.ite(picked[t]["departure"] == derived(t)[0], t.on_time_bonus, 0.0)
    span = rows[-1]["departure"] - rows[0]["departure"]
    return dict(last=rows[-1]["departure"], mean=x.sum(rides) / len(rides) if rides else 0, short=span, long=span, util=direct,
                hashcode=points)[name]


def better(x, direction, a, b):
    """score a is strictly better than score b."""
    return (a > b) if direction > 0 else (a < b)


def score(x, order, criterion, data, vehicle, n, retimed=(), origins=None):
    w = World(x, 1 + 2 * n, tri=False, separate_time=True)
    v = w.vehicle("v", 0, **vehicle)
    for i in range(n):
        w.trip(f"t{i}", origins[i] if origins else 1 + 2 * i, 2 + 2 * i, **data)
    if criterion == "hashcode":
        x.assume(x.all([t.capacity > 0 for t in w.trips]))
    elif any(bool(t.capacity == 0) for t in w.trips):
        x.reach("empty trip")
    route = fresh_route(v, [(k, w.trips[i]) if k in ("P", "D") else ([w.trips[a] for a in k], [w.trips[a] for a in i],
                                                                    (w.trips[k[0]].origin_position if k else w.trips[i[0]].destination_position))
                            for k, i in order])
    requested = {}
    for j in retimed:
        if j < len(route.stops):
            requested[j] = route.stops[j].starting_time = x.real(f"req{j}", 0, BIG)
            route.flush()
    cls, direction = CRITERIA[criterion]
    c = cls()
    got = c.scoring(route)
    visits = visits_of(route)
    for j, r in requested.items():
        visits[j].requested = r
    rows = timeline(v, visits)
    if route.feasible:
        x.check(x.eq(got, definition(x, criterion, v, visits, rows)), "a feasible route's score is the definition's")
        x.observe("score", got)
        x.reach("feasible")
        if not n:
            x.reach("no trips")
        if criterion == "hashcode" and any(bool(r["departure"] == derived(t)[0]) for vi, r in zip(visits, rows) for t in vi.pickups):
            x.reach("bonus")
    else:
        # no feasible route, whatever its score, may look worse: any finite score beats it
        for other in (-BIG * 1000.0, 0.0, BIG * 1000.0):
            x.check(x.no(better(x, direction, got, other)), "an infeasible route never scores better than a feasible one")
        x.reach("infeasible")


def routes_for(x, n, kind):
    """n one-trip routes with their own vehicles; which of them are feasible and how they score is symbolic."""
    w = World(x, 1 + n, tri=False)
    out = []
    for i in range(n):
        v = w.vehicle(f"v{i}", 0, earliest=0.0, latest="sym" if "late" in kind else INF, timeout=INF, capacity=INF)
        t = w.trip(f"t{i}", 0, 1 + i, tw="none", timeout=INF, capacity=1.0, duration=0.0, bonus=5.0)
        out.append(fresh_route(v, [("P", t), ("D", t)]))
    return w, out


def ranks(x, criterion, n, kind, missing=()):
    w, routes = routes_for(x, n, kind)
    cls, direction = CRITERIA[criterion]
    c = cls()
    feas = [bool(r.feasible) for r in routes]
    own = [definition(x, criterion, r.vehicle, visits_of(r), timeline(r.vehicle, visits_of(r))) for r in routes]

    def beats(i, j):
        """i is strictly better than j: feasible beats infeasible, else by the definition."""
        if feas[i] != feas[j]:
            return feas[i]
        return better(x, direction, own[i], own[j]) if feas[i] else False

    given = list(routes)
    ordered = c.sorted(given)
    pos = {id(r): i for i, r in enumerate(routes)}
    x.check(given == routes, "sorting leaves the given list alone")
    idx = [pos.get(id(r)) for r in ordered]
    x.check(sorted(i for i in idx if i is not None) == list(range(n)) and len(idx) == n, "sorted has the same routes")
    for a, b in zip(idx, idx[1:]):
        x.check(x.no(beats(b, a)), "sorted follows the score")
        if b < a:
            x.check(beats(a, b), "equal scores keep their given order")
    inplace = list(routes)
    x.check([pos[id(r)] for r in c.sorted(inplace, inplace=True)] == idx, "in-place sorting gives the same order")
    x.check([pos[id(r)] for r in inplace] == idx, "in-place sorting sorts the given list")
    for k in range(n + 2):
        top = c.nbest(k, list(routes))
        x.check([pos.get(id(r)) for r in top] == idx[:k], "n-best is the prefix of the sorted list")
    x.check(given == routes and c.nbest(n, given) is not given and given == routes, "n-best leaves the given list alone")
    top = c.nbest(1, (r for r in routes))
    x.check([pos.get(id(r)) for r in top] == idx[:1], "n-best of an iterator is the prefix of the sorted list")
    args = []
    for i, r in enumerate(routes):
        if i in missing:
            args.append(None)
        args.append(r)
    b = c.best(*args)
    x.check(b is (ordered[0] if ordered else None), "best is the first of the sorted list, ignoring missing ones")
    x.observe("order", tuple(float(i) for i in idx))
    x.reach("ranked")
    if missing:
        x.reach("missing")
    if n > 1 and feas[0] != feas[1]:
        x.reach("mixed")
    if n > 1 and feas[0] and feas[1] and own[0] == own[1]:
        x.reach("tie")


FREE = dict(earliest="sym", latest=INF, timeout=INF, capacity=INF)
DATA = dict(
    plain=(dict(tw="none", timeout=INF, capacity=1.0, duration="sym", bonus="sym"), dict(earliest="sym", latest="sym", timeout=INF, capacity=INF)),
    win=(dict(o_tw="early", d_tw="late", timeout=INF, capacity=1.0, duration="sym", bonus="sym"), FREE),
    ride=(dict(o_tw="early", d_tw="none", timeout="sym", capacity=1.0, duration=0.0, bonus="sym"), FREE),
    load=(dict(tw="none", timeout=INF, capacity="sym", duration=0.0, bonus="sym"), dict(earliest=0.0, latest=INF, timeout="sym", capacity="sym")),
)


def cases(tier):
    out = []

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    nm = lambda o: "".join(f"{k}{i}" for k, i in o) or "empty"
    two = [o for o in simple_orders(2) if o[0] == ("P", 0)]
    three = [o for o in simple_orders(3) if o[0] == ("P", 0)] if tier == "thorough" else \
        [[("P", 0), ("P", 1), ("D", 0), ("P", 2), ("D", 2), ("D", 1)]]
    for c in CRITERIA:
        for kind, (data, veh) in DATA.items():
            for o in [[], simple_orders(1)[0]] + two + (three if kind == "plain" else []):
                add("score", f"{c}-{kind}-{nm(o)}", order=o, criterion=c, data=data, vehicle=veh, n=len(o) // 2)
            out += together([k for k in out if k["harness"] == "score" and k["name"].startswith((f"score-{c}-{kind}-P0P1D1D0", f"score-{c}-{kind}-P0D0P1"))
                             and "where" not in k], patterns=("twin", "swap", "loop"))
            add("score", f"{c}-{kind}-retimed0", order=[], criterion=c, data=data, vehicle=veh, n=0, retimed=[0, 1])
            add("score", f"{c}-{kind}-retimed1", order=simple_orders(1)[0], criterion=c, data=data, vehicle=veh, n=1, retimed=[0, 2, 3])
            add("score", f"{c}-{kind}-retimed2", order=two[-1], criterion=c, data=data, vehicle=veh, n=2, retimed=[0, 1])
            if kind in ("load", "win"):
                add("score", f"{c}-{kind}-shared", order=[([0, 1], []), ([], [1]), ([], [0])], criterion=c, data=data, vehicle=veh, n=2, origins=[1, 1])
                add("score", f"{c}-{kind}-shared2", order=[([0], []), ([1], [0]), ([], [1])], criterion=c, data=data, vehicle=veh, n=2, origins=[1, 2])
        for n in range(0, 5 if tier == "thorough" else 4):
            for kind in ("late", "free"):
                if n == 4 and kind == "late":
                    continue
                add("ranks", f"{c}-{n}-{kind}", criterion=c, n=n, kind=kind)
        add("ranks", f"{c}-2-miss", criterion=c, n=2, kind="late", missing=[0])
        add("ranks", f"{c}-1-miss", criterion=c, n=1, kind="late", missing=[0])
    return out
