"""C30: insertions wait and postpone when that is what it takes."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from checks.c06 import expected_visits  # noqa: E402
from jinete.algorithms.heuristics.insertion.strategies import (  # noqa: E402
    InsertionStrategy, IntensiveInsertionStrategy, TailInsertionStrategy)

PROPERTY = "C30"
BOUNDS = ("quick: base routes of 0-2 trips served as early as possible, every pair of insertion positions; symbolic pickup and "
          "delivery windows, ride-time limits, working times and latest returns (one group at a time); vehicles without limited "
          "route duration, and single trips on vehicles with one; thorough: more orders and all windows together. "
          "Data in [0, 1000]")
ASSUMPTIONS = ["times are non-negative; travel times symmetric with the triangle inequality (some cases one-way)",
               "one service per stop; no start was asked for in the route that is extended"]
MUST_REACH = {"quick": ["possible", "postponed", "impossible"]}
KINDS = dict(
    hold=(dict(o_tw="early", d_tw="none", timeout="sym", duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF)),
    late=(dict(o_tw="early", d_tw="late", timeout="sym", duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF)),
    work=(dict(o_tw="early", d_tw="none", timeout="sym", duration="sym"), dict(earliest=0.0, latest=INF, timeout=INF)),
    back=(dict(o_tw="early", d_tw="none", timeout="sym", duration=0.0), dict(earliest=0.0, latest="sym", timeout=INF)),
    drop=(dict(o_tw="none", d_tw="early", timeout="sym", duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF)),
    all=(dict(tw="sym", timeout="sym", duration="sym"), dict(latest="sym", timeout=INF)),
    span=(dict(o_tw="sym", d_tw="late", timeout="sym", duration="sym"), dict(earliest=0.0, latest="sym", timeout="sym")),
)


def some_schedule(x, vehicle, visits, fixed, tag):
    """Starts chosen freely (from stop `fixed` on) that keep every limit: returned as one condition."""
    early = timeline(vehicle, visits[:fixed] + visits[fixed:])
    rows, load, conds = [], 0, []
    dep, pos = vehicle.origin.earliest, vehicle.origin.position
    for k, v in enumerate(visits):
        arrival = dep + v.position.surface.time(pos, v.position, now=dep)
        start = early[k]["start"] if k < fixed else x.real(f"{tag}.{k}", 0, 20 * BIG)
        conds.append(arrival <= start)
        for t in v.pickups:
            load = load + t.capacity
        for t in v.deliveries:
            load = load - t.capacity
        dep, pos = start + early[k]["duration"], v.position
        rows.append(dict(arrival=arrival, start=start, departure=dep, load=load))
    return x.all(conds + [constraints(x, vehicle, visits, rows, 0.0)])


def proposes(x, order, n, kind, pair=None, free=False, strategy=None):
    """free: the whole schedule may change (the vehicle has nothing planned before the new trip)."""
    w = World(x, 1 + 2 * (n + 1), tri=True)
    tk, vk = KINDS[kind]
    v = w.vehicle("v", 0, capacity=INF, **vk)
    trips = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, capacity=1.0, **tk) for i in range(n + 1)]
    route = fresh_route(v, [(k, trips[i]) for k, i in order])
    base = visits_of(route)
    m = len(route.stops)
    pairs = [(a, b) for a in range(m - 1) for b in range(a + 1, m)]
    if strategy is None:
        i, j = pair or pairs[x.choice("pair", len(pairs))]
        cands = InsertionStrategy().compute(route, trips[n], i, j)
    else:
        i, j = (m - 2, m - 1)
        cands = dict(tail=TailInsertionStrategy, intensive=IntensiveInsertionStrategy)[strategy]().compute(route, [trips[n]])
        cands = [c for c in cands if c.stops[i + 1].position is trips[n].origin_position and len(c.stops[i + 1].pickup_planned_trips) == 1
                 and any(p.trip is trips[n] for p in c.stops[i + 1].pickup_planned_trips)]
    visits = expected_visits(base, trips[n], i, j)
    if cands:
        x.reach("possible")
        if any(s._starting_time is not None for s in cands[0].stops[1:]):
            x.reach("postponed")
    else:
        x.check(x.no(some_schedule(x, v, visits, 0 if free else i + 1, "start")),
                "a trip is proposed wherever some schedule that keeps the earlier stops' times meets every limit")
        x.reach("impossible")
    x.observe("found", len(cands))


def cases(tier):
    out = []
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    nm = lambda o: "".join(f"{k}{i}" for k, i in o) or "empty"

    def add(order, n, kind, **kw):
        name = f"{nm(order)}-{kind}" + "".join(f"-{k}={v}" for k, v in kw.items())
        out.append(dict(name=name, harness="proposes", params=dict(order=order, n=n, kind=kind, **kw)))
    for kind in KINDS:
        add([], 0, kind, free=True)
    for kind in ("hold", "late", "work", "back", "drop") + (("all",) if tier == "thorough" else ()):
        add(canon(1)[0], 1, kind)
    for o in canon(2):
        for pair in ((0, 5), (0, 3)) if tier == "quick" else [None]:
            add(o, 2, "hold", pair=pair)
    add([], 0, "all", free=True, strategy="intensive")
    add(canon(1)[0], 1, "late", strategy="tail")
    if tier == "thorough":
        add(canon(1)[0], 1, "hold", strategy="intensive")
    for c in list(out):
        if c["name"] in ("P0D0-work", "empty-all-free=True"):
            out += traffic([c], kinds=("directed",))
    if tier == "thorough":
        for o in canon(2):
            for kind in ("late", "work", "back", "drop"):
                add(o, 2, kind)
        for o in canon(3)[:6]:
            add(o, 3, "hold")
    return out
