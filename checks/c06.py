"""C06: candidate routes proposed for an insertion are valid extensions and leave everything else alone."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.algorithms.heuristics.insertion.strategies import (  # noqa: E402
    InsertionStrategy, IntensiveInsertionStrategy, SamplingInsertionStrategy, TailInsertionStrategy)

PROPERTY = "C06"
BOUNDS = ("quick: base routes of 0-2 trips built stop by stop, or obtained from a previous insertion; every pair of insertion "
          "positions; symbolic windows, durations, ride-time limits, loads, vehicle window, duration limit and capacity; all "
          "strategies on 0-1 trip bases for one or two trips, unfiltered also on bases of 2 (intensive and tail: 3) trips; pairs of successive proposals from the same base; thorough: all "
          "windows symbolic together, bases of 2 trips after insertions and up to 3 trips fresh. Data in [0, 1000]")
ASSUMPTIONS = ["times are non-negative; travel times symmetric with the triangle inequality (some cases also with one-way travel times, or with ones that depend on the clock)",
               "pairs drawn at random are followed for at most one more draw than pairs asked for",
               "'as early as possible' means each stop starts at the latest of arrival and its services' earliest times, "
               "the vehicle leaving its depot at its earliest time"]
MUST_REACH = {"quick": ["kept", "dropped", "depot-delayed", "pickup-delayed", "second-candidate", "chained", "strategy-all",
                        "sampling-part"]}


def world(x, n, kind, tri=True):
    """`kind` chooses which data are symbolic, to keep the case split small."""
    w = World(x, 1 + 2 * n, tri=tri)
    k = dict(
        all=(dict(), dict()),
        window=(dict(timeout=INF), dict(timeout=INF)),
        early=(dict(tw="early", timeout=INF, capacity=0), dict(capacity=0)),
        late=(dict(tw="late", timeout=INF, capacity=0), dict(timeout=INF, capacity=0)),
        ride=(dict(tw="early", capacity=0), dict(latest=INF, timeout=INF, capacity=0)),
        load=(dict(tw="none", timeout=INF), dict(latest=INF, timeout=INF)),
        early_span=(dict(o_tw="sym", d_tw="none", timeout=INF, capacity=0), dict(timeout=INF, capacity=0, latest=INF)),
        wait=(dict(o_tw="early", d_tw="none", timeout=INF, capacity=0), dict(timeout=INF, capacity=0, latest=INF)),
        plain=(dict(tw="none", timeout=INF, capacity=0), dict(latest=INF, timeout=INF, capacity=0)),
        span=(dict(tw="none", timeout=INF, capacity=0), dict(timeout=INF, capacity=0)),
    )[kind]
    v = w.vehicle("v", 0, **k[1])
    return w, v, [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, **k[0]) for i in range(n)]


def expected_visits(base, trip, i, j):
    vs = [v.copy() for v in base]
    for v in vs:
        v.requested = None
    vs.insert(j, Visit(trip.destination_position, [], [trip]))
    vs.insert(i + 1, Visit(trip.origin_position, [trip], []))
    return vs


def shape(visits):
    return [(v.position, frozenset(t.identifier for t in v.pickups), frozenset(t.identifier for t in v.deliveries))
            for v in visits]


def check_candidate(x, vehicle, base, cand, trip, i, j, tag):
    x.check(cand.vehicle is vehicle, f"{tag}: same vehicle")
    x.check(shape(visits_of(cand)) == shape(expected_visits(base, trip, i, j)),
            f"{tag}: the base's stops in order, the trip's at the requested positions")
    x.check(structure_ok(x, cand), f"{tag}: stops and planned trips are linked")


def check_verdict(x, vehicle, base, cands, trip, i, j, tag):
    if cands:
        x.check(schedule_conditions(x, cands[0]), f"{tag}: a proposed route satisfies every constraint")
        x.check(bool(cands[0].feasible), f"{tag}: a proposed route is feasible")
        x.reach("kept")
    elif x.case.get("travel") != "clock":  # leaving later may take longer there
        vs = expected_visits(base, trip, i, j)
        x.check(x.no(constraints(x, vehicle, vs, timeline(vehicle, vs))),
                f"{tag}: no candidate that is feasible as early as possible is dropped")
        x.reach("dropped")


def build(x, w, v, trips, order, retimed=None, read=False):
    h = Hist(x, w, v, [(k, trips[i]) for k, i in order])
    if retimed is not None:
        h.retime(retimed, x.real("req", 0, BIG))
    if read:
        h.read(True)
    return h


def one(x, order, n, kind, only=True, read=False):
    """One proposal, filtered or not."""
    w, v, trips = world(x, n + 1, kind)
    h = build(x, w, v, trips, order, read=read)
    base = visits_of(h.route)
    pairs = h.pairs()
    i, j = pairs[x.choice("pair", len(pairs))]
    before = snapshot(h.route) if kind not in ("all", "window") else None
    strategy = InsertionStrategy(only_feasible=only)
    cands = strategy.compute(h.route, trips[n], i, j)
    x.check(len(cands) <= 1 and (only or len(cands) == 1), "one candidate per pair")
    for c in cands:
        check_candidate(x, v, base, c, trips[n], i, j, "candidate")
    if only:
        check_verdict(x, v, base, cands, trips[n], i, j, "candidate")
    if before is not None:
        x.check(same_snapshot(x, before, snapshot(h.route)), "the base route reports the same as before")
    x.check(structure_ok(x, h.route), "the base route's links are intact")
    for c in cands:
        if c.stops[0]._starting_time is not None:
            x.reach("depot-delayed")
        if any(s._starting_time is not None for s in c.stops[1:]):
            x.reach("pickup-delayed")
        x.observe("last", c.last_departure_time)
        x.observe("first", c.first_departure_time)


def two(x, order, n, kind, retimed=None, read=False):
    """Two proposals from the same base: neither the base nor the first candidate changes."""
    w, v, trips = world(x, n + 2 if n < 2 else n + 1, kind)
    h = build(x, w, v, trips, order, retimed, read)
    base = visits_of(h.route)
    pairs = h.pairs()
    before = snapshot(h.route)
    strategy = InsertionStrategy(only_feasible=False)
    i, j = pairs[x.choice("pair", len(pairs))]
    first = strategy.compute(h.route, trips[n], i, j)[0]
    x.check(same_snapshot(x, before, snapshot(h.route)), "first proposal: the base route reports the same as before")
    snap = snapshot(first)
    i2, j2 = pairs[x.choice("pair2", len(pairs))]
    second = strategy.compute(h.route, trips[-1], i2, j2)[0]
    check_candidate(x, v, base, first, trips[n], i, j, "first")
    check_candidate(x, v, base, second, trips[-1], i2, j2, "second")
    x.check(same_snapshot(x, before, snapshot(h.route)), "second proposal: the base route reports the same as before")
    x.check(same_snapshot(x, snap, snapshot(first)), "second proposal: the first candidate reports the same as before")
    x.check(structure_ok(x, h.route), "the base route's links are intact")
    x.reach("second-candidate")
    x.observe("last", [first.last_departure_time, second.last_departure_time])


def chain(x, kind, n, order=None):
    """The base itself comes from insertions."""
    w, v, trips = world(x, n + 1, kind)
    route = Route(v)
    strategy = InsertionStrategy()
    for k in range(n):
        m = len(route.stops)
        pairs = [(a, b) for a in range(m - 1) for b in range(a + 1, m)]
        a, b = pairs[x.choice(f"p{k}", len(pairs))]
        got = strategy.compute(route, trips[k], a, b)
        if not got:
            return
        route = got[0]
    base = visits_of(route)
    m = len(route.stops)
    pairs = [(a, b) for a in range(m - 1) for b in range(a + 1, m)]
    i, j = pairs[x.choice("pair", len(pairs))]
    before = snapshot(route)
    cands = strategy.compute(route, trips[n], i, j)
    for c in cands:
        check_candidate(x, v, base, c, trips[n], i, j, "chained")
    check_verdict(x, v, base, cands, trips[n], i, j, "chained")
    x.check(same_snapshot(x, before, snapshot(route)), "chained: the base route reports the same as before")
    x.reach("chained")
    for c in cands:
        x.observe("last", c.last_departure_time)
        x.observe("first", c.first_departure_time)


def strategies(x, which, n, new, kind, only, count=128):
    """All candidates of a strategy: each expected position exactly once, filtered by the verdict."""
    w, v, trips = world(x, n + new, kind)
    h = build(x, w, v, trips, [(k, i) for i in range(n) for k in "PD"])
    base = visits_of(h.route)
    cls = dict(intensive=IntensiveInsertionStrategy, sampling=SamplingInsertionStrategy, tail=TailInsertionStrategy)[which]
    strategy = cls(only_feasible=only)
    arg = trips[n] if new == 1 and x.flag("bare") else iter(trips[n:]) if which != "tail" else list(trips[n:])
    kw = dict(count=count) if which == "sampling" else {}
    x.store["draw_limit"] = 2 * (count + 1)
    before = snapshot(h.route)
    got = strategy.compute(h.route, arg, **kw)
    pairs = h.pairs() if which != "tail" else [(len(base) - 2, len(base) - 1)]
    want = {}
    for t in trips[n:]:
        for i, j in pairs:
            vs = expected_visits(base, t, i, j)
            want[t.identifier, i, j] = vs
    seen = {}
    for c in got:
        s = shape(visits_of(c))
        hit = [k for k, vs in want.items() if shape(vs) == s]
        x.check(len(hit) == 1, f"{which}: every candidate is an insertion at a requested position")
        for k in hit:
            seen[k] = seen.get(k, 0) + 1
        x.check(structure_ok(x, c), f"{which}: stops and planned trips are linked")
        if only:
            x.check(schedule_conditions(x, c), f"{which}: a proposed route satisfies every constraint")
        x.observe("last", c.last_departure_time)
    x.check(all(m == 1 for m in seen.values()), f"{which}: no position is proposed twice")
    if count >= len(pairs):
        for k, vs in want.items():
            if k not in seen:
                if only and x.case.get("travel") != "clock":
                    x.check(x.no(constraints(x, v, vs, timeline(v, vs))), f"{which}: no feasible candidate is missing")
                elif not only:
                    x.check(False, f"{which}: every position is proposed")
        x.reach("strategy-all")
    else:
        x.check(len({k[1:] for k in seen}) <= count, f"{which}: no more pairs than asked for")
        if not only:
            x.check(len(seen) == count * new, f"{which}: as many pairs as asked for, for each trip")
        x.reach("sampling-part")
    x.check(same_snapshot(x, before, snapshot(h.route)), f"{which}: the base route reports the same as before")


def cases(tier):
    out = []
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    nm = lambda o: "".join(f"{k}{i}" for k, i in o) or "empty"

    def add(name, harness, **params):
        out.append(dict(name=name, harness=harness, params=params))
    add("one-empty-all", "one", order=[], n=0, kind="all")
    for n in (0, 1):
        for o in canon(n):
            for kind in (("early", "late", "ride", "load") if n else ("ride", "load")):
                add(f"one-{nm(o)}-{kind}", "one", order=o, n=n, kind=kind)
            add(f"one-{nm(o)}-all", "one", order=o, n=n, kind="all") if n == 1 and tier == "thorough" else None
    for o in canon(2):
        add(f"one-{nm(o)}-load", "one", order=o, n=2, kind="load")
        add(f"one-{nm(o)}-unfiltered", "one", order=o, n=2, kind="plain", only=False)
    o1 = canon(1)[0]
    for o in canon(2):
        add(f"one-{nm(o)}-wait", "one", order=o, n=2, kind="wait")
    add("two-empty", "two", order=[], n=0, kind="early")
    add("two-empty-ride", "two", order=[], n=0, kind="ride")
    for k in range(4):
        add(f"two-retimed{k}", "two", order=o1, n=1, kind="plain", retimed=k)
    add("two-1", "two", order=o1, n=1, kind="wait")
    add("chain-1", "chain", kind="early_span", n=1)
    add("chain-1-ride", "chain", kind="ride", n=1)
    for which in ("intensive", "sampling", "tail"):
        for n, new in ((0, 1), (0, 2), (1, 1)):
            add(f"{which}-{n}-{new}", "strategies", which=which, n=n, new=new, kind="plain", only=False)
            add(f"{which}-{n}-{new}-span", "strategies", which=which, n=n, new=new, kind="span", only=True)
        add(f"{which}-2-1", "strategies", which=which, n=2, new=1, kind="plain", only=False)
        add(f"{which}-3-1", "strategies", which=which, n=3, new=1, kind="plain", only=False) if which != "sampling" else None
    for c in (1, 2):
        add(f"sampling-count{c}", "strategies", which="sampling", n=1, new=1, kind="plain", only=False, count=c)
    if tier == "thorough":
        add("chain-2", "chain", kind="early_span", n=2)
        add("chain-1-all", "chain", kind="all", n=1)
        for o in canon(2):
            for kind in ("early", "late", "ride"):
                add(f"one-{nm(o)}-{kind}", "one", order=o, n=2, kind=kind)
            add(f"two-{nm(o)}", "two", order=o, n=2, kind="plain")
    out = [c for c in out if c]
    for c in list(out):
        if c["name"] in ("one-P0D0-late", "one-P0D0-ride", "one-P0P1D0D1-unfiltered", "intensive-1-1-span", "two-1", "chain-1"):
            out += traffic([c])
        if c["name"] in ("one-P0D0-load", "one-P0D0-ride", "one-P0P1D0D1-unfiltered", "one-P0D0P1D1-load", "intensive-1-1", "intensive-2-1",
                         "sampling-1-1", "tail-1-1", "tail-1-1-span", "two-1"):
            out += together([c], patterns=("twin", "swap", "loop", "home"))
    return out
