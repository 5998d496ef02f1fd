"""C04: appending and removing trips changes exactly what was asked."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.exceptions import PreviousStopNotInRouteException  # noqa: E402

PROPERTY = "C04"
BOUNDS = ("quick: base routes of 0-2 trips (all interleavings up to renaming), every pair of insertion positions, removal of "
          "every trip, add-then-remove, two successive edits, stops serving several trips, services at coinciding places, "
          "a predecessor from another or a cloned route; thorough: base routes of 3 trips. All data symbolic in [0, 1000]")
ASSUMPTIONS = ["times are non-negative; travel times are symmetric and satisfy the triangle inequality"]
MUST_REACH = {"quick": ["appended", "removed", "restored", "refused", "shared-removed", "coinciding"]}


def setup(x, n, place=None, extra=0, tw="sym", timeout="sym", duration="sym"):
    """place: index of the position of each service (default: all different)."""
    place = place or [1 + k for k in range(2 * n)]
    w = World(x, max(place + [0]) + 1 + extra, tri=True)
    v = w.vehicle("v", 0)
    trips = [w.trip(f"t{i}", place[2 * i], place[2 * i + 1], timeout=timeout, tw=tw, duration=duration) for i in range(n)]
    return w, v, trips


def same_as(x, h, tag, stops=None):
    """The route is exactly what the description says: stops, services, links, times."""
    route = h.route
    x.check(len(route.stops) == len(h.visits), f"{tag}: number of stops")
    for s, vis in zip(route.stops, h.visits):
        x.check(s.position is vis.position
                and {p.trip for p in s.pickup_planned_trips} == set(vis.pickups)
                and {p.trip for p in s.delivery_planned_trips} == set(vis.deliveries), f"{tag}: stops and their services in order")
    x.check(structure_ok(x, route), f"{tag}: every stop is linked to the one before it and to its trips")
    x.check(route.stops[0].position is h.vehicle.origin_position and route.stops[-1].position is h.vehicle.destination_position,
            f"{tag}: depots first and last")
    rows = h.rows()
    x.check(x.all([x.eq(s.departure_time, r["departure"]) for s, r in zip(route.stops, rows)]), f"{tag}: times")
    x.check(x.all([x.eq(s.capacity, r["load"]) for s, r in zip(route.stops, rows)]), f"{tag}: loads")
    x.check(sorted(t.identifier for t in route.trips) == sorted(t.identifier for t in h.onboard), f"{tag}: trips served")
    if stops is not None:
        now = [s for s in route.stops if any(s is o for o in stops)]
        x.check(len(now) == len(stops) and all(a is b for a, b in zip(now, stops)), f"{tag}: the other stops keep their order")


def append(x, base, n, place=None, read=True):
    w, v, trips = setup(x, n, place)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in base])
    used = {i for _, i in base}
    new = next(t for i, t in enumerate(trips) if i not in used)
    if read and x.flag("read_before"):
        h.read()
        h.peek = True
    old = list(h.route.stops)
    pairs = h.pairs()
    i, j = pairs[x.choice("pair", len(pairs))]
    h.append(new, i, j)
    same_as(x, h, "append", old)
    pickup = next(p.pickup for p in h.route.planned_trips if p.trip is new)
    delivery = next(p.delivery for p in h.route.planned_trips if p.trip is new)
    x.check(pickup.previous is old[i], "append: pickup right after its predecessor")
    x.check(delivery.previous is (pickup if j == i + 1 else old[j - 1]), "append: delivery right after its predecessor")
    x.reach("coinciding" if place else "appended")
    x.observe("order", tuple(service_order(h.route)))
    x.observe("last", h.route.last_departure_time)


def remove(x, base, n, place=None):
    w, v, trips = setup(x, n, place)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in base])
    if x.flag("read_before"):
        h.read()
    old = list(h.route.stops)
    t = trips[x.choice("which", n)]
    gone = [s for s in old if t in list(s.trips)]
    h.remove(t)
    same_as(x, h, "remove", [s for s in old if not any(s is g for g in gone)])
    x.reach("removed")
    x.observe("order", tuple(service_order(h.route)))
    x.observe("last", h.route.last_departure_time)


def restore(x, base, n, **kw):
    """add then remove restores stops, times and verdict."""
    w, v, trips = setup(x, n, **kw)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in base])
    before = snapshot(h.route)
    new = trips[-1]
    pairs = h.pairs()
    i, j = pairs[x.choice("pair", len(pairs))]
    h.append(new, i, j)
    if x.flag("read_between"):
        h.read(verdict=True)
    h.remove(new)
    after = snapshot(h.route)
    x.check(same_snapshot(x, before, after), "add then remove restores stops, times and verdict")
    same_as(x, h, "add then remove")
    x.reach("restored")
    x.observe("last", h.route.last_departure_time)


def shared_remove(x, n, stops):
    w = World(x, 1 + len(stops), tri=True)
    v = w.vehicle("v", 0)
    at = {}
    for k, (ps, ds) in enumerate(stops):
        for i in ps:
            at.setdefault(i, {})["o"] = k + 1
        for i in ds:
            at.setdefault(i, {})["d"] = k + 1
    trips = [w.trip(f"t{i}", at[i]["o"], at[i]["d"]) for i in range(n)]
    h = Hist(x, w, v, [([trips[i] for i in ps], [trips[i] for i in ds], w.p[k + 1]) for k, (ps, ds) in enumerate(stops)])
    if x.flag("read_before"):
        h.read()
    old = list(h.route.stops)
    t = trips[x.choice("which", n)]
    h.remove(t)
    same_as(x, h, "remove from shared stops")
    x.reach("shared-removed")
    x.observe("last", h.route.last_departure_time)


def sequence(x, n, edits, ops):
    w, v, trips = setup(x, n)
    h = Hist(x, w, v, [("P", trips[0]), ("D", trips[0])])
    spare = trips[1:]
    names = []
    for e in range(edits):
        names.append(h.edit(f"e{e}", spare, ops))
        same_as(x, h, "sequence")
    x.observe("ops", tuple(names))
    x.observe("order", tuple(service_order(h.route)))


def unknown(x):
    """A predecessor that is not in the route: refused, and nothing changes."""
    w, v, trips = setup(x, 2)
    h = Hist(x, w, v, [("P", trips[0]), ("D", trips[0])])
    other = Hist(x, w, v, [("P", trips[1]), ("D", trips[1])])
    clone = h.route.clone()
    sources = [other.route.stops[0], other.route.stops[1], clone.stops[1], clone.stops[-1], Stop(v, w.p[1], None)]
    prev = sources[x.choice("source", len(sources))]
    before = snapshot(h.route)
    stop = Stop(v, w.p[-1], prev)
    refused = False
    try:
        h.route.insert_stop(stop)
    except PreviousStopNotInRouteException:
        refused = True
    x.check(refused, "a stop with an unknown predecessor is refused with the dedicated error")
    x.check(same_snapshot(x, before, snapshot(h.route)), "a refused stop leaves the route unchanged")
    x.check(structure_ok(x, h.route), "a refused stop leaves the links unchanged")
    x.reach("refused")


def cases(tier):
    out = []
    nm = lambda o: "".join(f"{k}{i}" for k, i in o) or "empty"
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    for n in (0, 1, 2):
        for o in canon(n):
            out.append(dict(name="append-" + nm(o), harness="append", params=dict(base=o, n=n + 1)))
            if n:
                out.append(dict(name="remove-" + nm(o), harness="remove", params=dict(base=o, n=n)))
    for o in canon(3) if tier == "thorough" else canon(3)[:3]:
        out.append(dict(name="remove-" + nm(o), harness="remove", params=dict(base=o, n=3)))
        if tier == "thorough":
            out.append(dict(name="append-" + nm(o), harness="append", params=dict(base=o, n=4)))
    for n in (0, 1):
        for o in canon(n):
            out.append(dict(name="restore-" + nm(o), harness="restore", params=dict(base=o, n=n + 1)))
    out.append(dict(name="restore-notw", harness="restore", params=dict(base=canon(2)[0], n=3, tw="none", timeout=INF, duration=0.0)))
    # services at coinciding places: everything at one place; depot; pickup of one at the delivery of the other
    one = canon(1)[0]
    for name, place in (("all-same", [1, 1, 1, 1]), ("depot", [0, 0, 0, 0]), ("swap", [1, 2, 2, 1]), ("twin", [1, 2, 1, 2])):
        out.append(dict(name="append-at-" + name, harness="append", params=dict(base=one, n=2, place=place)))
        out.append(dict(name="remove-at-" + name, harness="remove", params=dict(base=canon(2)[0], n=2, place=place)))
    for name, n, stops in (
        ("22", 2, [((0, 1), ()), ((), (0, 1))]),
        ("211", 2, [((0, 1), ()), ((), (0,)), ((), (1,))]),
        ("112", 2, [((0,), ()), ((1,), ()), ((), (0, 1))]),
        ("swap", 2, [((0,), ()), ((1,), (0,)), ((), (1,))]),
        ("chain3", 3, [((0, 1), ()), ((2,), (0,)), ((), (1, 2))]),
    ):
        out.append(dict(name="shared-" + name, harness="shared_remove", params=dict(n=n, stops=stops)))
    out.append(dict(name="sequence", harness="sequence", params=dict(n=2, edits=2, ops=("append", "remove", "clone", "waypoint", "drop"))))
    if tier == "thorough":
        out.append(dict(name="sequence3", harness="sequence", params=dict(n=3, edits=3, ops=("append", "remove", "clone"))))
    out.append(dict(name="unknown", harness="unknown"))
    return out
