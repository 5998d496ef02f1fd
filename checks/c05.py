"""C05: clones and deep copies report the same and are independent of the original."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from copy import deepcopy  # noqa: E402

PROPERTY = "C05"
BOUNDS = ("quick: routes of 0-2 trips (all interleavings up to renaming), stops serving several trips, stops with requested "
          "starts, every clone index, then every single edit (append, remove, retime, waypoint) of the copy or of the "
          "original in the cloned part; deep copies of routes, plannings and results with up to 2 routes; thorough: two "
          "edits and 3-trip routes. All data symbolic in [0, 1000]")
ASSUMPTIONS = ["times are non-negative; travel times symmetric", "route.clone(i): the cloned part is the stops from index i on"]
MUST_REACH = {"quick": ["clone-edited", "original-edited", "deep-edited", "prefix-shared", "result"]}


def light_world(x, n, extra=1, depots=1):
    """Data that keeps the verdict's outcomes few: symbolic latest times and loads."""
    w = World(x, 1 + 2 * n + extra, tri=False)
    v = w.vehicle("v", 0, timeout=INF)
    trips = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="early", timeout=INF) for i in range(n)]
    return w, v, trips


def check_equal(x, a, b, tag):
    x.check(same_snapshot(x, a, b, identity=False), f"{tag}: same vehicle, stops, trips, times and verdict")


def shares_instance(x, src, dst, tag):
    x.check(dst.vehicle is src.vehicle, f"{tag}: the vehicle is shared")
    for a, b in zip(src.stops, dst.stops):
        x.check(b.vehicle is a.vehicle and b.position is a.position, f"{tag}: vehicles and positions are shared")
        x.check({id(p.trip) for p in a.planned_trips} == {id(p.trip) for p in b.planned_trips}, f"{tag}: trips are shared")


def edit_part(x, h, lo, tag, spare):
    """One edit of the stops from index lo on; returns False if there is none."""
    menu = [("append", (i, j)) for i, j in h.pairs() if i >= lo - 1] if spare else []
    for t in h.onboard:
        idx = [k for k, v in enumerate(h.visits) if t in v.pickups + v.deliveries]
        if min(idx) >= lo:
            menu.append(("remove", t))
    menu += [("retime", k) for k in range(lo, len(h.visits))]
    menu += [("waypoint", k) for k in range(max(lo, 1), len(h.visits))]
    if not menu:
        return False
    op, arg = menu[x.choice(f"{tag}.op", len(menu))]
    if op == "append":
        h.append(spare[0], *arg)
    elif op == "remove":
        h.remove(arg)
    elif op == "retime":
        h.retime(arg, x.real(f"{tag}.start", 0, BIG))
    else:
        h.waypoint(arg, h.w.p[-1])
    x.observe("edit", f"{op} {arg if not isinstance(arg, Trip) else arg.identifier}")
    return True


def adopt(h, route):
    """The same description next to another route."""
    c = object.__new__(Hist)
    c.__dict__.update(h.__dict__)
    c.route, c.visits, c.onboard = route, [v.copy() for v in h.visits], list(h.onboard)
    return c


def base_hist(x, w, v, trips, base, retimed):
    items = [(k, trips[i]) if k in ("P", "D") else ([trips[a] for a in k], [trips[a] for a in i], None) for k, i in base]
    items = [it if it[0] in ("P", "D") else (it[0], it[1], (it[0] + it[1])[0].origin_position if it[0]
             else it[1][0].destination_position) for it in items]
    h = Hist(x, w, v, items)
    if retimed is not None:
        h.retime(retimed, x.real("req", 0, BIG))
    return h


def matches(x, h, tag):
    rows = h.rows()
    x.check(len(h.route.stops) == len(rows) and x.all([x.eq(s.departure_time, r["departure"]) for s, r in zip(h.route.stops, rows)]),
            f"{tag}: times follow the edit")


def clone(x, base, n, retimed=None, edits=1):
    w, v, trips = light_world(x, n)
    h = base_hist(x, w, v, trips, base, retimed)
    spare = [t for t in trips if t not in h.onboard]
    if x.flag("read_before"):
        h.read()
    before = None
    idx = x.choice("idx", len(h.visits) + 1)
    copy = adopt(h, h.route.clone(idx))
    before = snapshot(h.route)
    check_equal(x, before, snapshot(copy.route), "clone")
    x.check(structure_ok(x, copy.route), "clone: planned trips refer to the clone's own stops")
    x.check(structure_ok(x, h.route), "clone: the original's links are intact")
    shares_instance(x, h.route, copy.route, "clone")
    x.check(all(copy.route.stops[k] is not h.route.stops[k] for k in range(idx, len(h.visits))), "clone: the cloned part is new")
    if any(a is b for a, b in zip(h.route.stops, copy.route.stops)):
        x.reach("prefix-shared")
    edited, other, name = (copy, h, "clone-edited") if x.choice("side", 2) == 0 else (h, copy, "original-edited")
    untouched = snapshot(other.route)
    for e in range(edits):
        if not edit_part(x, edited, idx, f"e{e}", spare[e:]):
            return
    x.check(same_snapshot(x, untouched, snapshot(other.route)), f"{name}: the other route reports the same as before")
    x.check(structure_ok(x, other.route), f"{name}: the other route's links are intact")
    matches(x, edited, name)
    matches(x, other, name)
    x.reach(name)
    x.observe("last", h.route.last_departure_time)
    x.observe("clast", copy.route.last_departure_time)


def deep(x, base, n, retimed=None, edits=1):
    w, v, trips = light_world(x, n)
    h = base_hist(x, w, v, trips, base, retimed)
    spare = [t for t in trips if t not in h.onboard]
    if x.flag("read_before"):
        h.read()
    copy = adopt(h, deepcopy(h.route))
    before = snapshot(h.route)
    check_equal(x, before, snapshot(copy.route), "deepcopy")
    x.check(structure_ok(x, copy.route), "deepcopy: planned trips refer to the copy's own stops")
    shares_instance(x, h.route, copy.route, "deepcopy")
    x.check(not any(a is b for a in h.route.stops for b in copy.route.stops), "deepcopy: no stop is shared")
    edited, other = (copy, h) if x.choice("side", 2) == 0 else (h, copy)
    untouched = snapshot(other.route)
    for e in range(edits):
        if not edit_part(x, edited, 0, f"e{e}", spare[e:]):
            return
    x.check(same_snapshot(x, untouched, snapshot(other.route)), "deepcopy: the other route reports the same as before")
    matches(x, edited, "deepcopy edited")
    matches(x, other, "deepcopy other")
    x.reach("deep-edited")
    x.observe("last", h.route.last_departure_time)
    x.observe("clast", copy.route.last_departure_time)


def containers(x, what):
    """Deep copies of a planning or a result with two routes."""
    from jinete.models import DialARideObjective
    w = World(x, 6, tri=False)
    vs = [w.vehicle(f"v{i}", 0, timeout=INF) for i in range(2)]
    trips = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, tw="none", timeout=INF) for i in range(2)]
    hs = [Hist(x, w, vs[0], [("P", trips[0]), ("D", trips[0])])]
    hs.append(Hist(x, w, vs[1], [("P", trips[1]), ("D", trips[1])] if x.flag("second_loaded") else []))
    job, fleet = Job(set(trips), DialARideObjective), Fleet(set(vs))
    result = make_result(job, fleet, {h.route for h in hs})
    src = result.planning if what == "planning" else result
    dup = deepcopy(src)
    dup_routes = list(dup.routes)
    x.check(type(dup) is type(src), "deepcopy: same kind")
    x.check(len(dup_routes) == 2 and len({r.vehicle for r in dup_routes}) == 2, "deepcopy: one route per original route")
    if what == "result":
        x.check(dup.job is job and dup.fleet is fleet, "deepcopy: job and fleet are shared")
        x.check(x.eq(tuple(dup.optimization_value), tuple(result.optimization_value)), "deepcopy: same objective value")
        x.check(dup.planning is not result.planning, "deepcopy: the planning is new")
        x.reach("result")
    copies = []
    for h in hs:
        r = next(r for r in dup_routes if r.vehicle is h.vehicle)
        copies.append(adopt(h, r))
        check_equal(x, snapshot(h.route), snapshot(r), "deepcopy")
        x.check(structure_ok(x, r), "deepcopy: planned trips refer to the copy's own stops")
        shares_instance(x, h.route, r, "deepcopy")
        x.check(not any(a is b for g in hs for a in g.route.stops for b in r.stops), "deepcopy: no stop is shared")
    k = x.choice("k", 2)
    edited, others = (copies[k], hs) if x.choice("side", 2) == 0 else (hs[k], copies)
    untouched = [snapshot(o.route) for o in others]
    if not edit_part(x, edited, 0, "e", []):
        return
    x.check(x.all([same_snapshot(x, u, snapshot(o.route)) for u, o in zip(untouched, others)]),
            "deepcopy: the others report the same as before")
    x.observe("last", hs[0].route.last_departure_time)


def instance(x):
    """Deep copies of instance data are the very same objects."""
    from jinete.models import DialARideObjective
    w, v, trips = light_world(x, 1)
    job, fleet = Job(set(trips), DialARideObjective), Fleet({v})
    t = trips[0]
    for name, obj in (("vehicle", v), ("trip", t), ("service", t.origin), ("position", t.origin.position), ("job", job),
                      ("fleet", fleet)):
        x.check(deepcopy(obj) is obj, f"deepcopy: the {name} is shared")


def cases(tier):
    out = []
    nm = lambda o: "".join(f"{k}{i}" for k, i in o) or "empty"
    canon = lambda n: [o for o in simple_orders(n) if [i for k, i in o if k == "P"] == list(range(n))]
    for n in (0, 1, 2):
        for o in canon(n):
            extra = 1 if n < 2 else 0
            out.append(dict(name="clone-" + nm(o), harness="clone", params=dict(base=o, n=n + extra)))
            out.append(dict(name="deep-" + nm(o), harness="deep", params=dict(base=o, n=n + extra)))
    for c in list(out):
        if c["name"] in ("clone-P0D0", "deep-P0D0", "clone-P0P1D0D1"):
            out += together([c], patterns=("twin", "loop"))
    one, seq = canon(1)[0], canon(2)[-1]
    for k in range(4):
        out.append(dict(name=f"clone-retimed{k}", harness="clone", params=dict(base=one, n=1, retimed=k)))
        out.append(dict(name=f"deep-retimed{k}", harness="deep", params=dict(base=one, n=1, retimed=k)))
    shared = [((0, 1), ()), ((), (0, 1))]
    swap = [((0,), ()), ((1,), (0,)), ((), (1,))]
    for name, b in (("22", shared), ("swap", swap)):
        out.append(dict(name=f"clone-shared-{name}", harness="shared_clone", params=dict(shape=b)))
    out.append(dict(name="planning", harness="containers", params=dict(what="planning")))
    out.append(dict(name="result", harness="containers", params=dict(what="result")))
    out.append(dict(name="instance", harness="instance"))
    if tier == "thorough":
        for n in (1, 2):
            for o in canon(n):
                out.append(dict(name="clone2-" + nm(o), harness="clone", params=dict(base=o, n=n + 1, edits=2)))
        for o in canon(3):
            out.append(dict(name="clone-" + nm(o), harness="clone", params=dict(base=o, n=3)))
    return out


def shared_clone(x, shape):
    """Clones of a route with stops that serve several trips."""
    w = World(x, 1 + len(shape) + 1, tri=False)
    v = w.vehicle("v", 0, timeout=INF)
    at = {}
    for k, (ps, ds) in enumerate(shape):
        for i in ps:
            at.setdefault(i, {})["o"] = k + 1
        for i in ds:
            at.setdefault(i, {})["d"] = k + 1
    trips = [w.trip(f"t{i}", at[i]["o"], at[i]["d"], tw="early", timeout=INF) for i in range(2)]
    h = Hist(x, w, v, [([trips[i] for i in ps], [trips[i] for i in ds], w.p[k + 1]) for k, (ps, ds) in enumerate(shape)])
    if x.flag("read_before"):
        h.read()
    idx = x.choice("idx", len(h.visits) + 1)
    copy = adopt(h, h.route.clone(idx))
    before = snapshot(h.route)
    check_equal(x, before, snapshot(copy.route), "clone")
    x.check(structure_ok(x, copy.route) and structure_ok(x, h.route), "clone: planned trips refer to the clone's own stops")
    x.check(all(copy.route.stops[k] is not h.route.stops[k] for k in range(idx, len(h.visits))), "clone: the cloned part is new")
    if edit_part(x, copy, idx, "e", []):
        x.check(same_snapshot(x, before, snapshot(h.route)), "clone-edited: the other route reports the same as before")
        matches(x, copy, "clone-edited")
    x.observe("last", copy.route.last_departure_time)
