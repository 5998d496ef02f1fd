"""C01: stop times, loads and windows equal an independent recomputation, after any edit history."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403

PROPERTY = "C01"
BOUNDS = ("quick: every route of up to 2 trips (all interleavings), every shared-stop shape listed in SHARED, and every "
          "history read-edit-read-edit-read over {append at any two positions, remove, retime any stop, insert/remove a "
          "waypoint, clone at any index} from a one-trip route with a second trip to add; one-way and clock-dependent travel times on a sample of these; thorough: 3 trips, 3 edits. "
          "All times, windows, durations, loads, travel times symbolic in [0, 1000]; ride limits finite or infinite")
ASSUMPTIONS = ["times are non-negative; travel times are an arbitrary symmetric matrix (independent of distance), "
               "in the directed-* cases an arbitrary matrix, in the clock-* cases also longer by some amount from some moment on",
               "after setting a stop's start the route is flushed, except in the case `retime-unflushed`"]
MUST_REACH = {"quick": ["built", "edited", "waits", "nowait", "shared", "shared-edited"]}


def setup(x, n_trips, timeout="sym", tw="sym", extra=1, travel=None):
    w = World(x, 1 + 2 * n_trips + extra, tri=False, separate_time=True, travel=travel)
    v = w.vehicle("v", 0)
    trips = [w.trip(f"t{i}", 1 + 2 * i, 2 + 2 * i, timeout=timeout, tw=tw) for i in range(n_trips)]
    return w, v, trips


def compare(x, h, tag, known=None, after=-1):
    rows, route = h.rows(), h.route
    x.check(len(route.stops) == len(h.visits), f"{tag}: number of stops")
    for k, (s, vis, r) in enumerate(zip(route.stops, h.visits, rows)):
        kn = known if (known and k > after) else None

        def c(cond, what, kn=kn):
            x.check(cond, f"{tag}: {what}", known=kn)
        c(s.position is vis.position, "position")
        c(x.eq(s.arrival_time, r["arrival"]), "arrival time")
        c(x.eq(s.starting_time, r["start"]), "starting time")
        c(x.eq(s.departure_time, r["departure"]), "departure time")
        c(x.eq(s.capacity, r["load"]), "load")
        c(x.eq(s.earliest, r["earliest"]), "earliest")
        c(x.eq(s.latest, r["latest"]), "latest")
        c(x.eq(s.load_time, r["duration"]), "load time")
        if not known:
            c(x.eq(s.waiting_time, r["waiting"]), "waiting time")
            c(x.eq(s.transit_time, r["arrival"] - (rows[k - 1]["departure"] if k else h.vehicle.origin.earliest)),
              "transit time")
    x.check(x.eq(route.duration, rows[-1]["departure"] - rows[0]["departure"]), f"{tag}: duration", known=known)
    return rows


def static(x, order, n, timeout="sym", tw="sym", travel=None):
    w, v, trips = setup(x, n, timeout, tw, extra=0, travel=travel)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in order])
    rows = compare(x, h, "built")
    x.reach("built")
    for k, r in enumerate(rows):
        x.observe(f"dep{k}", h.route.stops[k].departure_time)
        x.observe(f"load{k}", h.route.stops[k].capacity)


# stops that serve several trips at once: list of (pickups, deliveries)
SHARED = {
    "pick2-drop2": (2, [((0, 1), ()), ((), (0, 1))]),
    "pick2-drop1-drop1": (2, [((0, 1), ()), ((), (0,)), ((), (1,))]),
    "pick1-swap-drop1": (2, [((0,), ()), ((1,), (0,)), ((), (1,))]),
    "pick1-pick1-drop2": (2, [((0,), ()), ((1,), ()), ((), (0, 1))]),
    "chain3": (3, [((0, 1), ()), ((2,), (0,)), ((), (1, 2))]),
}


def shared(x, shape):
    n, stops = SHARED[shape]
    w, v, trips, h = shared_route(x, n, stops, tri=False, separate_time=True)
    compare(x, h, "shared")
    h.retime(1, x.real("r1", 0, BIG))
    rows = compare(x, h, "shared retimed")
    x.reach("shared")
    for k, s in enumerate(h.route.stops):
        x.observe(f"s{k}", s.starting_time)


def shared_history(x, shape, travel=None):
    """Edits of a route whose stops serve several trips at once, after everything was read."""
    n, stops = SHARED[shape]
    w, v, trips, h = shared_route(x, n, stops, tri=False, separate_time=True, travel=travel)
    reads = x.flag("reads")
    if reads:
        h.read()
        for s in h.route.stops:
            s.latest, s.load_time, s.distance, s.transit_time
    name = h.edit("e", [], ("remove", "retime", "clone", "waypoint"))
    compare(x, h, "after edit of shared stops")
    x.reach("shared-edited")
    x.observe("op", name)
    for k, s in enumerate(h.route.stops):
        x.observe(f"dep{k}", s.departure_time)


def history(x, first, edits, n, timeout="sym", travel=None):
    """read, edit, read, edit, ... compare after every edit."""
    w, v, trips = setup(x, n, timeout, travel=travel)
    h = Hist(x, w, v, [(k, trips[i]) for k, i in first])
    used = {i for _, i in first}
    spare = [t for i, t in enumerate(trips) if i not in used]
    reads = x.flag("reads")
    if reads:
        h.read()
        h.peek = True
    names = []
    for e in range(edits):
        names.append(h.edit(f"e{e}", spare))
        if reads or e == edits - 1:
            rows = compare(x, h, "after edit")
    if reads:
        x.check(x.eq(x.sum([s.waiting_time for s in h.route.stops]), h.route.waiting_time), "after edit: waiting total")
    x.reach("edited")
    x.observe("ops", tuple(names))
    for k, s in enumerate(h.route.stops):
        x.observe(f"dep{k}", s.departure_time)


def waiting(x):
    """Vacuity witnesses: both waiting and not waiting occur."""
    w, v, trips = setup(x, 1, extra=0)
    h = Hist(x, w, v, [("P", trips[0]), ("D", trips[0])])
    compare(x, h, "built")
    x.reach("waits" if h.route.stops[1].waiting_time > 0 else "nowait")
    x.observe("w", h.route.stops[1].waiting_time)


def unflushed(x):
    """A start requested on a stop whose followers were already read, without Route.flush()."""
    w, v, trips = setup(x, 1, extra=0)
    h = Hist(x, w, v, [("P", trips[0]), ("D", trips[0])])
    h.read()
    k = x.choice("k", 4)
    h.retime(k, x.real("r", 0, BIG), flush=False)
    compare(x, h, "retimed, not flushed", known={"K1": True}, after=k)
    x.reach("unflushed")


def cases(tier):
    out = []
    top = 2 if tier == "quick" else 3
    for n in range(0, top + 1):
        for o in simple_orders(n):
            if n == 3 and [i for k, i in o if k == "P"] != sorted(i for k, i in o if k == "P"):
                continue  # trips are interchangeable: all their data is symbolic
            out.append(dict(name="static-" + "".join(f"{k}{i}" for k, i in o), harness="static", params=dict(order=o, n=n)))
    out += together([c for c in out if c["params"]["n"] == 2]) + together([c for c in out if c["params"]["n"] == 1], patterns=("loop", "home"))
    for travel in ("directed", "clock"):  # one-way streets; traffic
        for o in (simple_orders(1)[0], simple_orders(2)[0], simple_orders(2)[-1]):
            out.append(dict(name=f"{travel}-" + "".join(f"{k}{i}" for k, i in o), harness="static",
                            params=dict(order=o, n=len(o) // 2, travel=travel)))
    out.append(dict(name="clock-history", harness="history", params=dict(first=[("P", 0), ("D", 0)], edits=1, n=2, travel="clock")))
    out.append(dict(name="clock-shared-history", harness="shared_history", params=dict(shape="pick1-swap-drop1", travel="clock")))
    out.append(dict(name="static-inf", harness="static", params=dict(order=simple_orders(2)[0], n=2, timeout=INF)))
    out.append(dict(name="static-notw", harness="static", params=dict(order=simple_orders(2)[1], n=2, timeout=INF, tw="none")))
    for s in SHARED:
        out.append(dict(name="shared-" + s, harness="shared", params=dict(shape=s)))
        out.append(dict(name="shared-history-" + s, harness="shared_history", params=dict(shape=s)))
    out.append(dict(name="waiting", harness="waiting"))
    out.append(dict(name="retime-unflushed", harness="unflushed"))
    one = [("P", 0), ("D", 0)]
    out.append(dict(name="history-2", harness="history", params=dict(first=one, edits=2, n=2)))
    out += together(out[-1:], patterns=("twin", "loop"))
    out.append(dict(name="history-1-inf", harness="history", params=dict(first=one, edits=1, n=2, timeout=INF)))
    if tier == "thorough":
        two = [("P", 0), ("P", 1), ("D", 0), ("D", 1)]
        out.append(dict(name="history-3", harness="history", params=dict(first=one, edits=3, n=2)))
        out.append(dict(name="history-two-2", harness="history", params=dict(first=two, edits=2, n=3)))
    return out
