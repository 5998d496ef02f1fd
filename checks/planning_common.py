"""Plannings with symbolic data, as results whose reports and figures are examined."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.models import DialARideObjective, HashCodeObjective, TaxiSharingObjective  # noqa: E402

OBJECTIVES = dict(ride=DialARideObjective, taxi=TaxiSharingObjective, hashcode=HashCodeObjective)
FULL = dict(timeout="sym", capacity="sym", duration="sym", tw="sym", bonus="sym")
TIMED = dict(timeout=INF, capacity="sym", duration="sym", o_tw="early", d_tw="late")
LIGHT = dict(timeout=INF, capacity="sym", duration=0.0, o_tw="early", d_tw="none")
LOADS = dict(timeout=INF, capacity="sym", duration=0.0, o_tw="none", d_tw="none")


def trips_in(layout):
    return sorted({i for r in layout for item in r for i in
                   ([item[1]] if item[0] in ("P", "D") else [] if item[0] == "W" else list(item[0]) + list(item[1]))})


def build(x, layout, data, pending=0, vehicle=None, retimed=(), names=None, objective="ride", depot=True, separate=True, tri=False):
    """layout: per vehicle a sequence of ("P"|"D", trip), (pickups, deliveries) or ("W",) (a stop without service).

    Returns the world, and the result whose planning has one route per vehicle, next to each route's oracle visits."""
    used = trips_in(layout)
    n = len(used)
    assert used == list(range(n))
    w = World(x, 3 + 2 * n + 2 * pending, tri=tri, separate_time=separate)
    vdata = dict(earliest="sym", latest="sym", capacity="sym", timeout="sym") if vehicle is None else vehicle
    vs = [w.vehicle(f"v{k}", 0, 1 if depot and k % 2 == 0 else None, **vdata) for k in range(len(layout))]
    at = {}
    for r in layout:
        for item in r:
            if item[0] not in ("P", "D", "W"):
                spot = 2 + 2 * (list(item[0]) + list(item[1]))[0] + (0 if item[0] else 1)
                for i in item[0]:
                    at[i, "P"] = spot
                for i in item[1]:
                    at[i, "D"] = spot
    for i in range(n + pending):
        w.trip(names[i] if names else f"t{i}", at.get((i, "P"), 2 + 2 * i), at.get((i, "D"), 3 + 2 * i), **data)
    shown = []
    for k, (v, seq) in enumerate(zip(vs, layout)):
        items = []
        for item in seq:
            if item[0] in ("P", "D"):
                items.append((item[0], w.trips[item[1]]))
            elif item[0] == "W":
                items.append(([], [], w.p[-1]))
            else:
                a, b = item
                t = w.trips[(list(a) + list(b))[0]]
                items.append(([w.trips[i] for i in a], [w.trips[i] for i in b], t.origin_position if a else t.destination_position))
        route = fresh_route(v, items)
        visits = visits_of(route)
        for j in retimed:
            if j < len(route.stops):
                s = x.real(f"retime{k}_{j}", 0, BIG)
                route.stops[j].starting_time = s
                route.flush()
                visits[j].requested = s
        shown.append((route, visits))
    job, fleet = Job(set(w.trips), OBJECTIVES[objective]), Fleet(set(w.vehicles))
    return w, make_result(job, fleet, [r for r, _ in shown]), shown


def legs(visits, vehicle):
    """Per stop: distance and travel time from the place before it."""
    out, pos = [], vehicle.origin.position
    for v in visits:
        s = v.position.surface
        out.append((s.distance(pos, v.position), s.time(pos, v.position)))
        pos = v.position
    return out


def trip_figures(x, visits, rows, legs_, trip):
    """Ride figures of a planned trip from the definition: sums over the stops after its pickup up to its delivery."""
    i = next(k for k, v in enumerate(visits) if trip in v.pickups)
    j = next(k for k, v in enumerate(visits) if trip in v.deliveries)
    return dict(waiting=x.sum([rows[k]["waiting"] for k in range(i + 1, j + 1)]),
                transit=x.sum([legs_[k][1] for k in range(i + 1, j + 1)]),
                loading=rows[i]["duration"] + rows[j]["duration"],
                pickup=rows[i]["departure"], delivery=rows[j]["start"], duration=rows[j]["start"] - rows[i]["departure"])


def label(seq):
    return "".join("W" if i[0] == "W" else f"{i[0]}{i[1]}" if i[0] in ("P", "D") else
                   "(" + "".join(map(str, i[0])) + "," + "".join(map(str, i[1])) + ")" for i in seq) or "empty"


ONE = [("P", 0), ("D", 0)]


def shift(seq, k):
    return [(i[0], i[1] + k) if i[0] in ("P", "D") else i if i[0] == "W" else ([a + k for a in i[0]], [a + k for a in i[1]]) for i in seq]
