"""Symbolic problem instances built through jinete's public classes, and independent oracles."""
from __future__ import annotations

from jinete.models import (
    Fleet, Job, PlannedTrip, Planning, Position, Result, Route, Service, Stop, Surface, Trip, Vehicle,
)
from . import core

INF = float("inf")
EPS = 10e-4  # the library's documented tolerance
BIG = 1000


class SymPosition(Position):
    def __init__(self, surface, idx):
        super().__init__(surface)
        self.idx = idx

    @property
    def coordinates(self):
        return (float(self.idx), 0.0)

    def __iter__(self):
        yield from (("idx", self.idx),)

    def __str__(self):
        return f"(p{self.idx})"

    def __eq__(self, other):
        return type(other) is SymPosition and other.surface is self.surface and other.idx == self.idx

    def __hash__(self):
        return hash(self.idx)


class SymSurface(Surface):
    """A surface whose distances (and, if asked, travel times) are arbitrary symmetric matrices.

    travel="directed": the way back takes its own time. travel="clock": as "directed", and a journey that leaves at or
    after some moment (any) takes some extra (any) longer.
    """

    def __init__(self, x, n, tri=True, separate_time=False, hi=BIG, tag="", travel=None):
        super().__init__()
        self.x, self.n = x, n
        travel = travel or (getattr(x, "case", None) or {}).get("travel")
        self.matrix = {}
        self.tmatrix = {}
        self.back = {}
        self.rush = None
        if travel is not None:
            self.back = {(i, j): x.real(f"b{tag}_{i}_{j}", 0, hi) for i in range(n) for j in range(i + 1, n)}
        if travel == "clock":
            self.rush = (x.real(f"rush{tag}", 0, hi), x.real(f"slower{tag}", 0, hi))
        for i in range(n):
            for j in range(i + 1, n):
                self.matrix[i, j] = x.real(f"d{tag}_{i}_{j}", 0, hi)
                self.tmatrix[i, j] = x.real(f"t{tag}_{i}_{j}", 0, hi) if separate_time else self.matrix[i, j]
        if tri:
            for m in ([self.matrix, self.tmatrix] if separate_time and travel is None else [self.matrix]):
                self._triangle(m)
            if travel is not None:
                self._directed_triangle()
        self.nodes = [SymPosition(self, i) for i in range(n)]
        for k, j in (getattr(x, "case", None) or {}).get("where", ()):
            if k < n and j < n:  # equal, as two objects: places are compared by value
                self.nodes[k] = SymPosition(self, self.nodes[j].idx)
        self.positions = set(self.nodes)

    def _triangle(self, m):
        x, n = self.x, self.n
        g = lambda i, j: m[min(i, j), max(i, j)]
        conds = []
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(n):
                    if k != i and k != j:
                        conds.append(g(i, j) <= g(i, k) + g(k, j))
        if conds:
            x.assume(x.all(conds))

    def _directed_triangle(self):
        n = self.n
        go = lambda i, j: self.tmatrix[i, j] if i < j else self.back[j, i]
        self.x.assume(self.x.all([go(i, j) <= go(i, k) + go(k, j)
                                  for i in range(n) for j in range(n) for k in range(n) if len({i, j, k}) == 3]))

    def _build_position(self, idx):
        return self.nodes[idx]

    def _get(self, m, a, b):
        i, j = a.idx, b.idx
        if i == j:
            return 0.0
        return m[(i, j) if i < j else (j, i)]

    def distance(self, position_a, position_b, *args, **kwargs):
        return self._get(self.matrix, position_a, position_b)

    def time(self, position_a, position_b, now=None, *args, **kwargs):
        if self.back and position_a.idx > position_b.idx:
            value = self._get(self.back, position_a, position_b)
        else:
            value = self._get(self.tmatrix, position_a, position_b)
        if self.rush is not None and now is not None and position_a.idx != position_b.idx:
            value = value + core.ite(now >= self.rush[0], self.rush[1], 0.0)
        return value


class World:
    """positions 0..n-1; services/trips/vehicles with symbolic data."""

    def __init__(self, x, n, tri=True, separate_time=False, hi=BIG, travel=None):
        self.x = x
        self.hi = hi
        self.surface = SymSurface(x, n, tri, separate_time, hi, travel=travel)
        self.p = self.surface.nodes
        self.trips, self.vehicles = [], []

    def _val(self, name, spec, lo=0, hi=None):
        if spec == "sym":
            return self.x.real(name, lo, self.hi if hi is None else hi)
        return spec

    def service(self, name, pos, earliest="sym", latest="sym", duration="sym"):
        e = self._val(f"{name}.e", earliest)
        l = self._val(f"{name}.l", latest)
        d = self._val(f"{name}.s", duration)
        if earliest == "sym" and latest == "sym":
            self.x.assume(e <= l)
        return Service(self.p[pos], earliest=e, latest=l, duration=d)

    def trip(self, name, o, d, tw="sym", duration="sym", timeout="sym", capacity="sym", bonus=0.0,
             o_tw=None, d_tw=None):
        def w(which):
            v = which if which is not None else tw
            if v == "sym":
                return "sym", "sym"
            if v == "none":
                return 0.0, INF
            if v == "early":
                return "sym", INF
            if v == "late":
                return 0.0, "sym"
            return v
        oe, ol = w(o_tw)
        de, dl = w(d_tw)
        origin = self.service(f"{name}.o", o, oe, ol, duration)
        dest = self.service(f"{name}.d", d, de, dl, duration)
        cap = self._val(f"{name}.q", capacity, 0)
        to = self._val(f"{name}.r", timeout)
        bo = self._val(f"{name}.b", bonus)
        t = Trip(name, origin, dest, capacity=cap, timeout=to, on_time_bonus=bo)
        self.trips.append(t)
        return t

    def vehicle(self, name, o=0, d=None, earliest="sym", latest="sym", capacity="sym", timeout="sym"):
        e = self._val(f"{name}.e", earliest)
        l = self._val(f"{name}.l", latest)
        if d is None:
            origin, dest = Service(self.p[o], earliest=e, latest=l), None
        else:
            origin, dest = Service(self.p[o], earliest=e, latest=l), Service(self.p[d], earliest=e, latest=l)
        cap = self._val(f"{name}.q", capacity)
        to = self._val(f"{name}.r", timeout)
        v = Vehicle(name, origin, dest, capacity=cap, timeout=to)
        self.vehicles.append(v)
        return v


# trips whose ends coincide, as (place, same place as); place 0 is the depot, trip i's ends are b+2i and b+2i+1
TOGETHER = dict(twin=lambda b: [[b + 2, b], [b + 3, b + 1]], swap=lambda b: [[b + 2, b + 1], [b + 3, b]], loop=lambda b: [[b + 1, b]],
                home=lambda b: [[k, 0] for k in range(b, b + 8)], chain=lambda b: [[b + 2, b + 1], [b + 3, 0]],
                stay=lambda b: [[-1, b]])


def together(cases, base=1, patterns=("twin", "swap", "loop", "home", "chain")):
    """The same cases with coinciding places."""
    return [dict(c, name=f"{c['name']}-{p}", where=TOGETHER[p](base)) for c in cases for p in patterns]


def traffic(cases, kinds=("directed", "clock")):
    """The same cases with one-way travel times, and with travel times that depend on the clock as well."""
    return [dict(c, name=f"{c['name']}-{k}", travel=k) for c in cases for k in kinds]


# -------------------------------------------------------------------------------- building routes
def fresh_route(vehicle, sequence):
    """Route visiting `sequence` = [("P"|"D", trip) | ([trips picked up], [trips delivered], position)],
    built stop by stop with the public constructors (no insertion code involved)."""
    first = Stop(vehicle, vehicle.origin_position, None)
    stops, prev, planned = [first], first, {}
    for item in sequence:
        if item[0] in ("P", "D"):
            kind, trip = item
            pos = trip.origin_position if kind == "P" else trip.destination_position
            pick, drop = ([trip], []) if kind == "P" else ([], [trip])
        else:
            pick, drop, pos = item
        stop = Stop(vehicle, pos, prev)
        for t in pick:
            pt = PlannedTrip(vehicle, t, pickup=stop)
            planned[t] = pt
        for t in drop:
            pt = planned[t]
            pt.delivery = stop
            stop.append_delivery(pt)
        stops.append(stop)
        prev = stop
    last = Stop(vehicle, vehicle.destination_position, prev)
    stops.append(last)
    return Route(vehicle, stops)


def simple_orders(k):
    """All sequences of k trips' pickups and deliveries with pickup before delivery, as lists of (kind, i)."""
    out = []

    def rec(seq, waiting, onboard):
        if not waiting and not onboard:
            out.append(list(seq))
            return
        for i in sorted(waiting):
            rec(seq + [("P", i)], waiting - {i}, onboard | {i})
        for i in sorted(onboard):
            rec(seq + [("D", i)], waiting, onboard - {i})
    rec([], frozenset(range(k)), frozenset())
    return out


# -------------------------------------------------------------------------------- oracles
def derived(trip):
    """Windows the trip must imply for its services (independent of trips.py)."""
    o, d = trip.origin, trip.destination
    t = o.position.surface.time(o.position, d.position)
    oe = core.sym_max(o.earliest, d.earliest - o.duration - trip.timeout)
    ol = core.sym_min(o.latest, d.latest - o.duration - t)
    de = core.sym_max(d.earliest, o.earliest + o.duration + t)
    dl = core.sym_min(d.latest, o.latest + o.duration + trip.timeout)
    return oe, ol, de, dl


class Visit:
    """One stop in an oracle's description of a route."""

    def __init__(self, position, pickups=(), deliveries=(), requested=None):
        self.position, self.pickups, self.deliveries, self.requested = position, list(pickups), list(deliveries), requested

    def copy(self):
        return Visit(self.position, self.pickups, self.deliveries, self.requested)


def visits_of(route):
    """Description of a route's stops as read through the public API (requested starts not included)."""
    return [Visit(s.position, [p.trip for p in s.pickup_planned_trips], [p.trip for p in s.delivery_planned_trips])
            for s in route.stops]


def timeline(vehicle, visits):
    """Arrival, start, departure, load per stop, from the definition."""
    rows = []
    dep, pos, load = vehicle.origin.earliest, vehicle.origin.position, 0
    for v in visits:
        arr = dep + v.position.surface.time(pos, v.position, now=dep)
        start = arr
        if v.requested is not None:
            start = core.sym_max(start, v.requested)
        early, late, dur = 0.0, INF, 0.0
        for t in v.pickups:
            oe, ol, _, _ = derived(t)
            early, late, dur = core.sym_max(early, oe), core.sym_min(late, ol), core.sym_max(dur, t.origin.duration)
            load = load + t.capacity
        for t in v.deliveries:
            _, _, de, dl = derived(t)
            early, late, dur = core.sym_max(early, de), core.sym_min(late, dl), core.sym_max(dur, t.destination.duration)
            load = load - t.capacity
        start = core.sym_max(start, early)
        dep, pos = start + dur, v.position
        rows.append(dict(arrival=arr, start=start, departure=dep, load=load, earliest=early, latest=late, duration=dur,
                         waiting=start - arr))
    return rows


def constraints(x, vehicle, visits, rows, eps=0.0, own_windows=True):
    """The route constraints on given start/departure/load rows, as one condition."""
    c = [visits[0].position is vehicle.origin.position or visits[0].position == vehicle.origin.position,
         visits[-1].position is vehicle.destination.position or visits[-1].position == vehicle.destination.position]
    c.append(vehicle.origin.earliest <= rows[0]["arrival"] + eps)
    c.append(rows[-1]["departure"] <= vehicle.destination.latest + eps)
    c.append(rows[-1]["departure"] - rows[0]["departure"] <= vehicle.timeout + eps)
    picked = {}
    for v, r in zip(visits, rows):
        for t in v.pickups:
            picked[t] = r
            c.append(t.origin.earliest <= r["start"] + eps)
            c.append(r["start"] <= t.origin.latest + eps)
        for t in v.deliveries:
            c.append(t.destination.earliest <= r["start"] + eps)
            c.append(r["start"] <= t.destination.latest + eps)
            if t not in picked:
                c.append(False)
                continue
            c.append(r["start"] - picked[t]["departure"] <= t.timeout + eps)
        if v.pickups or v.deliveries:
            c.append(r["load"] <= vehicle.capacity + eps)
    return x.all(c)


def observed_rows(route):
    return [dict(arrival=s.arrival_time, start=s.starting_time, departure=s.departure_time, load=None) for s in route.stops]


def schedule_conditions(x, route, eps=EPS):
    """The schedule a route reports (its observed starts and departures) really satisfies everything."""
    vehicle = route.vehicle
    visits = visits_of(route)
    rows = observed_rows(route)
    load = 0
    c = []
    for k, (v, r) in enumerate(zip(visits, rows)):
        load = load + x.sum([t.capacity for t in v.pickups]) - x.sum([t.capacity for t in v.deliveries])
        r["load"] = load
        dur = [t.origin.duration for t in v.pickups] + [t.destination.duration for t in v.deliveries]
        prev_dep = rows[k - 1]["departure"] if k else vehicle.origin.earliest
        prev_pos = visits[k - 1].position if k else vehicle.origin.position
        c.append(x.le(prev_dep + v.position.surface.time(prev_pos, v.position, now=prev_dep), r["start"]))
        for d in dur:
            c.append(x.le(r["start"] + d, r["departure"]))
        if not dur:
            c.append(x.le(r["start"], r["departure"]))
    return x.all(c + [constraints(x, vehicle, visits, rows, eps)])


def structure_ok(x, route):
    """Linked list mirrors the stop list; every planned trip points at the stops that hold it; pickup first."""
    stops = list(route.stops)
    ok = [stops[0].previous is None]
    ok += [b.previous is a for a, b in zip(stops, stops[1:])]
    ok.append(len({id(s) for s in stops}) == len(stops))
    pickups = [(i, p) for i, s in enumerate(stops) for p in s.pickup_planned_trips]
    drops = {id(p): i for i, s in enumerate(stops) for p in s.delivery_planned_trips}
    ok.append(len(pickups) == len(drops))
    for i, p in pickups:
        ok.append(p.pickup is stops[i])
        j = drops.get(id(p))
        ok.append(j is not None and j > i and p.delivery is stops[j] if j is not None else False)
        ok.append(p.vehicle is route.vehicle)
    ok += [s.vehicle is route.vehicle for s in stops]
    return all(bool(o) for o in ok)


def service_order(route):
    """[('P'|'D', trip), ...] in stop order (within a stop: by trip identifier)."""
    out = []
    for s in route.stops:
        out += sorted((("P", p.trip.identifier) for p in s.pickup_planned_trips))
        out += sorted((("D", p.trip.identifier) for p in s.delivery_planned_trips))
    return out


def snapshot(route):
    """Everything a route reports, as comparable data."""
    return dict(
        vehicle=route.vehicle,
        stops=[(s.position, s.arrival_time, s.starting_time, s.departure_time, s.capacity,
                tuple(sorted(p.trip.identifier for p in s.pickup_planned_trips)),
                tuple(sorted(p.trip.identifier for p in s.delivery_planned_trips))) for s in route.stops],
        ids=[id(s) for s in route.stops],
        feasible=route.feasible,
    )


def same_snapshot(x, a, b, identity=True):
    if a["vehicle"] is not b["vehicle"] or len(a["stops"]) != len(b["stops"]):
        return False
    if identity and a["ids"] != b["ids"]:
        return False
    c = [x.iff(a["feasible"], b["feasible"])]
    for p, q in zip(a["stops"], b["stops"]):
        if p[0] is not q[0] or p[5:] != q[5:]:
            return False
        c.append(x.eqall(zip(p[1:5], q[1:5])))
    return x.all(c)


def make_result(job, fleet, routes, algorithm=None):
    from jinete.algorithms import NaiveAlgorithm
    alg = algorithm or NaiveAlgorithm(fleet, job)
    return Result(alg, Planning(set(routes)), 0.0)


# -------------------------------------------------------------------------------- edit histories
def shared_route(x, n, stops, **world):
    """A one-vehicle route over stops that serve several trips at once: stops is a list of (pickups, deliveries)."""
    w = World(x, 1 + len(stops), **world)
    v = w.vehicle("v", 0)
    at = {}
    for k, (ps, ds) in enumerate(stops):
        for i in ps:
            at.setdefault(i, {})["o"] = k + 1
        for i in ds:
            at.setdefault(i, {})["d"] = k + 1
    trips = [w.trip(f"t{i}", at[i]["o"], at[i]["d"]) for i in range(n)]
    h = Hist(x, w, v, [([trips[i] for i in ps], [trips[i] for i in ds], w.p[k + 1]) for k, (ps, ds) in enumerate(stops)])
    return w, v, trips, h


class Hist:
    """A real route next to the description it should match, edited in step through the public API."""

    def __init__(self, x, w, vehicle, sequence):
        self.x, self.w, self.vehicle = x, w, vehicle
        self.route = fresh_route(vehicle, sequence)
        self.visits = [Visit(vehicle.origin_position)]
        for item in sequence:
            if item[0] in ("P", "D"):
                k, t = item
                self.visits.append(Visit(t.origin_position, [t]) if k == "P" else Visit(t.destination_position, [], [t]))
            else:
                self.visits.append(Visit(item[2], item[0], item[1]))
        self.visits.append(Visit(vehicle.destination_position))
        self.onboard = [t for v in self.visits for t in v.pickups]
        self.peek = False  # read a new trip's stops before they are inserted

    def pairs(self):
        m = len(self.visits)
        return [(i, j) for i in range(m - 1) for j in range(i + 1, m)]

    def append(self, trip, i, j):
        stops = self.route.stops
        pickup = Stop(self.vehicle, trip.origin_position, stops[i])
        delivery = Stop(self.vehicle, trip.destination_position, pickup if j == i + 1 else stops[j - 1])
        pt = PlannedTrip(self.vehicle, trip, pickup, delivery)
        if self.peek:
            for s in (pickup, delivery):
                s.arrival_time, s.starting_time, s.departure_time, s.waiting_time
            pickup.capacity
            if j == i + 1:
                delivery.capacity  # (otherwise it is not behind its pickup yet, so it may be negative)
        self.route.append_planned_trip(pt)
        self.visits.insert(j, Visit(trip.destination_position, [], [trip]))
        self.visits.insert(i + 1, Visit(trip.origin_position, [trip]))
        self.onboard.append(trip)

    def remove(self, trip):
        self.route.remove_trip(trip)
        kept = []
        for v in self.visits:
            if trip in v.pickups or trip in v.deliveries:
                v = v.copy()
                v.pickups = [t for t in v.pickups if t is not trip]
                v.deliveries = [t for t in v.deliveries if t is not trip]
                if not v.pickups and not v.deliveries:
                    continue
            kept.append(v)
        self.visits = kept
        self.onboard.remove(trip)

    def retime(self, k, value, flush=True):
        self.route.stops[k].starting_time = value
        if flush:
            self.route.flush()
        self.visits[k] = self.visits[k].copy()
        self.visits[k].requested = value

    def waypoint(self, idx, position):
        """An extra stop without services before stop idx."""
        stop = Stop(self.vehicle, position, self.route.stops[idx - 1])
        self.route.insert_stop_at(idx, stop)
        self.visits.insert(idx, Visit(position))

    def drop_waypoint(self, idx):
        self.route.remove_stop_at(idx)
        self.visits.pop(idx)

    def clone(self, idx=0):
        self.route = self.route.clone(idx)

    def read(self, verdict=False):
        r = self.route
        for s in r.stops:
            s.arrival_time, s.starting_time, s.departure_time, s.capacity, s.waiting_time
        for p in r.planned_trips:
            p.duration, p.waiting_time
        r.duration, r.waiting_time, r.transit_time
        if verdict:
            return bool(r.feasible)

    def rows(self):
        return timeline(self.vehicle, self.visits)

    def edit(self, tag, spare, ops=("append", "remove", "retime", "waypoint", "drop", "clone")):
        """One solver-chosen edit; returns its name."""
        x = self.x
        menu = []
        if "append" in ops and spare:
            menu += [("append", p) for p in self.pairs()]
        if "remove" in ops:
            menu += [("remove", t) for t in self.onboard]
        if "retime" in ops:
            menu += [("retime", k) for k in range(len(self.visits))]
        if "waypoint" in ops:
            menu += [("waypoint", k) for k in range(1, len(self.visits))]
        if "drop" in ops:
            menu += [("drop", k) for k in range(1, len(self.visits) - 1)
                     if not self.visits[k].pickups and not self.visits[k].deliveries]
        if "clone" in ops:
            menu += [("clone", k) for k in range(len(self.visits))]
        op, arg = menu[x.choice(f"{tag}.op", len(menu))]
        if op == "append":
            t = spare.pop(0)
            self.append(t, *arg)
        elif op == "remove":
            self.remove(arg)
            spare.append(arg)
        elif op == "retime":
            self.retime(arg, x.real(f"{tag}.start", 0, BIG))
        elif op == "waypoint":
            self.waypoint(arg, self.w.p[-1])
        elif op == "drop":
            self.drop_waypoint(arg)
        elif op == "clone":
            self.clone(arg)
        return f"{op} {arg if not isinstance(arg, Trip) else arg.identifier}"
