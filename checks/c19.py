"""C19: the columnar report shows the planning's real figures."""
import re

from checks.planning_common import *  # noqa: F401,F403
from symx.core import SymNum  # noqa: E402
from jinete.models import DistanceMetric, GeometricSurface  # noqa: E402
from jinete.storers import ColumnarStorerFormatter  # noqa: E402

PROPERTY = "C19"
BOUNDS = ("quick: plannings of 0-3 routes with up to 2 trips each in every visiting order (3 trips in one), stops shared by several "
          "trips, waypoints, requested starts, pending trips; every time, window, duration, load, distance, travel time and limit "
          "symbolic; geometric positions with symbolic coordinates; thorough: every order of 3 trips. Data in [0, 1000]")
ASSUMPTIONS = ["travel times obey the triangle inequality", "a printed figure may be rounded to the digits shown", "both windows of a vehicle's depots agree",
               "labels and section order are those of the current report; blanks are free"]
MUST_REACH = {"quick": ["report", "trip", "stop", "shared stop", "waypoint", "infeasible", "feasible", "empty ride"]}
NUM = r"(<<\d+:[^>]*>>|[-+0-9.einfEa]+)"


def need(x, cond, label):
    x.check(bool(cond), label)
    return bool(cond)


class Reader:
    def __init__(self, x, out):
        self.x = x
        self.lines = [line for line in out.split("\n") if line.strip()]

    def num(self, text):
        """(value, rounding) of a printed number: the symbolic term behind it, or what a reader sees."""
        text = text.strip()
        m = re.fullmatch(r"<<(\d+):([^>]*)>>", text)
        if m:
            return self.x.tokens[int(m[1])][0], 0
        digits = len(text.split(".")[1]) if "." in text and "e" not in text else 0
        return float(text), .5000001 * 10 ** -digits if "." in text else 0

    def is_(self, text, value, label):
        """The printed number is this one."""
        try:
            shown, tol = self.num(text)
        except ValueError:
            return self.x.check(False, label)
        if isinstance(value, float) and value > 1e300 or isinstance(shown, float) and shown > 1e300:
            return self.x.check(shown == value or (isinstance(shown, float) and shown > 1e300 and isinstance(value, float) and value > 1e300), label)
        if tol and type(value) is not SymNum:
            return self.x.check(abs(shown - value) <= tol + 1e-6, label)
        self.x.check(self.x.eq(shown, value), label)


def quoted(line, name):
    m = re.fullmatch(rf'\s*{name}:\s*"(.*)"[\s\w]*', line)
    return m[1] if m else None


def same_place(x, rd, text, position):
    """The printed place is this one."""
    if not isinstance(position, SymPosition):
        nums = re.findall(NUM, text)
        if len(nums) != 2:
            return x.check(False, "positions")
        for a, b in zip(nums, position.coordinates):
            rd.is_(a, b, "positions")
        return
    x.check(text.strip() == str(position), "positions")


def fields(line, names):
    """Cut a row into its labelled fields, in this order."""
    pattern = r"\s*" + r"\s+".join(rf"{n}:\s*(.*?)" for n in names) + r"\s*"
    m = re.fullmatch(pattern, line)
    return dict(zip(names, m.groups())) if m else None


def span(x, rd, text, low, high, label):
    m = re.fullmatch(r"(.*?)\s+to\s+(.*)", text)
    if not need(x, bool(m), label):
        return
    rd.is_(m[1], low, label)
    rd.is_(m[2], high, label)


def report(x, layout, data, pending=0, retimed=(), objective="ride", vehicle=None, geo=False, keep=True, tab=None, names=None, stale=False):
    w, result, shown = build(x, layout, data, pending=pending, retimed=retimed, objective=objective, vehicle=vehicle, names=names, tri=True)
    if geo:
        shown, result = geometric(x, result, shown)
    if stale:
        for r, _ in shown:
            r.feasible, r.duration, r.distance
    kw = {} if tab is None else dict(tab_character=tab)
    if not keep:
        kw["remove_empty_routes"] = True
    result.computation_time = x.real("took", 0)
    out = ColumnarStorerFormatter(result=result, **kw).format()
    x.reach("report")
    rd = Reader(x, out)
    check_head(x, rd, result, [s for s in shown if keep or any(v.pickups for v in s[1])], objective, shown)


def geometric(x, result, shown):
    """The same routes over a surface with symbolic coordinates."""
    surface = GeometricSurface(DistanceMetric.MANHATTAN)
    s = [surface.get_or_create_position([x.real(f"gx{i}", 0, 100), x.real(f"gy{i}", 0, 100)]) for i in range(2)]
    v = Vehicle("v0", Service(s[0]), capacity=x.real("vq", 0))
    t = Trip("t0", Service(s[1]), Service(s[0]), capacity=x.real("tq", 0))
    route = fresh_route(v, [("P", t), ("D", t)])
    return [(route, visits_of(route))], make_result(Job({t}, OBJECTIVES["ride"]), Fleet({v}), [route])


def check_head(x, rd, result, shown, objective, every):
    lines = rd.lines
    take = {}
    body = []
    for line in lines:
        for name in ("Planning UUID", "Routes count", "Computation time", "Coverage Rate", "Objective", "Optimization Value", "Feasible", "Direction"):
            v = quoted(line, re.escape(name))
            if v is not None:
                x.check(name not in take, "each figure is stated once")
                take[name] = v
                break
        else:
            body.append(line)
    if not need(x, len(take) == 8, "each figure is stated once"):
        return
    x.check(take["Planning UUID"] == str(result.planning.uuid), "planning identifier")
    x.check(take["Routes count"] == str(len(shown)), "number of routes")
    rd.is_(take["Computation time"], result.computation_time, "computation time")
    served = sum(1 for _, visits in every for v in visits for t in v.pickups if not (t.capacity == 0))
    if served < sum(len(v.pickups) for _, visits in every for v in visits):
        x.reach("empty ride")
    rd.is_(take["Coverage Rate"], served / len(result.job.trips), "coverage rate")
    x.check(take["Objective"] == OBJECTIVES[objective].__name__, "objective name")
    value = objective_value(x, objective, every)
    nums = re.findall(NUM, take["Optimization Value"])
    if need(x, len(nums) == len(value), "objective value"):
        for a, b in zip(nums, value):
            rd.is_(a, b, "objective value")
    ok = x.all([True] + [constraints(x, r.vehicle, visits, timeline(r.vehicle, visits), EPS) for r, visits in every])
    if need(x, take["Feasible"] in ("True", "False"), "feasibility"):
        x.reach("feasible" if take["Feasible"] == "True" else "infeasible")
        sure = ok if not x.symbolic else None
        if x.symbolic:
            strict = x.all([True] + [constraints(x, r.vehicle, visits, timeline(r.vehicle, visits), 0.0) for r, visits in every])
            loose = x.all([True] + [constraints(x, r.vehicle, visits, timeline(r.vehicle, visits), 2 * EPS) for r, visits in every])
            x.check(loose if take["Feasible"] == "True" else x.no(strict), "feasibility")
        else:
            x.check(sure == (take["Feasible"] == "True") or near(x, every), "feasibility")
    x.check("MAX" in take["Direction"].upper(), "direction")
    # routes
    if not shown:
        x.check([b.strip() for b in body] in (["Routes:"], []), "nothing else is reported")
        return
    if not need(x, bool(body) and body[0].strip() == "Routes:", "routes section"):
        return
    blocks = []
    for line in body[1:]:
        if line.strip() == "Vehicle:":
            blocks.append([])
        elif not need(x, bool(blocks), "routes section"):
            return
        else:
            blocks[-1].append(line)
    if not need(x, len(blocks) == len(shown), "one block per route"):
        return
    left = {r.vehicle.identifier: (r, v) for r, v in shown}
    for b in blocks:
        ident = quoted(b[0], "ID")
        if need(x, ident in left, "vehicle identifier"):
            check_route(x, rd, b, *left.pop(ident))


def near(x, every):
    strict = all(constraints(x, r.vehicle, v, timeline(r.vehicle, v), 0.0) for r, v in every)
    loose = all(constraints(x, r.vehicle, v, timeline(r.vehicle, v), 2 * EPS) for r, v in every)
    return strict != loose


def objective_value(x, objective, every):
    from checks.c11 import expected
    total = [0] * (2 if objective == "ride" else 1)
    for r, visits in every:
        got = expected(x, objective, r.vehicle, visits, timeline(r.vehicle, visits))
        total = [a + b for a, b in zip(total, got)]
    return total


def check_route(x, rd, block, route, visits):
    v = route.vehicle
    rows, legs_ = timeline(v, visits), legs(visits, v)
    data = {}
    k = 1
    for name in ("Initial", "Final", "Earliest", "Latest", "Capacity"):
        m = re.fullmatch(rf"\s*{name}:\s*(.*?)\s*", block[k]) if k < len(block) else None
        if not need(x, bool(m), "vehicle data"):
            return
        data[name] = m[1]
        k += 1
    same_place(x, rd, data["Initial"], v.origin.position)
    same_place(x, rd, data["Final"], v.destination.position)
    rd.is_(data["Earliest"], v.origin.earliest, "vehicle window")
    rd.is_(data["Latest"], v.origin.latest, "vehicle window")
    rd.is_(data["Capacity"], v.capacity, "vehicle capacity")
    trips = [t for s in visits for t in s.pickups]
    if not need(x, k < len(block) and quoted(block[k], "Planned Trips") == str(len(trips)), "number of planned trips"):
        return
    k += 1
    left = {t.identifier: t for t in trips}
    order = []
    for line in block[k:k + len(trips)]:
        f = fields(line, ["ID", "P", "TW", "WT", "NT", "LT", "TT", "T", "L"])
        if not need(x, bool(f) and f["ID"].strip() in left, "a row per planned trip"):
            return
        t = left.pop(f["ID"].strip())
        x.reach("trip")
        order.append(next(i for i, s in enumerate(visits) if t in s.pickups))
        fig = trip_figures(x, visits, rows, legs_, t)
        a, _, b = f["P"].partition(" to ")
        same_place(x, rd, a, t.origin.position)
        same_place(x, rd, b, t.destination.position)
        oe, ol, de, dl = derived(t)
        span(x, rd, f["TW"], oe, dl, "a planned trip's window")
        rd.is_(f["WT"], fig["waiting"], "a planned trip's waiting time")
        rd.is_(f["NT"], fig["transit"], "a planned trip's driving time")
        rd.is_(f["LT"], fig["loading"], "a planned trip's loading time")
        rd.is_(f["TT"], fig["duration"], "a planned trip's ride time")
        span(x, rd, f["T"], fig["pickup"], fig["delivery"], "a planned trip's pickup and delivery times")
        rd.is_(f["L"], t.capacity, "a planned trip's load")
        x.observe("ride", fig["duration"])
    x.check(order == sorted(order), "planned trips in pickup order")
    k += len(trips)
    if not need(x, k < len(block) and quoted(block[k], "Stops") == str(len(visits)), "number of stops"):
        return
    k += 1
    if not need(x, len(block) == k + len(visits), "a row per stop"):
        return
    for line, s, r, leg in zip(block[k:], visits, rows, legs_):
        f = fields(line, ["ID", "P", "TW", "WT", "NT", "LT", "DT", "L"])
        if not need(x, bool(f), "a row per stop"):
            return
        x.reach("stop")
        if len(s.pickups) + len(s.deliveries) > 1:
            x.reach("shared stop")
        if not s.pickups and not s.deliveries and s is not visits[0] and s is not visits[-1]:
            x.reach("waypoint")
        named = sorted(n for n in f["ID"].strip().strip("[]").split("|") if n)
        x.check(named == sorted(["P" + t.identifier for t in s.pickups] + ["D" + t.identifier for t in s.deliveries]), "a stop's services")
        same_place(x, rd, f["P"], s.position)
        span(x, rd, f["TW"], r["earliest"], r["latest"], "a stop's window")
        rd.is_(f["WT"], r["waiting"], "a stop's waiting time")
        rd.is_(f["NT"], leg[1], "a stop's driving time")
        rd.is_(f["LT"], r["duration"], "a stop's loading time")
        rd.is_(f["DT"], r["departure"], "a stop's departure time")
        rd.is_(f["L"], r["load"], "a stop's load")
        x.observe("departure", r["departure"])


def cases(tier):
    out = []

    def add(name, layout, data=FULL, **p):
        out.append(dict(name=name, harness="report", params=dict(layout=layout, data=data, **p)))
    free = dict(earliest="sym", latest=INF, capacity="sym", timeout=INF)
    for ob in OBJECTIVES:
        add(f"{ob}-none", [], objective=ob, pending=1)
        add(f"{ob}-one", [ONE], TIMED, objective=ob, vehicle=free)
    add("one", [ONE], dict(FULL, bonus=0.0))
    add("empty", [[]], pending=1)
    add("empty-kept", [ONE, []], LIGHT, vehicle=free)
    add("empty-dropped", [ONE, []], LIGHT, vehicle=free, keep=False)
    add("tab", [ONE], LIGHT, vehicle=free, tab="\t", names=["a-long-name"])
    add("pending", [ONE], LIGHT, vehicle=free, pending=2)
    add("way", [[("W",), ("P", 0), ("W",), ("D", 0)]], LIGHT, vehicle=free)
    add("retimed", [ONE], LIGHT, vehicle=free, retimed=[1])
    add("retimed-2", [ONE], LOADS, vehicle=free, retimed=[0, 2])
    add("geo", [], geo=True)
    add("1+1", [ONE, shift(ONE, 1)], LIGHT, vehicle=free)
    add("1+1+1", [ONE, shift(ONE, 1), shift(ONE, 2)], LOADS, vehicle=dict(earliest="sym", latest=INF, capacity=5.0, timeout=INF))
    for o in simple_orders(2):
        add(label(o), [o], LIGHT, vehicle=free, stale=True)
        add(label(o) + "-full", [o], FULL)
    out += together([c for c in out if c["name"] in ("P0P1D0D1", "P0P1D1D0", "P0D0P1D1", "1+1", "way", "one")], base=2,
                    patterns=("twin", "swap", "loop", "stay"))
    add("limits", [ONE], LOADS, vehicle=None)
    for name, r in (("shared", [([0, 1], []), ([], [1]), ([], [0])]), ("mixed", [([0], []), ([1], [0]), ([], [1])]),
                    ("both", [([0, 1], []), ([], [0, 1])])):
        add(name, [r], dict(LIGHT, duration="sym", capacity=1.0), vehicle=free)
    add("3", [[("P", 2), ("P", 0), ("D", 0), ("P", 1), ("D", 2), ("D", 1)]], dict(LOADS, capacity=1.0), vehicle=free)
    add("2+1", [[("P", 0), ("P", 1), ("D", 1), ("D", 0)], shift(ONE, 2)], TIMED)
    if tier == "thorough":
        for o in simple_orders(3):
            add(label(o), [o], dict(LOADS, o_tw="early", capacity=1.0), vehicle=free)
    return out
