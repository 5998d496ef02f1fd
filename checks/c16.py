"""C16: Cordeau-Laporte files load faithfully."""
from checks.loading import *  # noqa: F401,F403
from jinete.loaders import CordeauLaporteLoaderFormatter  # noqa: E402
from jinete.models import DialARideObjective  # noqa: E402

PROPERTY = "C16"
BOUNDS = ("quick: 0-2 vehicles and 0-2 requests with every number of the table symbolic (coordinates of 2 requests: some coinciding), "
          "3-4 vehicles or requests with concrete coordinates, three layouts; thorough: 2 requests with all coordinates symbolic, up to "
          "11 requests. Numbers in [-1000, 1000], loads and times as any table may state them")
ASSUMPTIONS = ["a delivery's load is the negated load of its pickup, as the format demands", "counts are whole numbers",
               "numbers read from the text are kept exactly"]
MUST_REACH = {"quick": ["loaded", "trips", "vehicles"]}


def load(x, m, n, coords="sym", layout="plain", extra=False, first="fleet", data="sym"):
    R = lambda name, lo=LO, hi=HI: x.real(name, lo, hi)
    limit, cap, ride = R("limit", 0), R("cap", 0), R("ride", 0)
    rows, points, table = [[m, 2 * n, limit, cap, ride]], [], []
    for i in range(2 * n + 1):
        if coords == "sym" or isinstance(coords, list) and i in coords:
            p = [R(f"x{i}"), R(f"y{i}")]
        else:
            p = [float(3 * i), float(-4 * i)]
        d, q, e, l = (R(f"d{i}", 0), R(f"q{i}", 0), R(f"e{i}", 0), R(f"l{i}", 0)) if data == "sym" else (i * 1.0, i + .5, i * 2.0, i * 3.0 + 50)
        if i > n:
            q = -table[i - n][2]
        table.append((p, d, q, e, l))
        rows.append([float(i), *p, d, q, e, l])
    if extra:
        rows.append([float(2 * n + 1), *table[0][0], 0.0, 0.0, table[0][3], table[0][4]])
    with loaded(x, CordeauLaporteLoaderFormatter, rows, layout) as loader:
        order = [lambda: loader.fleet, lambda: loader.job, lambda: loader.surface]
        for f in order if first == "fleet" else reversed(order):
            f()
        fleet, job, surface = loader.fleet, loader.job, loader.surface
    x.reach("loaded")
    (p, d, q, e, l) = table[0]
    vehicles = list(fleet.vehicles)
    x.check(len(vehicles) == m, "as many vehicles as declared")
    x.check(len({v.identifier for v in vehicles}) == m, "vehicles have different identifiers")
    for i, v in enumerate(vehicles):
        x.reach("vehicles")
        x.observe(f"vehicle.{i}", v.timeout)
        x.check(x.all([same(x, v.origin_position, p), same(x, v.destination_position, p)]), "vehicles start and end at the depot")
        x.check(x.all([x.eq(v.timeout, limit), x.eq(v.capacity, cap)]), "vehicles have the declared limit and capacity")
        x.check(x.all([window(x, v.origin, e, l, f"o{i}"), window(x, v.destination, e, l, f"d{i}")]), "vehicles have the depot's window")
    trips = {t.identifier: t for t in job.trips}
    x.check(len(job.trips) == n and set(trips) == {str(i + 1) for i in range(n)}, "one trip per request, numbered from 1")
    for i in range(1, n + 1):
        t = trips.get(str(i))
        if t is None:
            continue
        x.reach("trips")
        x.observe(f"trip.{i}", t.capacity)
        x.observe(f"latest.{i}", t.destination.latest)
        x.check(x.all([x.eq(t.capacity, table[i][2]), x.eq(t.timeout, ride)]), "a trip's load and ride limit")
        for s, (p, d, q, e, l), which in ((t.origin, table[i], "o"), (t.destination, table[i + n], "d")):
            x.check(same(x, s.position, p), "a trip's positions")
            x.check(x.eq(s.duration, d), "a trip's service durations")
            x.check(x.all([x.eq(s.earliest, e), x.eq(s.latest, l)]), "a trip's time windows")
        x.check(x.eq(t.origin.duration, t.origin_duration), "a trip's service durations")
    x.check(isinstance(job.objective, DialARideObjective), "the objective is dial-a-ride")
    if n == 1 or not n:
        a = table[0][0]
        b = table[1][0] if n else [x.real("ax", LO, HI), x.real("ay", LO, HI)]
        dist = surface.distance(surface.get_or_create_position(a), surface.get_or_create_position(b))
        x.check(x.all([dist >= 0, x.eq(dist * dist, (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]))]),
                "distances are Euclidean") if x.symbolic else x.check(
                    abs(dist - ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5) <= 1e-6 * (1 + dist), "distances are Euclidean")


def cases(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, harness="load", params=p))
    for layout in ("plain", "wide", "open"):
        add(f"1x1-{layout}", m=1, n=1, layout=layout, coords=[1])
    for m in range(3):
        add(f"{m}x0", m=m, n=0)
        add(f"{m}x1", m=m, n=1, coords="fixed" if m else "sym")
        add(f"{m}x2", m=m, n=2, coords="fixed")
    add("1x2-job-first", m=1, n=2, coords="fixed", first="job")
    add("1x2-same-origins", m=1, n=2, coords=[1, 2])
    add("1x2-ends", m=1, n=2, coords=[0, 4])
    add("1x2-trip", m=1, n=2, coords=[2, 4])
    add("1x2-extra-row", m=1, n=2, coords="fixed", extra=True)
    add("4x1", m=4, n=1, coords="fixed")
    add("1x3", m=1, n=3, coords="fixed")
    add("1x4", m=1, n=4, coords="fixed")
    add("11x11", m=11, n=11, coords="fixed", data="fixed")
    if tier == "thorough":
        add("1x2-all", m=1, n=2)
        add("1x3-coords", m=1, n=3, coords=[1, 2, 5])
        add("3x11", m=3, n=11, coords="fixed")
    return out
