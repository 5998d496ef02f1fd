"""C17: HashCode files load faithfully."""
from checks.loading import *  # noqa: F401,F403
from jinete.loaders import HashCodeLoaderFormatter  # noqa: E402
from jinete.models import HashCodeObjective  # noqa: E402

PROPERTY = "C17"
BOUNDS = ("quick: 0-7 vehicles and 0-2 rides with every number of the file symbolic (coordinates of 2 rides: some), 3-4 rides with "
          "concrete coordinates, three layouts; thorough: 2 rides with all coordinates symbolic, up to 12 rides. Numbers in [0, 1000]")
ASSUMPTIONS = ["numbers read from the text are kept exactly", "counts are whole numbers and agree with the lines that follow"]
MUST_REACH = {"quick": ["loaded", "trips", "vehicles", "window"]}


def load(x, m, n, coords="sym", layout="plain", first="fleet", data="sym"):
    R = lambda name, lo=0, hi=HI: x.real(name, lo, hi)
    bonus, steps = R("bonus"), R("steps")
    rows, table = [[R("rows"), R("columns"), m, n, bonus, steps]], []
    for i in range(n):
        p = [R(f"{c}{i}") if coords == "sym" or isinstance(coords, list) and f"{c}{i}" in coords else float(7 * i + k)
             for k, c in enumerate("abxy")]
        e, f = (R(f"e{i}"), R(f"f{i}")) if data == "sym" else (2.0 * i, 3.0 * i + 40)
        table.append((p[:2], p[2:], e, f))
        rows.append([*p, e, f])
    with loaded(x, HashCodeLoaderFormatter, rows, layout) as loader:
        order = [lambda: loader.fleet, lambda: loader.job, lambda: loader.surface]
        for g in order if first == "fleet" else reversed(order):
            g()
        fleet, job, surface = loader.fleet, loader.job, loader.surface
    x.reach("loaded")
    vehicles = list(fleet.vehicles)
    x.check(len(vehicles) == m, "as many vehicles as declared")
    x.check(len({v.identifier for v in vehicles}) == m, "vehicles have different identifiers")
    for i, v in enumerate(vehicles):
        x.reach("vehicles")
        x.observe(f"vehicle.{i}", v.timeout)
        x.check(same(x, v.origin_position, (0, 0)), "vehicles are at the first intersection")
        x.check(v.capacity == 1, "vehicles have capacity for one ride at a time")
        t = x.real(f"at{i}", 0, 4 * HI)
        x.check(x.implies(t <= steps, x.all([v.origin.earliest <= t, t <= v.origin.latest, t <= v.destination.latest])),
                "vehicles are available until the last step")
        x.check(x.implies(t > steps, t > v.destination.latest), "vehicles are not available after the last step")
        x.check(x.implies(t <= steps, t <= v.timeout), "vehicles are available during all steps")
    trips = {t.identifier: t for t in job.trips}
    x.check(len(job.trips) == n and set(trips) == {str(i) for i in range(n)}, "one trip per ride, numbered from 0")
    for i in range(n):
        t = trips.get(str(i))
        if t is None:
            continue
        x.reach("trips")
        a, b, e, f = table[i]
        x.observe(f"trip.{i}", t.destination.latest)
        x.observe(f"start.{i}", t.origin.earliest)
        x.check(x.all([same(x, t.origin_position, a), same(x, t.destination_position, b)]), "a ride's intersections")
        x.check(x.eq(t.on_time_bonus, bonus), "a ride's bonus")
        x.check(x.all([t.capacity == 1, x.eq(t.origin.duration, 0), x.eq(t.destination.duration, 0)]), "a ride takes one place and no service time")
        s, d = x.real(f"start{i}", 0, 4 * HI), x.real(f"finish{i}", 0, 8 * HI)
        far = abs(a[0] - b[0]) + abs(a[1] - b[1])
        x.assume(s + far <= d)
        allowed = x.all([t.origin.earliest <= s, s <= t.origin.latest, t.destination.earliest <= d, d <= t.destination.latest, d - s <= t.timeout])
        wanted = x.all([e <= s, d <= f])
        x.check(x.iff(allowed, wanted), "a ride starts from its earliest start and finishes by its latest finish")
        if i == 0 and bool(wanted):
            x.reach("window")
    x.check(isinstance(job.objective, HashCodeObjective), "the objective is the HashCode one")
    a, b = ([R("px"), R("py")], [R("qx"), R("qy")]) if n <= 1 else ([1.0, 5.0], [4.0, -3.0])
    dist = surface.distance(surface.get_or_create_position(a), surface.get_or_create_position(b))
    x.check(x.eq(dist, abs(a[0] - b[0]) + abs(a[1] - b[1])), "distances are Manhattan")


def cases(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, harness="load", params=p))
    for layout in ("plain", "wide", "open"):
        add(f"1x1-{layout}", m=1, n=1, layout=layout, coords="fixed")
    for m, n in ((0, 0), (3, 0), (0, 1), (3, 1), (7, 1), (4, 3)):
        add(f"{m}x{n}", m=m, n=n, coords="fixed")
    add("1x1", m=1, n=1)
    for m in range(4):
        add(f"{m}x2", m=m, n=2, coords="fixed")
    add("1x2-job-first", m=1, n=2, coords="fixed", first="job")
    add("1x2-origins", m=1, n=2, coords=["a0", "b0", "a1", "b1"])
    add("1x2-ends", m=1, n=2, coords=["x0", "y0", "x1", "y1"])
    add("1x2-chain", m=1, n=2, coords=["x0", "y0", "a1", "b1"])
    add("1x4", m=1, n=4, coords="fixed")
    add("12x12", m=12, n=12, coords="fixed", data="fixed")
    if tier == "thorough":
        add("1x2-all", m=1, n=2)
        add("1x12", m=1, n=12, coords="fixed")
    return out
