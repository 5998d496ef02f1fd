"""C28: solutions of loaded files hold by the files' own rules."""
import math
import os
import pathlib
import tempfile

from checks.insertion_common import *  # noqa: F401,F403
from checks import loading  # noqa: E402
from jinete.algorithms import (  # noqa: E402
    GraspAlgorithm, IterativeAlgorithm, LocalSearchAlgorithm, OneShiftLocalSearchStrategy, ReallocationLocalSearchStrategy,
    SequentialAlgorithm, TwoOPTLocalSearchStrategy)
from jinete.loaders import CordeauLaporteLoaderFormatter, FileLoader, HashCodeLoaderFormatter  # noqa: E402
from jinete.solvers import Solver  # noqa: E402
from jinete.storers import FileStorer, HashCodeStorerFormatter, NaiveStorer  # noqa: E402

PROPERTY = "C28"
BOUNDS = ("quick: HashCode files of 0-2 vehicles and 0-2 rides (3 in some), Cordeau-Laporte files of 1-2 vehicles and 1-2 requests (3 in "
          "some), solved by insertion (three iterators, three strategies), insertion then local search, iterative and GRASP runs; "
          "symbolic windows, bonus and steps (HashCode), windows, durations, loads, capacity, ride limit and route limit (Cordeau-"
          "Laporte; which ones differs per case), coordinates symbolic for one HashCode ride, else concrete; thorough: 3 rides or "
          "requests throughout and more combinations. Numbers in [0, 1000]")
ASSUMPTIONS = ["numbers read from the text are kept exactly", "a delivery's load is the negated load of its pickup",
               "every vehicle can at least return to its depot unused"]
MUST_REACH = {"quick": ["judged", "bonus", "no bonus", "two in a row", "left out", "nothing served", "request", "shared vehicle"]}
TOL = 1e-3
SEARCHES = dict(reallocation=ReallocationLocalSearchStrategy, two_opt=TwoOPTLocalSearchStrategy, one_shift=OneShiftLocalSearchStrategy)


def method(name):
    """Configured algorithm: (class, options)."""
    parts = name.split("-")
    if parts[0] in ITERATORS:
        return InsertionAlgorithm, dict(iterator_cls=ITERATORS[parts[0]], strategy_cls=STRATEGIES[parts[1]])
    ins = dict(strategy_cls=STRATEGIES["tail"])
    if parts[0] == "iterative":
        return IterativeAlgorithm, dict(ins, episodes=2, randomized_size=2)
    if parts[0] == "grasp":
        return GraspAlgorithm, dict(first_solution_kwargs=dict(ins, episodes=1), local_search_kwargs=dict(
            algorithms_cls=[(LocalSearchAlgorithm, dict(strategy_cls=ReallocationLocalSearchStrategy))]))
    if parts[0] == "default":
        return InsertionAlgorithm, {}
    return SequentialAlgorithm, dict(algorithms_cls=[(InsertionAlgorithm, ins), (LocalSearchAlgorithm, dict(strategy_cls=SEARCHES[parts[0]]))])


def solved(x, rows, loader_formatter, algorithm, storer=NaiveStorer, **storer_kwargs):
    path = loading.write(x, rows, "plain")
    cls, options = method(algorithm)
    try:
        return Solver(loader=FileLoader, loader_kwargs=dict(file_path=pathlib.Path(path), formatter_cls=loader_formatter),
                      algorithm=cls, algorithm_kwargs=options, storer=storer, storer_kwargs=storer_kwargs).solve()
    finally:
        os.unlink(path)


def manhattan(a, b):
    return abs(a[0] - b[0]) + abs(a[1] - b[1])


PLACES = [((1, 0), (4, 2)), ((4, 3), (0, 3)), ((2, 2), (6, 2))]


def hashcode(x, m, n, algorithm="ranking-intensive", places="fixed", data=("e", "f", "steps", "bonus"), objective=None):
    R = lambda name, lo, hi, kind: x.real(name, lo, hi) if kind in data else None
    bonus = R("bonus", 0, 100, "bonus")
    steps = R("steps", 0, BIG, "steps")
    bonus, steps = 2.0 if bonus is None else bonus, 40.0 if steps is None else steps
    rides = []
    for i in range(n):
        a, b = PLACES[i]
        if places == "sym":
            a, b = [x.real(f"a{i}", 0, 20), x.real(f"b{i}", 0, 20)], [x.real(f"x{i}", 0, 20), x.real(f"y{i}", 0, 20)]
        e, f = R(f"e{i}", 0, BIG, "e"), R(f"f{i}", 0, BIG, "f")
        rides.append((list(a), list(b), 3.0 * i if e is None else e, 30.0 + i if f is None else f))
    rows = [[10.0, 10.0, m, n, bonus, steps]] + [[*(float(c) if isinstance(c, int) else c for c in (*a, *b)), e, f] for a, b, e, f in rides]
    folder = tempfile.mkdtemp(prefix="symx-judge-")
    out = pathlib.Path(folder) / "out.txt"
    try:
        result = solved(x, rows, HashCodeLoaderFormatter, algorithm, FileStorer, file_path=out, formatter_cls=HashCodeStorerFormatter)
        text = out.read_text()
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)
    # the contest's judge: follow every vehicle through its line
    lines = [line.split() for line in text.split("\n") if line.strip()]
    x.check(len(lines) <= m, "no more lines than vehicles")
    score, seen = 0, []
    for line in lines:
        count, ids = int(line[0]), line[1:]
        x.check(count == len(ids), "a line states how many rides follow")
        clock, place = 0, (0, 0)
        for r in ids:
            ok = r.isdigit() and int(r) < n and r not in seen
            x.check(ok, "a ride is one of the file's, assigned once")
            if not ok:
                continue
            seen.append(r)
            a, b, e, f = rides[int(r)]
            clock = clock + manhattan(place, a)
            early = clock <= e
            clock = core.ite(early, e, clock) if x.symbolic else max(clock, e)
            clock = clock + manhattan(a, b)
            place = b
            x.check(x.all([clock <= f + TOL, clock <= steps + TOL]), "an assigned ride finishes in time")
            score = score + manhattan(a, b)
            if bool(early):
                score = score + bonus
                x.reach("bonus")
            else:
                x.reach("no bonus")
        if len(ids) > 1:
            x.reach("two in a row")
    value = tuple(result.optimization_value)
    x.check(x.all([len(value) == 1, x.eq(value[0], score)]), "the reported value is the score by the contest's rules")
    x.check(x.eq(result.coverage_rate, len(seen) / n) if n else True, "the coverage is the share of the assigned rides")
    x.check(bool(result.feasible), "the result is feasible")
    if len(seen) < n:
        x.reach("left out")
    if not seen:
        x.reach("nothing served")
    x.reach("judged")
    x.observe("served", len(seen))
    x.observe("value", value[0])


def cordeau(x, m, n, algorithm="ranking-tail", data=("l",), depot=True):
    R = lambda name, lo, hi, kind, other: x.real(name, lo, hi) if kind in data else other
    limit = R("limit", 0, BIG, "limit", 500.0)
    cap = R("cap", 0, 10, "cap", 2.0)
    ride = R("ride", 0, BIG, "ride", 90.0)
    spots = [(0.0, 0.0), (3.0, 4.0), (6.0, 8.0), (0.0, 10.0), (9.0, 12.0), (6.0, 0.0), (0.0, 8.0)]
    # pickups first, then the deliveries
    table = [(spots[0], 0.0, 0.0, R("e0", 0, 100, "depot", 0.0), R("l0", 0, BIG, "depot", 480.0))]
    for i in range(1, 2 * n + 1):
        p = spots[i]
        d = R(f"d{i}", 0, 20, "d", 1.0)
        q = R(f"q{i}", 0, 10, "q", 1.0) if i <= n else -table[i - n][2]
        e = R(f"e{i}", 0, BIG, "e", 0.0) if i <= n else R(f"e{i}", 0, BIG, "de", 0.0)
        l = R(f"l{i}", 0, BIG, "pl", 480.0) if i <= n else R(f"l{i}", 0, BIG, "l", 480.0)
        table.append((p, d, q, e, l))
    x.assume(x.all([table[0][3] <= table[0][4], *([table[i][2] > 0 for i in range(1, n + 1)])]))
    rows = [[m, 2 * n, limit, cap, ride]] + [[float(i), *p, d, q, e, l] for i, (p, d, q, e, l) in enumerate(table)]
    result = solved(x, rows, CordeauLaporteLoaderFormatter, algorithm)
    far = lambda a, b: math.hypot(a[0] - b[0], a[1] - b[1])
    depot, seen, driven = table[0], [], 0
    x.check(len(result.routes) <= m and len({id(r.vehicle) for r in result.routes}) == len(result.routes), "each vehicle drives one route at most")
    for route in result.routes:
        ids = [t.identifier for t in route.trips]
        ok = all(i.isdigit() and 1 <= int(i) <= n and i not in seen for i in ids) and len(set(ids)) == len(ids)
        x.check(ok, "a request is one of the file's, served once")
        if not ok:
            continue
        seen += ids
        if not ids:
            continue
        times = {t.trip.identifier: t for t in route.planned_trips}
        load, ready, place, ends = 0, depot[3], depot[0], {}
        for stop in route.stops:
            events = [(int(i) + n, t.delivery.starting_time) for i, t in times.items() if t.delivery is stop]
            events += [(int(i), t.pickup.starting_time) for i, t in times.items() if t.pickup is stop]
            for row, start in events:
                p, d, q, e, l = table[row]
                x.check(start >= ready + far(place, p) - TOL, "a service starts after the drive from the place before")
                x.check(x.all([start >= e - TOL, start <= l + TOL]), "a service starts in its window")
                if row > n:
                    x.check(row - n in ends, "a request is picked up before it is delivered")
                    x.check(start - ends.get(row - n, 0) <= ride + TOL, "no ride exceeds the ride limit")
                driven = driven + far(place, p)
                load, ready, place = load + q, start + d, p
                x.check(load <= cap + TOL, "no load exceeds the capacity")
                ends[row] = ready
        driven = driven + far(place, depot[0])
        home = route.last_stop.arrival_time
        x.check(home >= ready + far(place, depot[0]) - TOL, "a vehicle gets home after the drive from its last service")
        x.check(home <= depot[4] + TOL, "a vehicle gets home within the depot's window")
        x.check(home - route.first_stop.departure_time <= limit + TOL, "no route exceeds the route limit")
        x.check(route.first_stop.departure_time >= depot[3] - TOL, "no vehicle leaves before the depot's window")
        x.check(len(ends) == 2 * len(ids), "a served request is picked up and delivered")
        if len(ids) > 1:
            x.reach("shared vehicle")
        x.reach("request")
    value = tuple(result.optimization_value)
    x.check(x.all([len(value) == 2, x.eq(value[0], len(seen)), abs(value[1] + driven) <= TOL]), "the reported value is what is served and driven")
    x.check(bool(result.feasible), "the result is feasible")
    if len(seen) < n:
        x.reach("left out")
    x.reach("judged")
    x.observe("served", len(seen))


def cases(tier):
    out = []
    deep = tier == "thorough"

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    for m, n in ((0, 1), (1, 0), (2, 1)):
        add("hashcode", f"{m}x{n}", m=m, n=n)
    add("hashcode", "1x1-places", m=1, n=1, places="sym")
    for it_ in ITERATORS:
        for st in STRATEGIES:
            add("hashcode", f"1x2-{it_}-{st}-f", m=1, n=2, algorithm=f"{it_}-{st}", data=("f", "bonus"))
    for k, d in dict(e=("e", "bonus"), f=("f",), steps=("steps", "bonus"), ends=("f", "steps")).items():
        add("hashcode", f"2x2-{k}", m=2, n=2, algorithm="ranking-tail", data=d)
        add("hashcode", f"1x2-{k}", m=1, n=2, algorithm="default", data=d)
    add("hashcode", "1x3-f", m=1, n=3, algorithm="ranking-tail", data=("f",))
    for a in ("iterative", "grasp", "reallocation", "two_opt", "one_shift"):
        add("hashcode", f"2x2-{a}", m=2, n=2, algorithm=a, data=("f", "bonus"))
        add("cordeau", f"2x2-{a}", m=2, n=2, algorithm=a, data=("l",))
    kinds = dict(l=("l",), e=("e",), d=("d", "l"), q=("q", "cap"), ride=("ride",), limit=("limit",), depot=("depot",), pl=("pl",), de=("de", "ride"))
    for k, d in kinds.items():
        add("cordeau", f"1x1-{k}", m=1, n=1, data=d)
        add("cordeau", f"1x2-{k}", m=1, n=2, algorithm="ranking-tail", data=d)
        if k not in ("de", "d", "e") or deep:
            add("cordeau", f"1x2-int-{k}", m=1, n=2, algorithm="ranking-intensive", data=d)
        if deep:
            add("cordeau", f"2x3-{k}", m=2, n=3, algorithm="ranking-tail", data=d)
    add("cordeau", "2x2-default", m=2, n=2, algorithm="default", data=("l",))
    add("cordeau", "1x2-int-de-only", m=1, n=2, algorithm="ranking-intensive", data=("de",))
    if deep:
        for it_ in ITERATORS:
            for st in STRATEGIES:
                add("cordeau", f"2x2-{it_}-{st}", m=2, n=2, algorithm=f"{it_}-{st}", data=("l", "ride"))
                add("hashcode", f"2x3-{it_}-{st}", m=2, n=3, algorithm=f"{it_}-{st}", data=("f",))
        add("hashcode", "1x2-places", m=1, n=2, algorithm="ranking-tail", places="sym", data=("f",))
        add("hashcode", "1x2-all", m=1, n=2)
    return out
