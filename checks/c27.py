"""C27: using an instance never changes it."""
import contextlib
import copy
import io
import os
import pathlib
import tempfile

from checks.insertion_common import *  # noqa: F401,F403
from checks.milp_common import FakeLP, MilpAlgorithm, patched  # noqa: E402
from checks import c26, milp_common, planning_common  # noqa: E402
from jinete.algorithms import (  # noqa: E402
    GraspAlgorithm, IterativeAlgorithm, LocalSearchAlgorithm, NaiveAlgorithm, OneShiftLocalSearchStrategy,
    ReallocationLocalSearchStrategy, SequentialAlgorithm, TwoOPTLocalSearchStrategy)
from jinete.loaders import Loader  # noqa: E402
from jinete.models import HashCodeObjective, TaxiSharingObjective  # noqa: E402
from jinete.solvers import Solver  # noqa: E402
from jinete.storers import (  # noqa: E402
    ColumnarStorerFormatter, FileStorer, GraphPlotStorer, HashCodeStorerFormatter, NaiveStorer, PromptStorer, StorerSet)

PROPERTY = "C27"
BOUNDS = ("quick: up to 2 vehicles and 3 trips; route edits (two in a row), copying a result and editing the copy, insertion with the three "
          "iterators and strategies (from scratch and from an initial result), the three local searches, iterative, sequential and GRASP "
          "runs over the real stages, the linear model, every objective and criterion, every storer and formatter, and whole solves with "
          "options; which limits are symbolic differs per case; thorough: 3 trips throughout, three edits. Data in [0, 1000]")
ASSUMPTIONS = ["a name a class adds for itself (a cache) is not instance data", "the LP and drawing libraries are replaced by stand-ins"]
MUST_REACH = {"quick": ["edited", "copied", "planned", "searched", "repeated", "modelled", "scored", "reported", "drawn", "solved", "initial", "options", "apart"]}
SEARCHES = dict(reallocation=ReallocationLocalSearchStrategy, two_opt=TwoOPTLocalSearchStrategy, one_shift=OneShiftLocalSearchStrategy)


class Same:
    """What was there before: numbers by value (decided by the solver), everything else by identity."""

    def __init__(self, x, w, job, fleet, trips, vehicles, results=(), options=()):
        self.x, self.w, self.job, self.fleet, self.sets = x, w, job, fleet, (trips, vehicles)
        self.results, self.options = results, options
        self.before = self.look()

    def look(self):
        w, job, fleet = self.w, self.job, self.fleet
        out = []

        def add(label, *values):
            out.append((label, values))

        def service(who, s):
            add(f"{who} has the same service", s.position)
            add(f"{who} has the same times", s.earliest, s.latest, s.duration)
        add("the fleet has the same vehicles", *sorted(fleet.vehicles, key=id))
        add("the job has the same trips", *sorted(job.trips, key=id))
        add("the job has the same objective", type(job.objective))
        add("the given collections are the same", *sorted(self.sets[0], key=id), *sorted(self.sets[1], key=id))
        for v in w.vehicles:
            add("a vehicle has the same services", v.origin, v.destination)
            service("a vehicle", v.origin)
            service("a vehicle", v.destination)
            add("a vehicle has the same data", v.identifier, v.capacity, v.timeout, v.origin_earliest, v.origin_latest, v.origin_duration,
                v.destination_earliest, v.destination_latest, v.destination_duration)
        for t in w.trips:
            add("a trip has the same services", t.origin, t.destination)
            service("a trip", t.origin)
            service("a trip", t.destination)
            add("a trip has the same data", t.identifier, t.capacity, t.timeout, t.on_time_bonus, t.origin_earliest, t.origin_latest,
                t.origin_duration, t.destination_earliest, t.destination_latest, t.destination_duration, t.distance, t.duration(0))
        for i, p in enumerate(w.p):
            add("a position has the same coordinates", *p.coordinates)
            for q in w.p[:i]:
                add("two positions are as far apart", p.distance_to(q), q.distance_to(p), p.time_to(q, 0))
        for r in self.results:
            add("a given result has the same parts", r.algorithm, r.planning, r.computation_time, r.planning.uuid, *sorted(r.routes, key=id))
        for o in self.options:
            add("given options are the same", *flat(o))
        return out

    def check(self):
        x, after = self.x, self.look()
        x.check(len(self.before) == len(after), "the instance has the same parts")
        for (label, a), (other, b) in zip(self.before, after):
            ok = label == other and len(a) == len(b)
            x.check(ok, label)
            if ok:
                x.check(x.all([number(p) and number(q) and x.eq(p, q) if number(p) else p is q or (isinstance(p, str) and p == q)
                               for p, q in zip(a, b)]), label)


def number(v):
    return isinstance(v, (int, float, core.SymNum)) and not isinstance(v, bool)


def flat(o):
    if isinstance(o, dict):
        return [p for k in o for p in (k, *flat(o[k]))]
    if isinstance(o, (list, tuple)):
        return [len(o)] + [p for v in o for p in flat(v)]
    return [o]


def instance(x, nv, nt, kind, geometry="line", objective=DialARideObjective, pos=False):
    w, vs, ts = build(x, nv, nt, kind, geometry)
    trips, vehicles = set(ts), set(vs)
    return w, vs, ts, Job(trips, objective), Fleet(vehicles), trips, vehicles


def result_of(x, w, job, fleet, vs, ts, layout):
    return initial_result(x, job, fleet, vs, ts, layout)


def apart(x, result, given, snaps):
    """Editing what an insertion returned leaves the result it was given as it was."""
    for r in result.routes:
        for t in list(r.trips)[:1]:
            r.remove_trip(t)
        r.stops[-1].starting_time = x.real(f"req.{r.vehicle.identifier}", 0, BIG)
        r.flush()
        bool(r.feasible)
    now = [snapshot(r) for r in sorted(given.routes, key=lambda r: r.vehicle.identifier)]
    x.check(x.all([same_snapshot(x, a, b) for a, b in zip(snaps, now)]), "editing the returned result changes the given one")
    x.reach("apart")


def edits(x, n=2, kind="serve"):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 1, 2, kind, "sym")
    h = Hist(x, w, vs[0], [("P", ts[0]), ("D", ts[0])])
    same = Same(x, w, job, fleet, trips, vehicles)
    h.read(verdict=True)
    names = []
    spare = [ts[1]]
    for e in range(n):
        names.append(h.edit(f"e{e}", spare, ("append", "remove", "retime", "clone")))
    h.read(verdict=True)
    same.check()
    x.reach("edited")
    x.observe("ops", tuple(names))


def copies(x, kind):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 2, 2, kind)
    given = result_of(x, w, job, fleet, vs, ts, [[0], [1]])
    same = Same(x, w, job, fleet, trips, vehicles, [given])
    twin = copy.deepcopy(given)
    route = next(r for r in twin.routes if ts[0] in set(r.trips))
    route.remove_trip(ts[0])
    other = next(r for r in twin.routes if r is not route)
    other.stops[1].starting_time = x.real("req", 0, BIG)
    other.flush()
    bool(twin.feasible), twin.coverage_rate, twin.optimization_value
    same.check()
    x.reach("copied")
    x.observe("served", len(list(twin.planning.trips)))


def insertion(x, iterator, strategy, kind, nt=2, layout=None, geometry="line"):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 2, nt, kind, geometry)
    initial = None if layout is None else result_of(x, w, job, fleet, vs, ts, layout)
    snaps = [snapshot(r) for r in sorted(initial.routes, key=lambda r: r.vehicle.identifier)] if initial else []
    options = {} if iterator == "stateless" else dict(randomized_size=1)
    same = Same(x, w, job, fleet, trips, vehicles, [initial] if initial else [], [options])
    result, _ = run(x, job, fleet, iterator, strategy, initial, **options)
    same.check()
    if initial:
        now = [snapshot(r) for r in sorted(initial.routes, key=lambda r: r.vehicle.identifier)]
        x.check(x.all([same_snapshot(x, a, b) for a, b in zip(snaps, now)]), "a given result reports the same")
        x.reach("initial")
        apart(x, result, initial, snaps)
        same.check()
    x.reach("planned")
    x.observe("served", len(list(result.planning.trips)))


def search(x, strategy, kind):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 2, 2, kind)
    given = result_of(x, w, job, fleet, vs, ts, [[0, 1], []])
    snaps = [snapshot(r) for r in sorted(given.routes, key=lambda r: r.vehicle.identifier)]
    same = Same(x, w, job, fleet, trips, vehicles, [given])
    result = LocalSearchAlgorithm(initial=given, strategy_cls=SEARCHES[strategy], fleet=fleet, job=job).optimize()
    same.check()
    now = [snapshot(r) for r in sorted(given.routes, key=lambda r: r.vehicle.identifier)]
    x.check(x.all([same_snapshot(x, a, b) for a, b in zip(snaps, now)]), "a given result reports the same")
    x.reach("searched")
    x.observe("routes", len(result.routes))


def repeated(x, which, kind):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 2, 2, kind)
    ins = dict(strategy_cls=TailInsertionStrategy)
    if which == "iterative":
        options = [ins]
        make = lambda: IterativeAlgorithm(episodes=2, seed=3, fleet=fleet, job=job, **ins)
    elif which == "sequential":
        options = [[(InsertionAlgorithm, ins), (LocalSearchAlgorithm, {})]]
        make = lambda: SequentialAlgorithm(algorithms_cls=options[0], seed=3, fleet=fleet, job=job)
    else:
        options = [dict(ins, episodes=1), dict(algorithms_cls=[(LocalSearchAlgorithm, {})])]
        make = lambda: GraspAlgorithm(seed=3, episodes=1, fleet=fleet, job=job, first_solution_kwargs=options[0], local_search_kwargs=options[1])
    same = Same(x, w, job, fleet, trips, vehicles, options=options)
    result = make().optimize()
    same.check()
    x.reach("repeated")
    x.observe("served", len(list(result.planning.trips)))


def model(x, nv, nt, kind, geometry):
    w = milp_common.build(x, nv, nt, kind, geometry=geometry)
    trips, vehicles = set(w.trips), set(w.vehicles)
    job, fleet = Job(trips, DialARideObjective), Fleet(vehicles)
    same = Same(x, w, job, fleet, trips, vehicles)
    with patched(FakeLP(x, "any", None)):
        result = MilpAlgorithm(fleet=fleet, job=job).optimize()
    same.check()
    x.reach("modelled")
    x.observe("routes", len(result.routes))


def score(x, objective, criterion, data):
    w, given, shown = planning_common.build(x, [[("P", 0), ("D", 0)], [("P", 1), ("D", 1)]], getattr(planning_common, data), objective=objective,
                                            vehicle=dict(earliest="sym", latest=INF, capacity="sym", timeout=INF))
    if criterion == "HashCodeRouteCriterion" or objective == "hashcode":
        x.assume(x.all([t.capacity > 0 for t in w.trips]))
    same = Same(x, w, given.job, given.fleet, given.job.trips, given.fleet.vehicles, [given])
    routes = [r for r, _ in shown]
    listed = list(routes)
    c = getattr(criterions, criterion)()
    c.best(*routes), c.sorted(routes), c.nbest(1, routes), [c.scoring(r) for r in routes]
    x.check(len(routes) == len(listed) and all(a is b for a, b in zip(routes, listed)), "the ranked list keeps its order")
    o = given.job.objective
    o.best(*routes), given.optimization_value, o.optimization_function(given.planning)
    same.check()
    x.reach("scored")
    x.observe("routes", len(routes))


def report(x, how, data="LIGHT", pending=1, remove=None):
    w, given, shown = planning_common.build(x, [[("P", 0), ("D", 0)], []], getattr(planning_common, data), pending=pending, objective="hashcode")
    snaps = [snapshot(r) for r, _ in shown]
    options = {} if remove is None else dict(remove_empty_routes=remove)
    same = Same(x, w, given.job, given.fleet, given.job.trips, given.fleet.vehicles, [given], [options])
    folder = tempfile.mkdtemp(prefix="symx-keep-")
    path = pathlib.Path(folder) / "out.txt"

    class ToFile(FileStorer):
        def __init__(self, *a, **k):
            super().__init__(path, *a, **k)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for F in (ColumnarStorerFormatter, HashCodeStorerFormatter):
                if how == "format":
                    F(result=given, **options).format()
                elif how == "file":
                    FileStorer(file_path=path, result=given, formatter_cls=F).store()
                elif how == "prompt":
                    PromptStorer(result=given, formatter_cls=F).store()
                elif how == "set":
                    StorerSet({ToFile, PromptStorer, NaiveStorer}, result=given, formatter_cls=F).store()
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)
    same.check()
    x.check(x.all([same_snapshot(x, a, snapshot(r)) for a, (r, _) in zip(snaps, shown)]), "a given result reports the same")
    x.reach("reported")
    x.observe("served", given.coverage_rate)


def draw(x):
    w, given, shown = planning_common.build(x, [[("P", 0), ("D", 0)], [("P", 1), ("D", 1)], []], planning_common.LIGHT, pending=1)
    same = Same(x, w, given.job, given.fleet, given.job.trips, given.fleet.vehicles, [given])
    with c26.recorded():
        GraphPlotStorer(result=given, file_path="/nowhere/graph.png").store()
    same.check()
    x.reach("drawn")
    x.observe("served", given.coverage_rate)


def solve(x, algorithm, kind):
    w, vs, ts, job, fleet, trips, vehicles = instance(x, 2, 2, kind)

    class Here(Loader):
        def __init__(self, *args, **kwargs):
            super().__init__()
        _data = None
        fleet = property(lambda self: fleet_)
        job = property(lambda self: job_)
        surface = property(lambda self: w.surface)
    fleet_, job_ = fleet, job
    ins = dict(strategy_cls=TailInsertionStrategy)
    akw = dict(insertion=ins, iterative=dict(ins, episodes=2), naive={},
               sequential=dict(algorithms_cls=[(InsertionAlgorithm, dict(ins)), (LocalSearchAlgorithm, {})]))[algorithm]
    cls = dict(insertion=InsertionAlgorithm, iterative=IterativeAlgorithm, naive=NaiveAlgorithm, sequential=SequentialAlgorithm)[algorithm]
    options = [dict(), akw, dict(formatter_cls=ColumnarStorerFormatter), dict()]
    same = Same(x, w, job, fleet, trips, vehicles, options=options)
    with contextlib.redirect_stdout(io.StringIO()):
        result = Solver(loader=Here, loader_kwargs=options[0], algorithm=cls, algorithm_kwargs=options[1], storer=PromptStorer,
                        storer_kwargs=options[2], dispatcher_kwargs=options[3]).solve()
    same.check()
    x.reach("solved")
    x.reach("options")
    x.observe("served", len(list(result.planning.trips)))


def cases(tier):
    out = []
    deep = tier == "thorough"

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    add("edits", "two", n=3 if deep else 2)
    add("edits", "ride", n=1, kind="ride")
    add("edits", "wait", n=1, kind="wait")
    for k in KINDS:
        add("copies", k, kind=k)
    for it_ in ITERATORS:
        for st in STRATEGIES:
            add("insertion", f"{it_}-{st}", iterator=it_, strategy=st, kind="late")
        add("insertion", f"{it_}-initial", iterator=it_, strategy="tail", kind="span", nt=3, layout=[[0], []])
        for k in ("work", "load", "ride", "serve"):
            add("insertion", f"{it_}-initial-{k}", iterator=it_, strategy="tail", kind=k, nt=2, layout=[[0], []])
        add("insertion", f"{it_}-given", iterator=it_, strategy="tail", kind="wait", nt=2, layout=[[0], None])
        if deep:
            for k in KINDS:
                add("insertion", f"{it_}-{k}", iterator=it_, strategy="tail", kind=k, nt=3)
    for k in KINDS:
        add("insertion", f"kind-{k}", iterator="ranking", strategy="intensive", kind=k)
    for st in SEARCHES:
        for k in ("late", "span", "work") + (("wait", "ride", "load", "serve") if deep else ()):
            add("search", f"{st}-{k}", strategy=st, kind=k)
    for m in ("iterative", "sequential", "grasp"):
        add("repeated", m, which=m, kind="span")
        add("repeated", f"{m}-late", which=m, kind="late")
    for k in ("late", "load", "ride", "dur", "day"):
        add("model", f"1x1-{k}", nv=1, nt=1, kind=k, geometry="line")
    add("model", "2x1", nv=2, nt=1, kind="late", geometry="line")
    add("model", "1x2", nv=1, nt=2, kind="late", geometry="line")
    crits = sorted(n for n in vars(criterions) if n.endswith("RouteCriterion") and n != "RouteCriterion")
    for o in ("ride", "taxi", "hashcode"):
        add("score", o, objective=o, criterion=crits[0], data="LIGHT")
    for c in crits:
        add("score", c, objective="ride", criterion=c, data="LIGHT")
    for how in ("format", "file", "prompt", "set"):
        add("report", how, how=how)
    add("report", "format-all", how="format", remove=False)
    add("report", "format-timed", how="format", data="TIMED", remove=True)
    add("draw", "three")
    for a in ("insertion", "iterative", "sequential", "naive"):
        add("solve", a, algorithm=a, kind="span")
    return out
