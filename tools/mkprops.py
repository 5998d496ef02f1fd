#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


M = "jinete/models/"
H = "jinete/algorithms/heuristics/"
MH = "jinete/algorithms/metaheuristics/"

prop("C01", "Stop times follow the route, also after edits",
     "Along any route a stop is reached at the departure from the preceding stop (the vehicle's earliest time for the first one) plus the travel time; service there starts at the latest of the arrival, the earliest time of every service performed there and any explicitly requested start; departure is that start plus the longest service duration there, and the waiting time is start minus arrival. The load leaving a stop is the load leaving the preceding one plus what is picked up minus what is delivered, and a stop's own window is the tightest of its services' windows. Times and loads read from a route always describe its current state, whatever was read, inserted, removed or retimed before.",
     ["inputs", "histories"], "all travel times, windows, durations, loads and requested starts; all routes and edit histories within the bounds of the check",
     "Tests build a handful of random routes and never compare the times with an independent recomputation after an edit; cached values can only go stale on particular read/edit orders.",
     [M + "stops.py", M + "routes.py", M + "planned_trips.py"],
     [("arrival/starting/departure/waiting/capacity properties", M + "stops.py"), ("cache flushing on edits", M + "routes.py insert_stop_at/remove_stop_at, " + M + "stops.py flush")],
     [("arrival_time/departure_time/capacity caches", "memoised per stop until flushed", M + "stops.py")],
     ["Stop.arrival_time, starting_time, departure_time, waiting_time, capacity, earliest, latest, load_time"])

prop("C02", "The feasibility verdict is right",
     "A route, planned trip, planning or result is reported feasible exactly when (up to the library's 0.001 tolerance) every service starts inside its own time window, every ride lasts at most the trip's limit, the load after each served stop fits the vehicle, and the vehicle starts and ends at its own depots, not before its earliest time, back by its latest time and within its maximum route duration. The verdict describes the current state of the route, whatever was read, inserted, removed or retimed before. A planning with no routes is feasible.",
     ["inputs", "histories"], "all instances (symbolic windows, durations, loads, travel times, limits) and edit histories within the bounds of the check",
     "Tests check one feasible and one infeasible random route; each constraint boundary and each read-then-edit order is a separate rare input.",
     [M + "routes.py", M + "stops.py", M + "planned_trips.py", M + "plannings.py", M + "results.py"],
     [("Route.feasible / Stop.feasible / PlannedTrip.feasible / Planning.feasible", M + "routes.py, stops.py, planned_trips.py, plannings.py"), ("ERROR_BOUND tolerance", M + "constants.py")],
     [("feasible caches", "memoised verdicts", M + "routes.py, stops.py, planned_trips.py")],
     ["Route.feasible", "PlannedTrip.feasible", "Planning.feasible", "Result.feasible"])

prop("C03", "Derived trip windows lose and add nothing",
     "The pickup and delivery windows a trip derives from its two services, the travel time and the ride-time limit never exclude a pickup/delivery start-time pair that satisfies the services' own windows, the travel time and the ride-time limit. They never extend beyond the services' own windows, and each derived bound is the tightest implied by the other service's bound.",
     ["inputs"], "all windows, durations, ride limits (finite or infinite) and travel times",
     "Tests use one trip per case with equal or zero durations at both ends, so an error in which duration is used, or in a sign, is invisible.",
     [M + "trips.py", M + "services.py"],
     [("origin_earliest, origin_latest, destination_earliest, destination_latest", M + "trips.py")])

prop("C04", "Route edits change exactly what was asked",
     "Adding a planned trip to a route puts its pickup and delivery right after their stated predecessors, pickup before delivery, keeps every other stop and trip in its previous order, and leaves each stop linked to the one before it with the depots first and last. Removing a trip removes that trip only: all other trips stay, with their pickups and deliveries and their order, and adding then removing a trip restores the route's stops, times and verdict. Adding a stop whose predecessor is not in the route is refused with the dedicated error and leaves the route unchanged.",
     ["inputs", "histories"], "all insertion positions, all trips to remove, all coincidences of positions, and all times/loads, on routes within the bounds",
     "No test calls insert/remove with anything but the tail position, and none removes a trip directly.",
     [M + "routes.py", M + "stops.py", "jinete/exceptions.py"],
     [("append_planned_trip, insert_stop, insert_stop_at, remove_stop_at, remove_trip", M + "routes.py")],
     [("stop.previous chain", "must mirror the stop list", M + "routes.py, stops.py")])

prop("C05", "Copies of routes and plannings are equal and independent",
     "Cloning a route (from any index) or deep-copying a route, planning or result yields one with the same vehicle, stops, trips, times and verdict, whose planned trips refer to its own stops. Editing the copy - inserting, removing or retiming stops in its cloned part, or anything in a full copy - never changes what the original reports, and vice versa. Instance data (vehicles, trips, services, positions, jobs, fleets) is shared, not duplicated.",
     ["inputs", "histories"], "all route contents and clone indices within the bounds, then any edit of the copy",
     "Tests only deep-copy one planning and never edit a copy and look at the original.",
     [M + "routes.py", M + "plannings.py", H + "local_search/strategies/abc.py"],
     [("RouteCloner, Route.clone, __deepcopy__", M + "routes.py")])

prop("C06", "Insertion candidates are valid extensions",
     "Every candidate route proposed for inserting a trip into a route serves exactly the route's trips plus that one, in the same relative order, with the new pickup and delivery placed at the requested positions (at the end for tail insertion; every pair of positions exactly once for intensive and, when the sample covers all pairs, for sampling insertion). When only feasible candidates are requested, each one really satisfies every constraint, and none that satisfies every constraint when each stop is served as early as possible is dropped. Proposing candidates never changes what the original route or earlier candidates report.",
     ["inputs", "histories"], "all instances, base routes, positions and option values within the bounds; any sequence of proposals on the same base route",
     "Tests check only the type or number of candidates on one example; an infeasible candidate needs a particular combination of windows and ride limits.",
     [H + "insertion/strategies/abc.py", H + "insertion/strategies/intensive.py", H + "insertion/strategies/sampling.py", H + "insertion/strategies/tail.py", "jinete/utils/random.py"],
     [("InsertionStrategy.compute and _improve_ride_times", H + "insertion/strategies/abc.py")])

prop("C07", "Insertion planning is valid and keeps what it was given",
     "The planning built by the insertion algorithm, with any of its iterators, uses each fleet vehicle at most once, serves only trips of the job and each of them at most once, and contains only feasible routes. Trips already served by an initial result stay served, by the same vehicle, and that initial result is not modified. Once a trip has been accepted into a route it is never lost again.",
     ["inputs", "histories", "configurations"], "all instances within the bounds, every iterator and criterion, with and without an initial result, any random choice",
     "Tests run one example instance with the default iterator and do not inspect the planning; two of the iterators are only constructed.",
     [H + "insertion/algorithm.py", H + "insertion/iterators/abc.py", H + "insertion/iterators/ranking.py", H + "insertion/iterators/stateless.py"],
     [("InsertionIterator._set_route / pending_trips / routes_container", H + "insertion/iterators/abc.py"), ("InsertionAlgorithm._optimize", H + "insertion/algorithm.py")])

prop("C08", "Insertion picks among the best candidates until none is left",
     "With the ranking and best-stateless iterators each insertion step picks one of the k best-scoring currently available candidate insertions under the chosen criterion, k being the configured randomized size (the best one for k=1). With every iterator, with identical vehicles and a neighbourhood that covers all trips, building from proposals restricted to feasible ones stops only when no pending trip has a feasible candidate in any vehicle's route.",
     ["inputs", "histories", "configurations"], "all candidate scores and feasibility outcomes, all k, vehicles and trips within the bounds, any random choice",
     "Tests never compare the chosen candidate with the alternatives; the selection error appears only for particular score orders across vehicles.",
     [H + "insertion/iterators/ranking.py", H + "insertion/iterators/stateless.py", H + "insertion/iterators/abc.py"],
     [("RankingInsertionIterator.__next__/_update_ranking", H + "insertion/iterators/ranking.py"), ("BestStatelessInsertionIterator.__next__", H + "insertion/iterators/stateless.py")])

prop("C09", "Local search never worsens, loses or breaks a planning",
     "Each local-search strategy, and the local-search algorithm around them, applied to a feasible planning returns a planning that is feasible, serves exactly the same trips, each once, with at most one route per vehicle and the same vehicles, and whose objective value is at least as good as before. The result passed in is not modified.",
     ["inputs", "histories"], "all feasible plannings (symbolic distances, windows, durations, loads, limits) within the bounds, every strategy",
     "Tests compare only the objective on a couple of examples; an infeasible or duplicated route needs particular successive improvements or cached verdicts.",
     [H + "local_search/algorithm.py", H + "local_search/strategies/abc.py", H + "local_search/strategies/routes/one_shift.py", H + "local_search/strategies/routes/two_opt.py", H + "local_search/strategies/plannings/reallocation.py"],
     [("2-opt, one-shift and reallocation moves", H + "local_search/strategies"), ("best-of loop", H + "local_search/algorithm.py")])

prop("C10", "Metaheuristics return the best planning they met",
     "The iterative algorithm runs the configured number of episodes, each with its own seed, and returns a planning whose objective value is the best among them; without restarts each episode starts from the best result so far. The sequential algorithm runs the given stages in order, each starting from the previous stage's result, and returns the last one's planning. Fleet, job and per-stage options reach the stages unchanged, and the GRASP algorithm applies both rules to a first-solution stage followed by a local-search stage.",
     ["inputs", "histories", "configurations"], "all objective values the stages may obtain, all numbers of episodes and stages within the bounds",
     "Tests run one random instance and only look at the result's type; the best-of choice depends on the order of the values met.",
     [MH + "iterative.py", MH + "sequential.py", MH + "grasp.py", "jinete/algorithms/abc.py"],
     [("IterativeAlgorithm._optimize, SequentialAlgorithm._optimize, GraspAlgorithm._optimize", MH)])

prop("C11", "Objective values mean what they say and rank correctly",
     "The dial-a-ride objective of a route is (number of served trips, minus the distance driven), the taxi-sharing objective the sum of ride durations of non-empty trips, and the HashCode objective the sum, over non-empty trips, of the trip distance plus its bonus when the pickup is completed exactly at its earliest time. The value of a planning or result is the componentwise sum over its routes. Choosing the best of several returns one whose value no other exceeds (first component first), ignoring missing ones.",
     ["inputs"], "all routes and plannings with symbolic distances, times and bonuses within the bounds; all value orders",
     "Tests compare one random example each with a constant or with the code's own sub-results.",
     [M + "objectives.py", M + "constants.py", M + "jobs.py", M + "results.py"],
     [("Objective.optimization_function and .best", M + "objectives.py")])

prop("C12", "Route criteria score and order routes consistently",
     "A criterion never scores an infeasible route better than a feasible one, and scores a feasible one by its definition: last departure time, mean ride duration, route duration (shortest or longest), total direct trip distance, or HashCode points. Best, sorted and n-best all follow the same score in the criterion's direction: the best is first of the sorted list, n-best is its prefix of length n, equal scores keep their given order, and missing routes are ignored by best. Sorting leaves the given list as it was unless it is asked to sort in place, which sorts the given list itself.",
     ["inputs"], "all scores, feasibility outcomes, list sizes and n within the bounds, for every criterion",
     "Tests use one random list per criterion and not every criterion has tests.",
     [M + "criterions.py", M + "constants.py"],
     [("RouteCriterion.best/sorted/nbest and each scoring", M + "criterions.py"), ("OptimizationDirection", M + "constants.py")])

prop("C13", "Distances are a metric and caching is invisible",
     "On a geometric surface the distance between two positions is the Manhattan or Euclidean distance of their coordinates, whatever was asked before: it depends only on the coordinates, is symmetric, never negative, zero exactly for equal coordinates and satisfies the triangle inequality, and travel time equals distance. Two positions are equal exactly when their coordinates are, and asking a surface for a position yields one with the requested coordinates, registering no coordinates twice.",
     ["inputs", "histories"], "all coordinates and query orders within the bounds, both metrics",
     "Tests compare two fixed points; a wrong cache key or sign shows only for particular coordinate coincidences.",
     [M + "surfaces.py", M + "positions.py", M + "constants.py", M + "services.py"],
     [("GeometricSurface.distance cache", M + "surfaces.py"), ("DistanceMetric", M + "constants.py")],
     [("cached_distance", "per-pair cache keyed by positions", M + "surfaces.py")])

prop("C14", "Every MILP solution becomes a feasible full planning",
     "For every assignment of its variables that satisfies the linear model built for an instance (and that the LP solver may hence return, with its integrality tolerance), the exact algorithm's planning serves every trip exactly once, has one route per vehicle and only feasible routes, and drives the distance the model's objective counts for the arcs used.",
     ["inputs", "configurations"], "all instance data and all satisfying assignments within the bounds",
     "The single test solves one fixed instance once, so only the one assignment CBC returns for it is ever decoded.",
     ["jinete/algorithms/exacts/models/three_index.py", "jinete/algorithms/exacts/milp.py"],
     [("constraints and _solution_to_routes", "jinete/algorithms/exacts/models/three_index.py")])

prop("C15", "The MILP model admits every feasible full planning",
     "When travel times obey the triangle inequality, every planning that serves all trips with feasible routes corresponds to an assignment satisfying the linear model built for the instance, with an objective no greater than its driven distance - whatever limits are missing (unlimited times or capacities), and wherever the vehicles' depots and the trips' positions are. So the model's optimum is never worse than any such planning.",
     ["inputs", "configurations"], "all instance data and all feasible complete plannings within the bounds",
     "The test compares one optimum with a constant; an over-tight constraint shows only on instances that need the excluded planning.",
     ["jinete/algorithms/exacts/models/three_index.py"],
     [("_uniqueness/_connectivity/_time/_feasibility constraints, _objective", "jinete/algorithms/exacts/models/three_index.py")])

prop("C16", "Cordeau-Laporte files load faithfully",
     "Loading a Cordeau-Laporte instance yields exactly the declared number of vehicles, all starting and ending at the depot with its coordinates and time window and with the declared route-duration limit and capacity, and one trip per request: number i pairs row i with row i+n and carries their coordinates, service durations, time windows, load, and the declared ride-time limit. Distances are Euclidean and the objective is dial-a-ride.",
     ["inputs"], "all numeric contents of instance files with up to the bounded number of vehicles and requests",
     "Tests load one tiny table whose repeated numbers (equal durations, depot window 0..1440) hide swapped or ignored columns.",
     ["jinete/loaders/formatters/cordeau_laporte.py", "jinete/loaders/file.py", "jinete/loaders/abc.py"],
     [("fleet, job, _build_trip", "jinete/loaders/formatters/cordeau_laporte.py"), ("FileLoader parsing", "jinete/loaders/file.py")])

prop("C17", "HashCode files load faithfully",
     "Loading a HashCode 2018 instance yields exactly the declared number of vehicles, each at (0,0), with capacity for one ride at a time and available until the declared last step, and one trip per ride line, identified by its line number from 0, with the stated start and end intersections, the declared bonus, not startable before its earliest start and to be finished by its latest finish. Distances are Manhattan and the objective is the HashCode one.",
     ["inputs"], "all numeric contents of instance files with up to the bounded number of vehicles and rides",
     "The only test constructs the formatter; nothing inspects the loaded trips.",
     ["jinete/loaders/formatters/hashcode.py", "jinete/loaders/file.py"],
     [("fleet, job, _build_trip", "jinete/loaders/formatters/hashcode.py")])

prop("C18", "HashCode output lists every served ride once, in order",
     "The HashCode-format output has one line per route (by default only for routes that serve a trip), and each line states the number of non-empty trips the route serves followed by their identifiers in pickup order. Every served ride of the planning therefore appears exactly once in the output.",
     ["inputs"], "all plannings within the bounds, with empty and non-empty trips and routes",
     "The test compares the output of one fixed instance.",
     ["jinete/storers/formatters/hashcode.py", "jinete/storers/formatters/abc.py", M + "routes.py", M + "plannings.py"],
     [("HashCodeStorerFormatter.format", "jinete/storers/formatters/hashcode.py")])

prop("C19", "The columnar report shows the planning's real figures",
     "The columnar report shows, for the planning it was given, the true number of routes, coverage rate, objective name and value, feasibility and direction, and per route its vehicle's data, each planned trip (identifier, end points, window, waiting, driving, loading and ride time, pickup and delivery times, load) and each stop (position, window, waiting, driving, loading and departure time, load), each figure under its own label.",
     ["inputs"], "all plannings with symbolic times, loads and distances within the bounds",
     "No test reads the columnar report's content.",
     ["jinete/storers/formatters/columnar.py", "jinete/storers/formatters/abc.py", M + "planned_trips.py", M + "stops.py"],
     [("ColumnarStorerFormatter.format", "jinete/storers/formatters/columnar.py")])

prop("C20", "Solving pipes the instance in and the same result out",
     "Solving builds the loader, hands its fleet and job to the algorithm, stores exactly the result the algorithm obtained - once, with every configured storer - and returns that same result. Options given for loader, algorithm, storer and dispatcher reach the corresponding component unchanged, a file storer's file contains exactly the formatted result, and a storer that prints prints exactly it.",
     ["inputs", "configurations"], "all option subsets, results and numbers of storers within the bounds",
     "Tests use one configuration and mostly check that a file exists or a type matches.",
     ["jinete/solvers.py", "jinete/dispatchers/static.py", "jinete/dispatchers/abc.py", "jinete/storers/abc.py", "jinete/storers/sets.py", "jinete/storers/file.py", "jinete/storers/prompt.py"],
     [("Solver.solve, StaticDispatcher.run, StorerSet.store, FileStorer.store", "jinete")])

prop("C21", "Services are equal exactly when their data is",
     "Two services are equal exactly when position, earliest time, latest time and duration are all equal, and a service or position never equals something else; equal services (and equal positions) have equal hashes, so that they are found again in sets and dictionaries. A deep copy of an instance entity equals the original.",
     ["inputs"], "all field values, including negative ones",
     "Tests compare two random services; unequal services that compare equal need colliding numbers.",
     [M + "services.py", M + "positions.py"],
     [("Service.__eq__/__hash__", M + "services.py"), ("GeometricPosition.__eq__/__hash__", M + "positions.py")])

prop("C22", "Index-pair sampling is valid, distinct and complete",
     "Sampling position pairs for n positions and a wanted count yields only pairs (i, j) with 0 <= i < j < n, no pair twice, exactly min(count, number of existing pairs) of them, and all existing pairs when the count covers them. Every existing pair can be drawn, and with a given random source nothing else decides the outcome.",
     ["inputs", "schedules"], "all n and counts within the bounds and every sequence of random numbers",
     "No test covers it; the global behaviour depends on the random draws.",
     ["jinete/utils/random.py", "jinete/utils/collections.py"],
     [("sample_index_pairs, ncr", "jinete/utils/random.py")])

prop("C23", "Result figures match the planning",
     "For a job with at least one trip, a result's coverage rate is the number of the job's non-empty trips its planning serves divided by the number of the job's trips, hence between 0 and 1; its completed trips are exactly those served trips. Loaded routes are exactly the routes serving some trip. A route's distance and waiting time are the sums over its stops of the distance from the place before and of the time waited; its duration is the last departure minus the first; its transit time is the sum of its trips' ride durations (service start at the delivery minus departure from the pickup). A planned trip's waiting and driving times are the sums over the stops after its pickup up to and including its delivery.",
     ["inputs"], "all plannings within the bounds with symbolic data",
     "Tests check one random result's attributes for identity only.",
     [M + "results.py", M + "plannings.py", M + "routes.py", M + "planned_trips.py"],
     [("Result.coverage_rate/completed_trips, Planning.loaded_routes, Route figures", M)])

prop("C24", "The seed decides every random choice",
     "Two runs of an algorithm on the same instance with the same seed and options, enumerating the instance's collections in the same order, make the same choices and give the same planning. Different episodes and stages that are not given a seed get one drawn from the enclosing seed.",
     ["inputs", "schedules", "configurations"], "all seeds and all pseudo-random sequences (the generator is an arbitrary function of the seed and the draw number), within the bounds",
     "Tests never run anything twice; a component that ignores its seed differs only between runs.",
     [H + "insertion/iterators/ranking.py", H + "insertion/iterators/stateless.py", H + "insertion/strategies/sampling.py", MH + "iterative.py", MH + "sequential.py"],
     [("Random(seed) in iterators, strategies and metaheuristics", "jinete/algorithms")])

prop("C25", "Rounding never turns a valid plan into a crash or another verdict",
     "With data that are arbitrary double-precision numbers, reading the times, loads and verdicts of a route never fails because of rounding: picking trips up and delivering them never makes load accounting fail or report a negative load beyond the library's tolerance (0.001), every reported time and load is within that tolerance of the exact one, a route that meets every constraint in exact arithmetic (a full vehicle, a ride exactly as long as allowed, a start exactly at the end of its window) is reported feasible, and a route reported feasible breaks no constraint by more than twice the tolerance.",
     ["inputs"], "all double-precision loads, times, windows, durations and travel times in [0, 1000] (capacities up to 10000), for the routes within the bounds of the check",
     "Tests use whole-number loads and random times, on which no sum is rounded at a boundary.",
     [M + "stops.py", M + "routes.py", M + "planned_trips.py", M + "constants.py"],
     [("Stop.capacity, Stop.feasible, PlannedTrip.feasible, Route.feasible", M), ("ERROR_BOUND", M + "constants.py")])

prop("C26", "The drawn graph shows exactly the routes",
     "The plot storer draws, once and where asked (the given file, otherwise the screen), a directed graph whose edges are exactly the legs between consecutive stops of the planning's routes and whose nodes are exactly the places those legs visit and the end points of the job's trips, each once and at its coordinates. Places where trips of the job start or end are labelled with the identifier of such a trip ('+' for a start, '-' for an end), other places carry no label; a route's own legs share one colour, which no other route's own legs have.",
     ["inputs"], "all coordinates (every way in which places may coincide) of the plannings within the bounds of the check",
     "No test covers plotting.",
     ["jinete/storers/plots/graph.py"],
     [("GraphPlotStorer._generate_nodes, _generate_edges, _generate_graph, _show_graph", "jinete/storers/plots/graph.py")])

prop("C27", "Using an instance never changes it",
     "Planning, editing routes, copying results, searching, repeating runs, building the linear model, scoring and ranking, reporting and drawing leave what they were given as it was: the fleet's vehicles and the job's trips (which objects they are, and every window, duration, capacity, working time, ride limit, bonus and place of each), the distances and times between places, the results a stage starts from, and the option dictionaries and lists handed to solvers, storers and algorithms. Editing the routes an insertion returns does not change the result it started from.",
     ["inputs", "histories"], "all data, for the operations and instance sizes within the bounds of the check",
     "Every test builds a fresh instance and fresh options for each call, so a change that leaks into shared data is never seen.",
     [M, "jinete/algorithms", "jinete/solvers.py", "jinete/storers"],
     [("InsertionIterator.__init__ (pending trips, routes), LocalSearchStrategy.__init__", H), ("kwargs handling of the metaheuristics and Solver", "jinete")])

prop("C28", "Solutions of loaded files hold by the files' own rules",
     "Solving a HashCode 2018 file and storing the result in the HashCode format gives an output that the contest's own rules accept and score as reported: when every vehicle starts at (0,0) at step 0 and drives its line's rides in turn, each ride is one of the file's and assigned once, there are no more lines than vehicles, every ride finishes by its latest finish and the last step, and the rides' distances plus the bonus for each ride that starts exactly at its earliest start add up to the result's objective value. Solving a Cordeau-Laporte file gives routes that satisfy the file's own table: each request is picked up, then delivered, once at most; services start inside their windows after the drive from the place before; loads, ride times and route durations stay within the file's limits; vehicles leave and return within the depot's window; and the objective states what is served and driven.",
     ["inputs", "configurations"], "all windows, durations, loads and limits of the files, for the file sizes and algorithms within the bounds of the check",
     "Tests check loaders, algorithms and storers apart from each other, on a few files, and never judge a solution against its file.",
     ["jinete/loaders/formatters", "jinete/algorithms", M, "jinete/storers/formatters/hashcode.py", "jinete/solvers.py"],
     [("Solver.solve from FileLoader to FileStorer", "jinete/solvers.py")])

prop("C29", "Local search takes the improvements within its reach",
     "Given a feasible planning served as early as possible: two-opt returns for every vehicle a route at least as good, by the objective, as every feasible route got by reversing a run of three or more consecutive stops between the depots; one-shift returns a strictly better planning whenever swapping two neighbouring stops (not a pickup with its own delivery) gives a feasible, strictly better one; reallocation returns a planning at least as good as every feasible one got by moving one trip to any pair of positions of another route (when it tries all pairs, that is up to 128 of them). The local-search algorithm starts every round from the best result so far and stops only after as many rounds in a row without improvement as its threshold says, so that nothing better is left within the strategy's reach.",
     ["inputs"], "all feasible plannings within the bounds, all data and the three objectives",
     "Tests check only that the result is not worse on a random instance; a search that overlooks neighbours or stops early passes them.",
     [H + "local_search/" + "algorithm.py", H + "local_search/" + "strategies"],
     [("TwoOPTLocalSearchStrategy, OneShiftLocalSearchStrategy, ReallocationLocalSearchStrategy _improve", H + "local_search/" + "strategies"), ("LocalSearchAlgorithm._optimize", H + "local_search/" + "algorithm.py")])

prop("C30", "Insertions wait and postpone when that is what it takes",
     "For a route served as early as possible whose vehicle has no limited route duration, inserting a trip at a pair of positions gives a feasible candidate whenever some choice of waiting and starting times, with the stops up to the pickup's predecessor at their times, meets every window, ride-time limit and the vehicle's latest return: pickups are postponed so that nobody rides longer than allowed while the vehicle waits. A trip given to an empty vehicle, also one with a limited route duration when only the pickup may have to be waited for, is proposed whenever any schedule at all serves it.",
     ["inputs"], "all data, positions and schedules (the other schedule is a vector of further solver variables) within the bounds",
     "Tests build no case in which postponing a pickup matters; a lost postponement only makes fewer trips fit.",
     [H + "insertion/strategies/abc.py"],
     [("InsertionStrategy._compute_one, _improve_ride_times", H + "insertion/strategies/abc.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
