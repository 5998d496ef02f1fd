From ad54d36d46867c6d50ee425ad81cc342598d8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 01/27] fix: derive a trip's pickup window with the pickup
 duration, not the delivery's

---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 58fe5fbabd0837b16b08681d96038212b7700669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 02/27] fix: report a planning without routes as feasible
 instead of raising TypeError

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From bbc923a8e365a075e1789afedf8fadcbdaadae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 03/27] fix: drop a stop's cached verdict together with its
 cached times

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From b5eea8adb90f360c0011be4eefb765d85129442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 04/27] fix: drop a route's cached verdict when a stop is
 inserted or removed

---
 jinete/models/routes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..1c019d2 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,6 +251,7 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From e2bd33b737b1cf5b17828c7737b493ed0601437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 05/27] fix: keep the other trips of a shared stop when
 removing one of them

---
 jinete/models/routes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 1c019d2..6377106 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -286,15 +286,20 @@ class Route(Model):
 
     def remove_trip(self, trip: Trip) -> None:
 
-        old_len = len(self.stops)
-
         for i in reversed(range(len(self.stops))):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
-            self.remove_stop_at(i)
+            if all(other == trip for other in stop.trips):
+                self.remove_stop_at(i)
+                continue
+            stop.pickup_planned_trips = set(pt for pt in stop.pickup_planned_trips if pt.trip != trip)
+            stop.delivery_planned_trips = set(pt for pt in stop.delivery_planned_trips if pt.trip != trip)
+            self.__dict__.pop("feasible", None)
+            for following in self.stops[i:]:
+                following.flush()
 
-        assert old_len - 2 == len(self.stops)
+        assert trip not in self.trips
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
-- 
2.43.0


From 36ccc9fa0b0e83f5db6aa816292f8f3443a939d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 06/27] fix: do not delay the given route's depot departure
 while proposing insertions

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..526bd01 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -55,7 +55,8 @@ class InsertionStrategy(object):
         return routes
 
     def _compute_one(self, route: Route, trip: Trip, previous_idx: int, following_idx: int, *args, **kwargs) -> Route:
-        cloner = RouteCloner(route, previous_idx + 1)
+        # The departure from the depot may be delayed if there is time to wait, so the first stop can't be shared then.
+        cloner = RouteCloner(route, previous_idx + 1 if route.stops[1].waiting_time == 0 else 0)
         route = cloner.clone()
 
         pickup = self._build_pickup(route, trip, previous_idx)
-- 
2.43.0


From 4399c077045e3ed048156ba46773be0f14320a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 07/27] fix: recompute the depot departure when a trip is
 inserted before the first stop

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 526bd01..e83d883 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -58,6 +58,9 @@ class InsertionStrategy(object):
         # The departure from the depot may be delayed if there is time to wait, so the first stop can't be shared then.
         cloner = RouteCloner(route, previous_idx + 1 if route.stops[1].waiting_time == 0 else 0)
         route = cloner.clone()
+        if cloner.idx == 0:
+            # A delay chosen for the previous second stop may be too long for the new one.
+            route.stops[0].starting_time = None
 
         pickup = self._build_pickup(route, trip, previous_idx)
         delivery = self._build_delivery(route, trip, previous_idx, following_idx, pickup)
-- 
2.43.0


From ee347523c2ab4768821788a8b7dd85b7f6f8302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 08/27] fix: build insertions on the current routes and always
 offer an empty one

---
 .../heuristics/insertion/iterators/abc.py         | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..2c87edf 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,6 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +91,12 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
-
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
-            empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
-            if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+        attractive_routes = set(route for route in self.routes_container.values() if any(route.planned_trips))
+
+        empty_route = next((route for route in self.routes_container.values() if not any(route.planned_trips)), None)
+        if empty_route is not None:
+            attractive_routes.add(empty_route)
+        return attractive_routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From 1a4a5f26e46575e2df5bf2b25682c6e8031ba824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 09/27] fix: pass the candidates to nbest as one iterable in
 the best stateless iterator

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 9c44da7fc06d637cb9cf4a30a7dd7e1e99cfff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 10/27] fix: rank the candidates of all vehicles together in
 the ranking iterator

---
 .../heuristics/insertion/iterators/ranking.py | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..14002c5 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -78,24 +78,10 @@ class RankingInsertionIterator(InsertionIterator):
         if not any(self.ranking):
             raise StopIteration
 
-        candidates = list()
-        for sub_ranking in self.ranking.values():
-            if not any(sub_ranking):
-                continue
-
-            for current in sub_ranking:
-                if (
-                    len(candidates) == self.randomized_size
-                    and self._criterion.best(candidates[-1], current) == candidates[-1]
-                ):
-                    break
-
-                if self.randomized_size <= len(candidates):
-                    candidates.pop()
-
-                candidates.append(current)
-
-            self._criterion.sorted(candidates, inplace=True)
+        candidates = self._criterion.nbest(
+            self.randomized_size,
+            it.chain.from_iterable(sub_ranking[: self.randomized_size] for sub_ranking in self.ranking.values()),
+        )
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 8f1269c796e1fe95acee94e0ffc200b796feb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 11/27] fix: drop all cached times and the verdict when
 one-shift swaps two stops

---
 .../heuristics/local_search/strategies/routes/one_shift.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From c924709850ff8cc7bb659cdf772e5663a326eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 12/27] fix: keep one improved route per vehicle in two-opt

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..1ac1cdf 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From ada168b7329726901f0424145b3a63df222f485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 13/27] fix: compare services by their data instead of by their
 hashes

---
 jinete/models/services.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..2ef9d82 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,9 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        if not isinstance(other, Service):
+            return NotImplemented
+        return tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From eee3f62f586ab0ddced4f8dc2d75fb3ad416bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 14/27] fix: use the delivery's own duration and window in the
 linear model

---
 jinete/algorithms/exacts/models/three_index.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..ee2ea2c 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -191,16 +191,13 @@ class ThreeIndexLinearModel(LinearModel):
         return self._positions.index(position)
 
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
@@ -218,7 +215,7 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
-        return trip.origin_duration
+        return trip.origin_duration if idx in self._pickups_indexer else trip.destination_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
-- 
2.43.0


From f85092b3059bbfc3e28af9bcc6ae0d150eb9a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 15/27] fix: forbid impossible arcs in the linear model instead
 of pricing them

---
 jinete/algorithms/exacts/models/three_index.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index ee2ea2c..412b823 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -46,8 +46,6 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
-BIG = 10000
-
 
 class ThreeIndexLinearModel(LinearModel):
     """Three index model class implementation.
@@ -102,7 +100,9 @@ class ThreeIndexLinearModel(LinearModel):
             for i in self._positions_indexer:
                 x_ki = list()
                 for j in self._positions_indexer:
-                    x_kij = lp.LpVariable(f"x_{k}_{i}_{j}", cat=lp.LpBinary)
+                    # Nothing goes back to the first position, leaves the last one or stays where it is.
+                    possible = i != j and j != 0 and i != len(self._positions) - 1
+                    x_kij = lp.LpVariable(f"x_{k}_{i}_{j}", lowBound=0, upBound=int(possible), cat=lp.LpInteger)
                     x_ki.append(x_kij)
                 x_k.append(x_ki)
             x.append(x_k)
@@ -154,11 +154,7 @@ class ThreeIndexLinearModel(LinearModel):
         for origin in self._positions:
             origin_costs = list()
             for destination in self._positions:
-                if origin == destination:
-                    cost = BIG
-                else:
-                    cost = origin.distance_to(destination)
-                origin_costs.append(cost)
+                origin_costs.append(origin.distance_to(destination))
             costs.append(origin_costs)
         return costs
 
-- 
2.43.0


From de23c150d5876cbfb5c51b73b425b7b8898dae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 16/27] fix: give each vehicle its own depots and working time
 in the linear model

---
 .../algorithms/exacts/models/three_index.py   | 53 +++++++++----------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 412b823..7b781d2 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -73,7 +73,7 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _objective(self) -> Optional[lp.LpConstraintVar]:
         return lp.lpSum(
-            self._x[k][i][j] * self._costs[i][j]
+            self._x[k][i][j] * self._costs[k][i][j]
             for k, i, j in product(self._routes_indexer, self._positions_indexer, self._positions_indexer)
         )
 
@@ -101,7 +101,7 @@ class ThreeIndexLinearModel(LinearModel):
                 x_ki = list()
                 for j in self._positions_indexer:
                     # Nothing goes back to the first position, leaves the last one or stays where it is.
-                    possible = i != j and j != 0 and i != len(self._positions) - 1
+                    possible = i != j and j != 0 and i != self._n * 2 + 1
                     x_kij = lp.LpVariable(f"x_{k}_{i}_{j}", lowBound=0, upBound=int(possible), cat=lp.LpInteger)
                     x_ki.append(x_kij)
                 x_k.append(x_ki)
@@ -139,23 +139,22 @@ class ThreeIndexLinearModel(LinearModel):
         return tuple(self.job.trips)
 
     @cached_property
-    def _positions(self) -> Tuple[Position, ...]:
+    def _positions(self) -> List[Tuple[Position, ...]]:
         origins = tuple(trip.origin_position for trip in self._trips)
         destinations = tuple(trip.destination_position for trip in self._trips)
-        positions = (
-            (self._vehicles[0].origin_position,) + origins + destinations + (self._vehicles[0].destination_position,)
-        )
-
-        return positions
+        return [
+            (vehicle.origin_position,) + origins + destinations + (vehicle.destination_position,)
+            for vehicle in self._vehicles
+        ]
 
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
-            origin_costs = list()
-            for destination in self._positions:
-                origin_costs.append(origin.distance_to(destination))
-            costs.append(origin_costs)
+        for positions in self._positions:
+            vehicle_costs = list()
+            for origin in positions:
+                vehicle_costs.append([origin.distance_to(destination) for destination in positions])
+            costs.append(vehicle_costs)
         return costs
 
     @property
@@ -172,24 +171,24 @@ class ThreeIndexLinearModel(LinearModel):
 
     @property
     def _positions_indexer(self) -> Iterable[int]:
-        return range(len(self._positions))
+        return range(self._n * 2 + 2)
 
     @property
     def _n(self) -> int:
         return len(self._trips)
 
     def _trip_by_position_idx(self, idx: int) -> Optional[Trip]:
-        if idx in (0, len(self._positions) - 1):
+        if idx in (0, self._n * 2 + 1):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
+    def _idx_by_position(self, k: int, position: Position):
+        return self._positions[k].index(position)
 
-    def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
+    def _time_window_by_position_idx(self, k: int, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
-            earliest, latest = 0, 1440
+            earliest, latest = self._vehicles[k].origin_earliest, self._vehicles[k].destination_latest
         elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
         else:
@@ -202,7 +201,7 @@ class ThreeIndexLinearModel(LinearModel):
             return 0
 
         capacity = trip.capacity
-        if not idx < len(self._positions) / 2:
+        if idx not in self._pickups_indexer:
             capacity *= -1
 
         return capacity
@@ -261,10 +260,10 @@ class ThreeIndexLinearModel(LinearModel):
         for k in self._routes_indexer:
             for i, j in product(self._positions_indexer, self._positions_indexer):
                 load_time_i = self._load_time_by_position_idx(i)
-                travel_time = self._positions[i].time_to(self._positions[j])
+                travel_time = self._positions[k][i].time_to(self._positions[k][j])
 
-                earliest_i, latest_i = self._time_window_by_position_idx(i)
-                earliest_j, latest_j = self._time_window_by_position_idx(j)
+                earliest_i, latest_i = self._time_window_by_position_idx(k, i)
+                earliest_j, latest_j = self._time_window_by_position_idx(k, j)
 
                 cons = max(0, latest_i + load_time_i + travel_time - earliest_j)
 
@@ -289,14 +288,14 @@ class ThreeIndexLinearModel(LinearModel):
             constraints.append(constraint)
 
             for i in self._positions_indexer:
-                earliest, latest = self._time_window_by_position_idx(i)
+                earliest, latest = self._time_window_by_position_idx(k, i)
 
                 constraints.extend([earliest <= self._u[k][i], self._u[k][i] <= latest])
 
             for i in self._pickups_indexer:
                 load_time = self._load_time_by_position_idx(i)
                 timeout = self._timeout_by_position_idx(i)
-                travel_time = self._positions[i].time_to(self._positions[i + self._n])
+                travel_time = self._positions[k][i].time_to(self._positions[k][i + self._n])
 
                 constraints.extend(
                     [
@@ -417,7 +416,7 @@ class ThreeIndexLinearModel(LinearModel):
         for i, j in product(ordered_trip_indexes, self._positions_indexer):
             if not int(self._x[k][i][j].varValue) == 1:
                 continue
-            positions.append(self._positions[i])
+            positions.append(self._positions[k][i])
         return positions
 
     @staticmethod
@@ -441,4 +440,4 @@ class ThreeIndexLinearModel(LinearModel):
         starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
         for stop in stops:
             stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
+            stop.starting_time = starting_times[self._idx_by_position(k, stop.position)]
-- 
2.43.0


From 3229024a57fcf3c9bf29715a4f89307ce9c058f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 17/27] fix: only bind the load of the trips that a vehicle
 serves in the linear model

---
 jinete/algorithms/exacts/models/three_index.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 7b781d2..32773d9 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -271,10 +271,9 @@ class ThreeIndexLinearModel(LinearModel):
                     self._u[k][j] >= self._u[k][i] + load_time_i + travel_time - cons * (1 - self._x[k][i][j]),
                 )
 
-                capacity_i = self._capacity_by_position_idx(i)
                 capacity_j = self._capacity_by_position_idx(j)
 
-                cons = self._vehicles[k].capacity + min(0.0, capacity_i)
+                cons = self._vehicles[k].capacity + max(0.0, capacity_j)
 
                 constraints.append(self._w[k][j] >= self._w[k][i] + capacity_j - cons * (1 - self._x[k][i][j]),)
 
@@ -306,11 +305,12 @@ class ThreeIndexLinearModel(LinearModel):
 
             for i in self._positions_indexer:
                 capacity = self._capacity_by_position_idx(i)
+                served = lp.lpSum(self._x[k][i][j] for j in self._positions_indexer)
 
                 constraints.extend(
                     [
-                        max(0.0, capacity) <= self._w[k][i],
-                        self._w[k][i] <= self._vehicles[k].capacity + min(0.0, capacity),
+                        max(0.0, capacity) * served <= self._w[k][i],
+                        self._w[k][i] <= self._vehicles[k].capacity + min(0.0, capacity) * served,
                     ]
                 )
 
-- 
2.43.0


From c656fd3ef0b4e38efcc9ecdff4142f625d04f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 18/27] fix: accept unlimited times and capacities in the
 linear model

---
 .../algorithms/exacts/models/three_index.py   | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 32773d9..c687d83 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -20,6 +20,7 @@ from cached_property import (
     cached_property,
 )
 from jinete.models import (
+    MAX_FLOAT,
     PlannedTrip,
     Route,
     Stop,
@@ -218,6 +219,21 @@ class ThreeIndexLinearModel(LinearModel):
             return 0
         return trip.timeout
 
+    @cached_property
+    def _horizon(self) -> float:
+        """Time until which any feasible planning can be completed, also if nothing has to be finished at any time."""
+        horizon = 0.0
+        for k in self._routes_indexer:
+            current = max(self._time_window_by_position_idx(k, i)[0] for i in self._positions_indexer)
+            for i in self._positions_indexer:
+                travel_time = max(self._positions[k][i].time_to(position) for position in self._positions[k])
+                current += self._load_time_by_position_idx(i) + travel_time
+            horizon = max(horizon, current)
+        return horizon
+
+    def _capacity_by_vehicle_idx(self, k: int) -> float:
+        return min(self._vehicles[k].capacity, sum(trip.capacity for trip in self._trips))
+
     @cached_property
     def _uniqueness_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
@@ -262,8 +278,8 @@ class ThreeIndexLinearModel(LinearModel):
                 load_time_i = self._load_time_by_position_idx(i)
                 travel_time = self._positions[k][i].time_to(self._positions[k][j])
 
-                earliest_i, latest_i = self._time_window_by_position_idx(k, i)
-                earliest_j, latest_j = self._time_window_by_position_idx(k, j)
+                latest_i = min(self._time_window_by_position_idx(k, i)[1], self._horizon)
+                earliest_j, _ = self._time_window_by_position_idx(k, j)
 
                 cons = max(0, latest_i + load_time_i + travel_time - earliest_j)
 
@@ -273,7 +289,7 @@ class ThreeIndexLinearModel(LinearModel):
 
                 capacity_j = self._capacity_by_position_idx(j)
 
-                cons = self._vehicles[k].capacity + max(0.0, capacity_j)
+                cons = self._capacity_by_vehicle_idx(k) + max(0.0, capacity_j)
 
                 constraints.append(self._w[k][j] >= self._w[k][i] + capacity_j - cons * (1 - self._x[k][i][j]),)
 
@@ -283,25 +299,23 @@ class ThreeIndexLinearModel(LinearModel):
     def _feasibility_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
         for k in self._routes_indexer:
-            constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
-            constraints.append(constraint)
+            if self._vehicles[k].timeout != MAX_FLOAT:
+                constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
+                constraints.append(constraint)
 
             for i in self._positions_indexer:
                 earliest, latest = self._time_window_by_position_idx(k, i)
 
-                constraints.extend([earliest <= self._u[k][i], self._u[k][i] <= latest])
+                constraints.extend([earliest <= self._u[k][i], self._u[k][i] <= min(latest, self._horizon)])
 
             for i in self._pickups_indexer:
                 load_time = self._load_time_by_position_idx(i)
                 timeout = self._timeout_by_position_idx(i)
                 travel_time = self._positions[k][i].time_to(self._positions[k][i + self._n])
 
-                constraints.extend(
-                    [
-                        travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time),
-                        self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout,
-                    ]
-                )
+                constraints.append(travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time))
+                if timeout != MAX_FLOAT:
+                    constraints.append(self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout)
 
             for i in self._positions_indexer:
                 capacity = self._capacity_by_position_idx(i)
@@ -310,7 +324,7 @@ class ThreeIndexLinearModel(LinearModel):
                 constraints.extend(
                     [
                         max(0.0, capacity) * served <= self._w[k][i],
-                        self._w[k][i] <= self._vehicles[k].capacity + min(0.0, capacity) * served,
+                        self._w[k][i] <= self._capacity_by_vehicle_idx(k) + min(0.0, capacity) * served,
                     ]
                 )
 
-- 
2.43.0


From eaa73df07b8c2a8c1c0f8361c248c1df4e0772ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 19/27] fix: read the routes of the linear model's solution arc
 by arc

---
 .../algorithms/exacts/models/three_index.py   | 81 +++++--------------
 1 file changed, 22 insertions(+), 59 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index c687d83..3c1f21a 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -183,9 +180,6 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, k: int, position: Position):
-        return self._positions[k].index(position)
-
     def _time_window_by_position_idx(self, k: int, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
@@ -388,70 +382,39 @@ class ThreeIndexLinearModel(LinearModel):
             vehicle = self._vehicles[k]
             route = Route(vehicle)
 
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
+            nodes = self._solution_to_nodes(k)
+            stops = self._nodes_to_stops(route, nodes, k)
 
-            self._build_planned_trips(vehicle, trips, stops)
+            self._build_planned_trips(vehicle, stops)
             self._adjust_waiting_times(stops, k)
 
-            for stop in stops:
+            for stop in stops.values():
                 route.insert_stop(stop)
 
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
+    def _solution_to_nodes(self, k: int) -> List[int]:
+        nodes = [0]
+        while nodes[-1] != self._n * 2 + 1:
+            nodes.append(next(j for j in self._positions_indexer if round(self._x[k][nodes[-1]][j].varValue) == 1))
+        return nodes[:-1]
 
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
+    def _nodes_to_stops(self, route: Route, nodes: List[int], k: int) -> Dict[int, Stop]:
+        stops = {0: route.first_stop}
+        for previous, node in zip(nodes[:-1], nodes[1:]):
+            stops[node] = Stop(route.vehicle, self._positions[k][node], stops[previous])
+        return stops
 
+    def _build_planned_trips(self, vehicle: Vehicle, stops: Dict[int, Stop]) -> List[PlannedTrip]:
         planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
+        for i in self._pickups_indexer:
+            if i not in stops:
+                continue
+            planned_trip = PlannedTrip(vehicle, self._trip_by_position_idx(i), stops[i], stops[i + self._n])
             planned_trips.append(planned_trip)
         return planned_trips
 
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
-
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[k][i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
-        return stops
-
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(k, stop.position)]
+    def _adjust_waiting_times(self, stops: Dict[int, Stop], k: int):
+        for i, stop in stops.items():
+            stop.starting_time = float(self._u[k][i].varValue)
-- 
2.43.0


From e8d6db253a944c9157f409d6496268b0365db1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 20/27] fix: keep the order of the stops without duration
 between them in the linear model

---
 jinete/algorithms/exacts/models/three_index.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 3c1f21a..d0aae94 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -128,6 +128,14 @@ class ThreeIndexLinearModel(LinearModel):
             w.append(w_k)
         return w
 
+    @cached_property
+    def _order(self) -> List[List[lp.LpVariable]]:
+        size = len(self._positions_indexer)
+        return [
+            [lp.LpVariable(f"order_{k}_{i}", lowBound=0.0, upBound=size - 1) for i in self._positions_indexer]
+            for k in self._routes_indexer
+        ]
+
     @cached_property
     def _vehicles(self) -> Tuple[Vehicle, ...]:
         return tuple(self.fleet.vehicles)
@@ -281,6 +289,12 @@ class ThreeIndexLinearModel(LinearModel):
                     self._u[k][j] >= self._u[k][i] + load_time_i + travel_time - cons * (1 - self._x[k][i][j]),
                 )
 
+                if load_time_i + travel_time == 0:
+                    size = len(self._positions_indexer)
+                    constraints.append(
+                        self._order[k][j] >= self._order[k][i] + 1 - size * (1 - self._x[k][i][j]),
+                    )
+
                 capacity_j = self._capacity_by_position_idx(j)
 
                 cons = self._capacity_by_vehicle_idx(k) + max(0.0, capacity_j)
@@ -308,6 +322,8 @@ class ThreeIndexLinearModel(LinearModel):
                 travel_time = self._positions[k][i].time_to(self._positions[k][i + self._n])
 
                 constraints.append(travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time))
+                if load_time + travel_time == 0:
+                    constraints.append(self._order[k][i + self._n] >= self._order[k][i])
                 if timeout != MAX_FLOAT:
                     constraints.append(self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout)
 
-- 
2.43.0


From 8b6b382dd868a073f2f3a14fdbf02047ecbabd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 21/27] fix: load the depot's time window from Cordeau-Laporte
 files

---
 jinete/loaders/formatters/cordeau_laporte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/loaders/formatters/cordeau_laporte.py b/jinete/loaders/formatters/cordeau_laporte.py
index 8876498..6b9062d 100644
--- a/jinete/loaders/formatters/cordeau_laporte.py
+++ b/jinete/loaders/formatters/cordeau_laporte.py
@@ -46,7 +46,7 @@ class CordeauLaporteLoaderFormatter(LoaderFormatter):
         depot_row = self.data[1]
         depot_position = surface.get_or_create_position(depot_row[1:3])
 
-        origin = Service(depot_position)
+        origin = Service(depot_position, earliest=depot_row[5], latest=depot_row[6])
 
         capacity = row[3]
         timeout = row[2]
-- 
2.43.0


From 7647ae7bed3979bf23d4eafb788240f799ffcd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 22/27] fix: bound the delivery by a ride's latest finish in
 HashCode files

---
 jinete/loaders/formatters/hashcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..56eec81 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -70,8 +70,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         earliest: float,
         latest: float,
     ) -> Trip:
-        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest,)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest,)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From e0f1ef62cea6a36d65cc746b51cca32e9a558819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:04 +0000
Subject: [PATCH 23/27] fix: draw the seed of GRASP's episodes from its own
 seed

---
 jinete/algorithms/metaheuristics/grasp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/metaheuristics/grasp.py b/jinete/algorithms/metaheuristics/grasp.py
index 2471a85..e141898 100644
--- a/jinete/algorithms/metaheuristics/grasp.py
+++ b/jinete/algorithms/metaheuristics/grasp.py
@@ -13,6 +13,7 @@ from typing import (
 )
 
 from ...models import (
+    MAX_INT,
     Planning,
 )
 from ..abc import (
@@ -99,6 +100,7 @@ class GraspAlgorithm(Algorithm):
         algorithm = IterativeAlgorithm(
             algorithm_cls=SequentialAlgorithm,
             algorithms_cls=[self._build_first_solution_algorithm(), self._build_local_search_algorithm()],
+            seed=self.random.randint(0, MAX_INT),
             *self.args,
             **self.kwargs
         )
-- 
2.43.0


From 956668e51474737854bb4a93292c9c4d90fa3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:38 +0000
Subject: [PATCH 24/27] fix: draw the reallocation's sampled pairs from the
 seed

---
 jinete/algorithms/heuristics/local_search/algorithm.py    | 8 +++++++-
 .../algorithms/heuristics/local_search/strategies/abc.py  | 6 +++++-
 .../local_search/strategies/plannings/reallocation.py     | 2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/algorithm.py b/jinete/algorithms/heuristics/local_search/algorithm.py
index 911d36c..700ca75 100644
--- a/jinete/algorithms/heuristics/local_search/algorithm.py
+++ b/jinete/algorithms/heuristics/local_search/algorithm.py
@@ -3,11 +3,15 @@ from __future__ import (
 )
 
 import logging
+from random import (
+    Random,
+)
 from typing import (
     TYPE_CHECKING,
 )
 
 from ....models import (
+    MAX_INT,
     Planning,
 )
 from ...abc import (
@@ -35,6 +39,7 @@ class LocalSearchAlgorithm(Algorithm):
         no_improvement_threshold: int = 1,
         strategy_cls: LocalSearchStrategy = None,
         *args,
+        seed: int = 56,
         **kwargs
     ):
         super().__init__(*args, **kwargs)
@@ -45,6 +50,7 @@ class LocalSearchAlgorithm(Algorithm):
         self.args = args
         self.kwargs = kwargs
         self.strategy_cls = strategy_cls
+        self.random = Random(seed)
         self.no_improvement_threshold = no_improvement_threshold
 
     @property
@@ -62,7 +68,7 @@ class LocalSearchAlgorithm(Algorithm):
         while no_improvement_count < self.no_improvement_threshold:
             no_improvement_count += 1
 
-            current = self.strategy_cls(best).improve()
+            current = self.strategy_cls(best, seed=self.random.randint(0, MAX_INT)).improve()
             best = self._objective.best(best, current)
 
             if best == current:
diff --git a/jinete/algorithms/heuristics/local_search/strategies/abc.py b/jinete/algorithms/heuristics/local_search/strategies/abc.py
index fd4792e..dc54533 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/abc.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/abc.py
@@ -9,6 +9,9 @@ from abc import (
 from copy import (
     deepcopy,
 )
+from random import (
+    Random,
+)
 from typing import (
     TYPE_CHECKING,
 )
@@ -19,11 +22,12 @@ if TYPE_CHECKING:
 
 
 class LocalSearchStrategy(ABC):
-    def __init__(self, result: Result, with_copy: bool = True):
+    def __init__(self, result: Result, with_copy: bool = True, seed: int = 56):
         if with_copy:
             result = deepcopy(result)
 
         self.result = result
+        self.random = Random(seed)
 
     @property
     def _objective(self) -> Objective:
diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..03e0705 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -37,7 +37,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From 33e0e051ca9856aa38948ddc8dacf19810f1361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:23 +0000
Subject: [PATCH 25/27] fix: rounded loads may end slightly below zero within
 the tolerance

---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..3f9accc 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -100,7 +100,7 @@ class Stop(Model):
         result = self.previous_capacity
         result += sum(trip.capacity for trip in self.pickup_planned_trips)
         result -= sum(trip.capacity for trip in self.delivery_planned_trips)
-        assert 0 <= result
+        assert 0 <= result + ERROR_BOUND
         return result
 
     @property
-- 
2.43.0


From a2e2310bd603e1b6cca401332e2022eb2802a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:05 +0000
Subject: [PATCH 26/27] fix: recompute all stops of a candidate whose depot
 departure is delayed

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index e83d883..fb9f035 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -74,7 +74,7 @@ class InsertionStrategy(object):
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
             route.stops[0].starting_time = route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From ebf5a6c5028097c9dc89d216140aed228e27eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:14 +0000
Subject: [PATCH 27/27] fix: comparing a position with something else no longer
 fails

---
 jinete/models/positions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/models/positions.py b/jinete/models/positions.py
index 61d10b4..419043c 100644
--- a/jinete/models/positions.py
+++ b/jinete/models/positions.py
@@ -104,9 +104,13 @@ class GeometricPosition(Position):
         return hash(self.coordinates)
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, Position):
+            return NotImplemented
         return self.coordinates == other.coordinates
 
     def __ne__(self, other) -> bool:
+        if not isinstance(other, Position):
+            return NotImplemented
         return self.coordinates != other.coordinates
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
-- 
2.43.0

