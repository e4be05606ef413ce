From c4fb57b11576e91c5d5823954597726e13451301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 01/11] fix: keep the fixed vehicle cost when pickling routes

The state returned by Route's __getstate__ did not include the fixed vehicle
cost, so that unpickled routes (and solutions) reported a fixed vehicle cost of
zero, and a different penalised cost than the original.
---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..baf67ea 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..f11cbc9 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -974,6 +974,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -998,9 +999,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed veh cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From 112cdb3efe86057af7b4bbcede91ca39b44f1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:19 +0000
Subject: [PATCH 02/11] fix: keep the unplanned activities when pickling
 solutions

Solution's __getstate__ did not include the unplanned activities, so that an
unpickled solution always reported that all activities are planned.
---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index f11cbc9..e71d5cb 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,10 +1133,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1155,7 +1157,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From 6050014900665f7dee9af7ab2264f448b5aa684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:47 +0000
Subject: [PATCH 03/11] fix: subtract all time warp when checking the maximum
 duration

The time warp that results from waiting for a release time was not
subtracted from the route duration before comparing with the maximum, and
evaluating a route from either end gave different results.
---
 pyvrp/cpp/DurationSegment.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..36ea0ff 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,14 +271,14 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    // Includes additional time warp from having to wait until release time.
+    auto const timeWarp = cumTimeWarp_ + timeWarp_
+                          + std::max<Duration>(releaseTime_ - startLate_, 0);
     auto const netDuration = duration() - timeWarp;
 
+    // Max duration constraint applies only to net route duration, subtracting
+    // existing time warp. Use ternary to avoid underflow.
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
-           // Max duration constraint applies only to net route duration,
-           // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
 }
 
-- 
2.43.0


From f294a743c7d65e83ee43358ac26ee9d562d19947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 04/11] fix: check the index when looking up groups, vehicle
 types and matrices

---
 pyvrp/cpp/bindings.cpp | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index e71d5cb..7006d77 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -752,11 +752,18 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("depot"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, depot))
-        .def("group",
-             &ProblemData::group,
-             py::arg("group"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, group))
+        .def(
+            "group",
+            [](ProblemData const &data, size_t group) -> ClientGroup const &
+            {
+                if (group >= data.numGroups())
+                    throw py::index_error();
+
+                return data.group(group);
+            },
+            py::arg("group"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
             [](ProblemData const &data, size_t shipment)
@@ -769,21 +776,42 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("shipment"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, shipment))
-        .def("vehicle_type",
-             &ProblemData::vehicleType,
-             py::arg("vehicle_type"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, vehicleType))
-        .def("distance_matrix",
-             &ProblemData::distanceMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, distanceMatrix))
-        .def("duration_matrix",
-             &ProblemData::durationMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, durationMatrix))
+        .def(
+            "vehicle_type",
+            [](ProblemData const &data, size_t vehicleType) -> VehicleType const &
+            {
+                if (vehicleType >= data.numVehicleTypes())
+                    throw py::index_error();
+
+                return data.vehicleType(vehicleType);
+            },
+            py::arg("vehicle_type"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, vehicleType))
+        .def(
+            "distance_matrix",
+            [](ProblemData const &data, size_t profile) -> auto const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.distanceMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, distanceMatrix))
+        .def(
+            "duration_matrix",
+            [](ProblemData const &data, size_t profile) -> auto const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.durationMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, durationMatrix))
         .def("has_time_windows",
              &ProblemData::hasTimeWindows,
              DOC(pyvrp, ProblemData, hasTimeWindows))
-- 
2.43.0


From 28fe109f97916441131c36f621644c25c972bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 05/11] fix: reject routes of non-existing vehicle types

---
 pyvrp/cpp/Route.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index baf67ea..078c737 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -52,6 +52,13 @@ Duration Route::ScheduledActivity::timeWarp() const { return timeWarp_; }
 void Route::validate(ProblemData const &data,
                      Activities const &activities) const
 {
+    if (vehicleType_ >= data.numVehicleTypes())
+    {
+        std::ostringstream msg;
+        msg << "Vehicle type " << vehicleType_ << " is not understood.";
+        throw std::invalid_argument(msg.str());
+    }
+
     auto const &vehData = data.vehicleType(vehicleType_);
 
     size_t numTrips = 1;
-- 
2.43.0


From b96ca44d9bbb8de4d2ada4f4121af3fc8c599137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 06/11] fix: count more than 2^31 vehicles correctly

---
 pyvrp/cpp/ProblemData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/ProblemData.cpp b/pyvrp/cpp/ProblemData.cpp
index 66a3035..b799da7 100644
--- a/pyvrp/cpp/ProblemData.cpp
+++ b/pyvrp/cpp/ProblemData.cpp
@@ -305,7 +305,7 @@ ProblemData::ProblemData(std::vector<Location> locations,
       shipments_(std::move(shipments)),
       numVehicles_(std::accumulate(vehicleTypes_.begin(),
                                    vehicleTypes_.end(),
-                                   0,
+                                   size_t(0),
                                    [](auto sum, VehicleType const &type)
                                    { return sum + type.numAvailable; })),
       numLoadDimensions_(
-- 
2.43.0


From 476510904b10fc57d22c3fc3e9b2dc06e31f8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 07/11] fix: do not try an empty fleet when minimising the
 fleet

---
 pyvrp/minimise_fleet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..6accff2 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_available = max(best.num_routes(), 1)
+            feas_fleet = fleet.replace(num_available=num_available)
 
     return feas_fleet
 
@@ -96,7 +97,7 @@ def _lower_bound(data: ProblemData) -> int:
 
     # Computes a bound based on packing delivery or pickup demands in the given
     # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    bound = 1  # a fleet consists of at least one vehicle
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From b27777f457c636abe929f7b90c3b31871fa6a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 08/11] fix: evaluate swapping segments that start at a client
 and pickup of equal index

---
 pyvrp/cpp/search/Swap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/Swap.h b/pyvrp/cpp/search/Swap.h
index 6a218bf..9a3c11f 100644
--- a/pyvrp/cpp/search/Swap.h
+++ b/pyvrp/cpp/search/Swap.h
@@ -104,7 +104,8 @@ std::pair<Cost, bool> Swap<N, M>::evaluate(Route::Node *U,
         return std::make_pair(0, false);
 
     if constexpr (N == M)  // symmetric, so only have to evaluate this once
-        if (U->idx() >= V->idx())
+        if (U->idx() > V->idx()
+            || (U->idx() == V->idx() && U->type() >= V->type()))
             return std::make_pair(0, false);
 
     Cost deltaCost = 0;
-- 
2.43.0


From ef254fadb10447b5293bb2c9e36461b70a071e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:38 +0000
Subject: [PATCH 09/11] fix: read delivery locations of shipments when there
 are several depots

---
 pyvrp/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..b71d993 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -574,7 +574,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -582,11 +581,12 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery = deliv_idx - 1  # zero-indexed
+                delivery_data = data[delivery]
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=delivery,
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From 6fbdaf5b760c0f53ffa8f0a378e11359579d01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:38 +0000
Subject: [PATCH 10/11] fix: read shipments with fractional data values

---
 pyvrp/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index b71d993..75c387c 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -355,10 +355,10 @@ class _InstanceParser:
 
         # Round demand, time windows, and service duration. Skip the pickup
         # and delivery index fields; we need those unchanged.
-        shipments = self.instance["pickup_and_delivery"]
-        shipments[:, :4] = self.round_func(shipments[:, :4])
-
-        return shipments
+        data = self.instance["pickup_and_delivery"]
+        return np.hstack(
+            [self.round_func(data[:, :4]), data[:, 4:].astype(int)]
+        )
 
 
 class _ProblemDataBuilder:
@@ -578,7 +578,7 @@ class _ProblemDataBuilder:
 
         shipments = []
         for idx, pickup_data in enumerate(data):
-            *_, pick_idx, deliv_idx = pickup_data
+            pick_idx, deliv_idx = map(int, pickup_data[-2:])
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
                 delivery = deliv_idx - 1  # zero-indexed
@@ -594,7 +594,7 @@ class _ProblemDataBuilder:
                         delivery_tw_late=delivery_data[2],
                         delivery_service_duration=delivery_data[3],
                         amount=[pickup_data[0]],
-                        name=f"{delivery_data[-2]} -> {deliv_idx}",
+                        name=f"{int(delivery_data[-2])} -> {deliv_idx}",
                     )
                 )
 
-- 
2.43.0


From 548f2d4c749b3bb4b428167193e75b6584b03db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 11/11] fix: keep penalties as floating point values

Whole-number initial penalties and limits resulted in an integer array
of penalties, so that each penalty update was rounded down.
---
 pyvrp/PenaltyManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..40c4fbc 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -157,8 +157,9 @@ class PenaltyManager:
         params: PenaltyParams = PenaltyParams(),
     ):
         self._params = params
+        penalties = [*initial_penalties[0], *initial_penalties[1:]]
         self._penalties = np.clip(
-            initial_penalties[0] + list(initial_penalties[1:]),
+            np.array(penalties, dtype=float),
             params.min_penalty,
             params.max_penalty,
         )
-- 
2.43.0

