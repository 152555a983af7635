From fd8b67f1a7767e90f8248a16175d2d6565c2d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 01/20] fix: iterate over every request in a RequestHandler

Iteration stopped one request early, so the last request was left out of the
cost, of the completeness test, of the conflict test and of the returned
schedule; the cursor was also shared by all iterations.
---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From e13e524ba7af5b51aa52cd2665a153a069e8a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 02/20] fix: return no windows when the satellite is never
 visible

generate_vtws raised an IndexError when no sample met the constraints.
---
 celest/encounter/window_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..d55f54d 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -78,6 +78,8 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     lighting_indices = _lighting_constraint_indices(julian, location, lighting)
     window_indices = np.intersect1d(window_indices, lighting_indices)
+    if window_indices.size == 0:
+        return WindowCollection()
 
     window_indices = np.split(window_indices,
                               np.where(np.diff(window_indices) != 1)[0] + 1)
-- 
2.43.0


From 206a6b18ddfbcebf11c5c8cf70c45aad21aa237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 03/20] fix: rise time of a window that is open at the first
 sample

The index wrapped around, so the last time of the track was used as the rise
time.
---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index d55f54d..f17e0f5 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -89,7 +89,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From aecd9c0932cb5f45a80f4ca8de4ad948ce25ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 04/20] fix: annealing acceptance for zero cost or zero
 temperature

A current cost of zero (nothing scheduled) or a temperature that has decayed to
zero raised a ZeroDivisionError, and costs of different signs made the exponent
positive (OverflowError, or every worse solution accepted).
---
 celest/schedule/alns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..21311e5 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -249,8 +249,11 @@ class ALNS:
         if temporary_cost < current_cost:
             return True
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            scale = abs(T * current_cost)
+            if scale == 0:
+                return temporary_cost == current_cost
+            probability = math.exp(-100 * (temporary_cost - current_cost) /
+                                   scale)
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From 5b982483517b768469bdea10639edf4338a02ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 05/20] fix: operator selection when every weight has decayed
 to zero

With a decay parameter of 1 all weights can reach zero, which raised a
ZeroDivisionError.
---
 celest/schedule/alns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 21311e5..dc14d06 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,7 +177,11 @@ class ALNS:
             list of probabilities.
         """
 
-        return [weight / sum(weights) for weight in weights]
+        total_weight = sum(weights)
+        if total_weight == 0:
+            return [1 / len(weights)] * len(weights)
+
+        return [weight / total_weight for weight in weights]
 
     def _get_repair_index(self) -> int:
         """Return index of the repair function to be used.
-- 
2.43.0


From 9fb04362da855c08cd6c976f7605cb7972bf7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 06/20] fix: score of a solution better than the current one

The new solution was compared, the wrong way around, with a copy of itself, so
the score for improving on the current solution was never given.
---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index dc14d06..3d7c878 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From 89e1d81afa3084ed4fe262b850b2aae335adaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 07/20] fix: look angles passed to Scheduler.add_request

The documented float was stored without a unit, so planning a request with a
look angle raised an AttributeError.
---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..2d2a385 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            Quantity(look_ang, u.deg) if look_ang is not None else None,
             vtws
         )
 
-- 
2.43.0


From 14d5d8816c7df3accdf213eb315e43a262c5cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 08/20] fix: attitude of a scheduled observation

A buffer was compared with a Quantity, which never matched, so every observation
had an empty attitude and a schedule could not be saved.
---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 2d2a385..15b666b 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                start_time = request[RequestIndices.scheduled_start_time]
+                time_to_start = np.abs(attitude.time.to(u.jd2000) -
+                                       start_time.to(u.jd2000))
+                attitude_idx = [np.argmin(time_to_start)]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From 34a19671faed583f3feedda7c074bb5ccb9cae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 09/20] fix: order partially scheduled requests by conflict
 degree

A Quantity was compared with an integer, so conflict removal raised a TypeError
when only some of the requests were scheduled.
---
 celest/schedule/request_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..fb63fd0 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,7 @@
 
 
+from celest.units.quantity import Quantity
+from celest import units as u
 from enum import IntEnum
 
 
@@ -128,7 +130,7 @@ class RequestHandler:
                 vtw = request[RequestIndices.vtw_list][vtw_index]
                 conflict_degree.append(self._conflict_degree(vtw))
             else:
-                conflict_degree.append(0)
+                conflict_degree.append(Quantity(0, u.jd2000))
 
             conflict_degree_index.append(request_index)
 
-- 
2.43.0


From 7d5143a09f4c047b8e0d3e4af7ca9c6f2ee48729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 10/20] fix: sort visible time windows by conflict degree

Windows with the same conflict degree were compared with each other, which
raised a TypeError, and the window index of a scheduled request was left
pointing at another window.
---
 celest/schedule/request_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index fb63fd0..1f5260f 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -184,8 +184,13 @@ class RequestHandler:
                 conflict_degree.append(self._conflict_degree(vtw))
                 vtw_indices.append(vtw_index)
 
+            vtw_indices.sort(key=lambda index: conflict_degree[index])
             self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+                [vtw_list[index] for index in vtw_indices]
+
+            if self.is_request_scheduled(request_index):
+                self.requests[request_index][RequestIndices.vtw_index] = \
+                    vtw_indices.index(self.vtw_index(request_index))
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-- 
2.43.0


From 8014e1268c9a19175ec47bc0ea2582448ccfa0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 11/20] fix: overlap time of two visible time windows

For windows where the second one starts first, or that share an end point, the
overlap was too long, or None.
---
 celest/schedule/request_handler.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 1f5260f..120fe85 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -166,14 +166,8 @@ class RequestHandler:
 
         if (e1 < s2) | (e2 < s1):
             return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+
+        return min(e1, e2) - max(s1, s2)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From f8bcf087981b5d1cc45c1a8dd45836e49b99e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 12/20] fix: random removal can remove the last request

The last request was never drawn, so it could not be removed and, when too few
others were scheduled, random.choice raised an IndexError.
---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..e3fde32 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From c1c0beb9f451b8ec17b566a06b0b53a6952d60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 13/20] fix: independent iterations over a WindowCollection

All iterations shared one cursor: leaving a loop early, nesting loops or reading
from two threads skipped windows.
---
 celest/encounter/window_handling.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..2d8f043 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -162,16 +161,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From 77baf990b28c704b6d8b02740ca11422db6f6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 14/20] fix: plan from the requests alone in Scheduler.generate

generate left its initial solution in the stored requests, so a later plan, after
more requests were added or after an interrupted run, started from it.
---
 celest/schedule/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 15b666b..676ec14 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -16,6 +16,7 @@ from celest.encounter.window_generator import generate_vtws, Lighting
 from celest.encounter.window_handling import ObservationWindow, WindowCollection
 from celest.units import Quantity
 from celest import units as u
+import copy
 import math
 import numpy as np
 
@@ -146,8 +147,9 @@ class Scheduler(ALNS):
         if not self.request_handler.number_of_requests:
             raise Exception("No requests to schedule.")
 
-        initialize_solution(self.request_handler)
-        super().__init__(self.request_handler)
+        initial_solution = copy.deepcopy(self.request_handler)
+        initialize_solution(initial_solution)
+        super().__init__(initial_solution)
 
         self.add_cost_function(cost)
         self.add_destroy_functions(_REMOVAL_FUNCTIONS)
-- 
2.43.0


From 0f580a93de4e6126eac39fe3ae9a9ae0169900bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 15/20] fix: number of requests after an interrupted
 add_request

The separate counter was increased before the request was stored; an interrupt in
between left a request that does not exist and made planning fail.
---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 120fe85..ded721f 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -32,9 +32,12 @@ class RequestHandler:
 
     def __init__(self):
         self.requests = []
-        self.number_of_requests = 0
         self.number_of_scheduled_requests = 0
 
+    @property
+    def number_of_requests(self):
+        return len(self.requests)
+
     def __len__(self):
         return self.number_of_requests
 
@@ -45,7 +48,6 @@ class RequestHandler:
         return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
-        self.number_of_requests += 1
         self.requests.append([
             False,
             None,
-- 
2.43.0


From d64f3c458a73acc43e457d607d357f7d64b88923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 16/20] fix: close the ephemeris when reading it fails

An error while the segments were read left the kernel file open.
---
 celest/encounter/window_generator.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index f17e0f5..c0ee2b0 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -121,14 +121,12 @@ def _get_sun_elevation(julian: np.ndarray, location: GroundLocation) -> Quantity
 
 def _get_sun_gcrs(julian: np.ndarray) -> GCRS:
     ephem = pkg_resources.resource_filename(__name__, '../data/de421.bsp')
-    kernal = SPK.open(ephem)
 
-    ssb2sunb_pos = kernal[0, 10].compute(julian)
-    ssb2eb_pos = kernal[0, 3].compute(julian)
-    eb2e_pos = kernal[3, 399].compute(julian)
-    e2sun_pos = (ssb2sunb_pos - ssb2eb_pos - eb2e_pos).T
-
-    SPK.close(kernal)
+    with SPK.open(ephem) as kernal:
+        ssb2sunb_pos = kernal[0, 10].compute(julian)
+        ssb2eb_pos = kernal[0, 3].compute(julian)
+        eb2e_pos = kernal[3, 399].compute(julian)
+        e2sun_pos = (ssb2sunb_pos - ssb2eb_pos - eb2e_pos).T
 
     return GCRS(julian, e2sun_pos[:, 0], e2sun_pos[:, 1], e2sun_pos[:, 2], u.km)
 
-- 
2.43.0


From df00b66cf8299eb67f5a6847f01c4526761c424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 17/20] fix: window index of a scheduled request after sorting
 by rise time

Sorting the visible time windows of a request that is already scheduled left
its window index pointing at another window.
---
 celest/schedule/request_handler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index ded721f..33713f1 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -190,7 +190,14 @@ class RequestHandler:
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
+            vtw_list = request[RequestIndices.vtw_list]
+            vtw_indices = sorted(
+                range(len(vtw_list)),
+                key=lambda index: vtw_list[index].rise_time.data
             )
+            request[RequestIndices.vtw_list] = \
+                [vtw_list[index] for index in vtw_indices]
+
+            if request[RequestIndices.is_scheduled]:
+                request[RequestIndices.vtw_index] = \
+                    vtw_indices.index(request[RequestIndices.vtw_index])
-- 
2.43.0


From 6db37bac5d478e45f4759653d69e7e6d6e399185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 18/20] fix: apply the data format to numeric columns saved
 beside text columns

Concatenating a text column with numerical ones turned every value of the
document into text, so that the numbers were written with str() and the
data format was silently ignored.
---
 celest/file_save.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..082cc27 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -184,6 +184,10 @@ def _write_data_to_file(file: IO, data: list, data_format: str) -> None:
         column_underline_string += ending
 
         column_data = _get_and_reshape_column_data(data_value)
+        if not np.issubdtype(column_data.dtype, np.number):
+            # Mixing with text must not turn the numerical columns into text.
+            column_data = column_data.astype(object)
+
         if data_count == 0:
             raw_data = column_data
         else:
-- 
2.43.0


From c0f6da319a5aba4f7dc3cad4c495ac75dafe44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:40 +0000
Subject: [PATCH 19/20] fix: angle between (nearly) parallel vectors is not NaN

Rounding can lift the cosine of the angle a hair above one, most often for a
satellite exactly over the site; the elevation was then NaN and the sample
silently dropped out of its visible window.
---
 celest/coordinates/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..4bed5eb 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -398,7 +398,8 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    cosine = np.clip(numerator / denominator, -1, 1)
+    ang = np.degrees(np.arccos(cosine))
 
     return ang
 
-- 
2.43.0


From 2c58a272f8ce892289468044d45ae72d90c003ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:12 +0000
Subject: [PATCH 20/20] fix: print single-precision columns to the requested
 precision

---
 celest/file_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 082cc27..dda6392 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -251,7 +251,7 @@ def _write_column_data_to_file(file: IO, column_widths: list,
 
 
 def _get_data_entry_string(value: Any, width: int, data_format: str) -> str:
-    if isinstance(value, (int, float)):
+    if isinstance(value, (int, float, np.floating)):
         return (data_format % value).ljust(width)
     else:
         return str(value).ljust(width)
-- 
2.43.0

