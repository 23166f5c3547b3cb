From 5fba756e2fc3d874b72fe2e247a477d0e2277b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:04 +0000
Subject: [PATCH 01/56] fix: Store.rescan gives at most one item to a
 from_store requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..e46735d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From a8d164fff08cfedc6bbca3de4949553872ad16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 02/56] fix: from_store with key takes the item from the store
 it was found in

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e46735d..cc0f05e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8233,14 +8233,17 @@ by adding:
                         this_key = key(c)
                         if found_key is None or this_key < found_key:
                             found_c = c
+                            found_store = store
                             found_key = this_key
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
         if found_c:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From 1c1d556350f93196007dc1b80961db7276aea9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:24 +0000
Subject: [PATCH 03/56] fix: a store requester leaves the requester queues
 before its item moves

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cc0f05e..15c940f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9791,11 +9791,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 94bc6527dcd8479624754d555d3be0eb61d4cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:33 +0000
Subject: [PATCH 04/56] fix: preemption bumps only as many claimers as needed,
 and none if not enough

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 15c940f..f267cfa 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8648,9 +8648,9 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From 8b8a3ba01985fd7cb91287b2aad5e0d91032ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:05 +0000
Subject: [PATCH 05/56] fix: wait for any of several states substitutes the
 state's value in $-expressions, as documented

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f267cfa..913742f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9269,7 +9269,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From 7f7f126feeeeced08598d2f5c66d10ebf449d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:15 +0000
Subject: [PATCH 06/56] fix: request without resources makes the component
 scheduled

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 913742f..2c0521c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8593,6 +8593,7 @@ by adding:
 
         if not args:
             honoredstr = "-"
+            self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
             return
         for arg in args:
-- 
2.43.0


From 4e390ecf6dcf4f5db2e0fcd79a32cf9751cb68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:28 +0000
Subject: [PATCH 07/56] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2c0521c..e8bf428 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25442,7 +25442,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From 61c8ae9014b85f4168afb62460e4792626d2be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:39 +0000
Subject: [PATCH 08/56] fix: suppress_trace, over3d and cap_now restore the
 setting when the block raises

---
 salabim/salabim.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e8bf428..da18d7e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13220,8 +13220,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
@@ -27783,8 +27785,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27830,8 +27834,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 5fee926cda26c1a0457b31e4d9241ce41d613864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 09/56] fix: step keeps standby components that are still
 pending

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index da18d7e..efb6b8d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11191,7 +11191,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist = self._pendingstandbylist + list(self.env._standbylist)
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From dd66c12e156ce45e9dfea72d245a8053a9ba27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:57 +0000
Subject: [PATCH 10/56] fix: occupancy of a resource starts with the initially
 claimed quantity

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index efb6b8d..42a4dc4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24058,7 +24058,14 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor(
+            "Occupancy of " + self.name(),
+            level=True,
+            initial_tally=0 if capacity <= 0 else initial_claimed_quantity / capacity,
+            monitor=monitor,
+            type="float",
+            env=self.env,
+        )
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From e3ac7b2b0b2cc1b377be59d41c2c71fa29394dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:05 +0000
Subject: [PATCH 11/56] fix: honor_only_first/highest_priority also tries the
 requesters that come first after a request was honored

---
 salabim/salabim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 42a4dc4..afb8773 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24336,9 +24336,10 @@ class Resource:
         if self._anonymous:
             if not self._trying:
                 self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
+                mx = self._requesters._head.successor
                 while mx != self._requesters._tail:
+                    mx_first = self._requesters._head.successor
+                    mx_first_priority = mx_first.priority
                     if self._honor_only_first and mx != mx_first:
                         break
                     if self._honor_only_highest_priority and mx.priority != mx_first_priority:
@@ -24351,10 +24352,11 @@ class Resource:
 
                 self._trying = False
         else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
+            mx = self._requesters._head.successor
 
             while mx != self._requesters._tail:
+                mx_first = self._requesters._head.successor
+                mx_first_priority = mx_first.priority
                 if self._honor_only_first and mx != mx_first:
                     break
                 if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-- 
2.43.0


From 6cb6f18c5532959c376c59583a543770df1bd947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:13 +0000
Subject: [PATCH 12/56] fix: honoring a request may also remove other
 requesters from the queue that is walked

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index afb8773..083bc43 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24366,6 +24366,8 @@ class Resource:
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if c not in self._requesters:
+                    mx = self._requesters._head.successor  # start again, as honoring might have changed the queue
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From 7ea11c84bad0bb83482efc7125763b812eb8b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:50 +0000
Subject: [PATCH 13/56] fix: a failed request that held up
 honor_only_first/highest_priority requesters makes these to be tried

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 083bc43..3d89257 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7494,8 +7494,12 @@ by adding at the end:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
+            failed_requests = self._requests
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in failed_requests:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # another requester might have become first now
 
         if self._waits:
             if self.env._trace:
-- 
2.43.0


From 17e63d31533b21d1e7e4331eb69f638ef49a0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:00 +0000
Subject: [PATCH 14/56] fix: Monitor.freeze leaves the monitor intact if it
 cannot be copied

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3d89257..90c4003 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -770,8 +770,10 @@ class Monitor:
         self._block_stats_only()
         self_env = self.env
         self.env = Environment(to_freeze=True, name=self.env.name() + ".copy.", time_unit=self.env.get_time_unit())
-        m = copy.deepcopy(self)
-        self.env = self_env
+        try:
+            m = copy.deepcopy(self)
+        finally:
+            self.env = self_env
         m.isgenerated = True
         m._name = self.name() + ".frozen" if name is None else name
         m.env._animate = False
-- 
2.43.0


From bd470078f684ae7aaa18d751993494d17a7584c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:41 +0000
Subject: [PATCH 15/56] fix: Erlang multiplies by the time unit factor, like
 all other distributions

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 90c4003..006b935 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22419,7 +22419,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22427,7 +22427,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 0b2c026330f875351b4c6f086c1b32079a4fbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:51 +0000
Subject: [PATCH 16/56] fix: mean of a Constant applies the time unit factor
 once

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 006b935..cc65a0a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21884,7 +21884,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From 54838c6497a3d30dd759d378471fcf9ca3143d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:04 +0000
Subject: [PATCH 17/56] fix: mean of a Distribution is that of the underlying
 distribution, including its time unit

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cc65a0a..0bd57ba 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23496,7 +23496,7 @@ class Distribution(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean
+        return self._distribution.mean()
 
 
 class State:
-- 
2.43.0


From 16575961e6f5c2615f2c4b40bbd0d5b67c6fc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:17 +0000
Subject: [PATCH 18/56] fix: mean of Pdf and CumPdf uses the mean of nested
 distributions, including their time unit

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0bd57ba..6e2b05a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22669,7 +22669,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23011,7 +23011,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From 6be6961f7650a03b979402b70e80cf671826d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 19/56] fix: Pdf and Pmf with equal probabilities sample a
 nested distribution

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6e2b05a..45817df 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22734,7 +22734,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22876,7 +22877,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 4dc29cfafea82db0ca12187ee0e10bd2e6e2a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:27 +0000
Subject: [PATCH 20/56] fix: ComponentGenerator uses one time frame, also after
 reset_now or with duration

---
 salabim/salabim.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 45817df..7aa46c6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20491,7 +20491,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20537,20 +20537,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
                         if number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
@@ -20593,7 +20593,7 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
 
-        super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
+        super().__init__(name=generator_name, env=env, process=process, at=None if at is None else at - env._offset, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
     def do_spread(self):
         for interval in self.intervals:
@@ -20629,9 +20629,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20653,19 +20653,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20701,9 +20701,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20725,19 +20725,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From de771575013a31d29987cb78bb660db34dcbe5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 21/56] fix: ComponentGenerator with disturbance calls at_end
 when all components are generated

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7aa46c6..6be1376 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20662,6 +20662,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20734,6 +20735,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 212c3923ec4ae3099314c7a05240ff229680a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:03 +0000
Subject: [PATCH 22/56] fix: ComponentGenerator with disturbance creates the
 components in its own environment

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6be1376..4f38b06 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20658,7 +20658,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20731,7 +20734,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From 4ae60a3aa6cb607a9f088916d69ae999f41084b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:35 +0000
Subject: [PATCH 23/56] fix: wait_for puts the component in the waiters queue
 according to request_priority

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4f38b06..d58627e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8999,10 +8999,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 338f7b9f673ec3d8b86f634e7eb80840f71fa8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 24/56] fix: several PeriodMonitors on one monitor each get
 each value once

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d58627e..aa8c7ba 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24595,13 +24595,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From 61cb3bf3576945be94f0724875cd9e6968a50b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:56 +0000
Subject: [PATCH 25/56] fix: PeriodMonitor works in yieldless models and uses
 the given environment

---
 salabim/salabim.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index aa8c7ba..d56c938 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24518,15 +24518,23 @@ class _PeriodComponent(Component):
     def setup(self, pm):
         self.pm = pm
 
-    def process(self):
+    def start_period(self, iperiod):
+        self.pm.perperiod[self.pm.iperiod].monitor(False)
+        self.pm.iperiod = iperiod
+        if self.pm.m._level:
+            self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+        self.pm.perperiod[self.pm.iperiod].monitor(True)
+
+    def process_yielded(self):
         for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
-            self.pm.perperiod[self.pm.iperiod].monitor(False)
-            self.pm.iperiod = iperiod
-            if self.pm.m._level:
-                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
-            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.start_period(iperiod)
             yield self.hold(duration)
 
+    def process_yieldless(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.start_period(iperiod)
+            self.hold(duration)
+
 
 class PeriodMonitor:
     """
@@ -24581,8 +24589,10 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        self.pc = _PeriodComponent(
+            pm=self, process="process_yieldless" if self.env._yieldless else "process_yielded", skip_standby=True, suppress_trace=True, env=self.env
+        )
 
         if periods is None:
             periods = 24 * [1]
-- 
2.43.0


From 8964f4ca4058ee07e1b056eb9eb2d010f4051b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:41 +0000
Subject: [PATCH 26/56] fix: objects created by the library itself belong to
 the environment of their owner

---
 salabim/salabim.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d56c938..3e12c26 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3813,6 +3813,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t + 0.2,  # to make it appear behind label lines and plot line/points
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_frame_line = AnimateRectangle(
             spec=lambda: (0, 0, self.width_t, self.height_t),
@@ -3828,6 +3829,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t,
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_text = AnimateText(
             text=lambda t: self.title(t),
@@ -3844,6 +3846,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_line = AnimateLine(
@@ -3860,6 +3863,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_now_line = AnimateLine(
@@ -3874,6 +3878,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_label_texts = []
@@ -3982,8 +3987,8 @@ class AnimateMonitor(DynamicClass):
                 ao_label_line.remove()
             else:
                 if ao_label_text is None:
-                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates)
-                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates)
+                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates, env=self.env)
+                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates, env=self.env)
                     self.ao_label_texts.append(ao_label_text)
                     self.ao_label_lines.append(ao_label_line)
                 ao_label_text.text = str(label)
@@ -7255,7 +7260,7 @@ by adding at the end:
         size_x = 50
         size_y = 50
         ao0 = AnimateRectangle(
-            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates
+            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates, env=self.env
         )
         return (size_x, size_y, ao0)
 
@@ -7297,7 +7302,7 @@ by adding at the end:
         size_x = 10
         size_y = 10
         size_z = 10
-        ao0 = Animate3dBox(x_len=8, y_len=8, z_len=8, x_ref=0, y_ref=0, z_ref=1, color="white", shaded=True)
+        ao0 = Animate3dBox(x_len=8, y_len=8, z_len=8, x_ref=0, y_ref=0, z_ref=1, color="white", shaded=True, env=self.env)
         return (size_x, size_y, size_z, ao0)
 
     def _remove_from_aos(self, q):
@@ -10628,7 +10633,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
@@ -11091,7 +11096,7 @@ class Environment:
             over3d = default_over3d()
         top = self.height3d() - 40 if over3d else self.height() - 90
         for i, prop in enumerate("x_eye y_eye z_eye x_center y_center z_center field_of_view_y".split()):
-            ao = AnimateRectangle(spec=(0, 0, 75, 35), fillcolor="30%gray", x=5 + i * 80, y=top, screen_coordinates=True, over3d=over3d)
+            ao = AnimateRectangle(spec=(0, 0, 75, 35), fillcolor="30%gray", x=5 + i * 80, y=top, screen_coordinates=True, over3d=over3d, env=self)
             ao = AnimateText(
                 text=lambda arg, t: f"{arg.label}",
                 x=5 + i * 80 + 70,
@@ -11101,6 +11106,7 @@ class Environment:
                 textcolor="white",
                 screen_coordinates=True,
                 over3d=over3d,
+                env=self,
             )
             ao.label = "fovy" if prop == "field_of_view_y" else prop
 
@@ -11113,6 +11119,7 @@ class Environment:
                 textcolor="white",
                 screen_coordinates=True,
                 over3d=over3d,
+                env=self,
             )
             ao.prop = prop
 
@@ -13677,6 +13684,7 @@ class Environment:
             screen_coordinates=True,
             xy_anchor="nw",
             visible=lambda: self._modelname,
+            env=self,
         )
         AnimateText(
             text=" model",
@@ -13779,15 +13787,15 @@ class Environment:
         )
         uio.in_topleft = True
 
-        ao = AnimateText(x=x0 + 3 * dx, y=-35, text=self.syncedtext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw")
+        ao = AnimateText(x=x0 + 3 * dx, y=-35, text=self.syncedtext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self)
         ao.in_topleft = True
 
-        ao = AnimateText(x=x0 + 4 * dx, y=-35, text=self.tracetext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw")
+        ao = AnimateText(x=x0 + 4 * dx, y=-35, text=self.tracetext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self)
         ao.in_topleft = True
 
         if self._synced:
             ao = AnimateText(
-                x=x0 + 1.5 * dx, y=-35, text=self.speedtext, textcolor="fg", text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw"
+                x=x0 + 1.5 * dx, y=-35, text=self.speedtext, textcolor="fg", text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self
             )
             ao.in_topleft = True
 
@@ -15100,7 +15108,7 @@ class Environment:
         self.remove_topleft_buttons()
 
         self.animation_parameters(use_toplevel=True)
-        self.pauser = _Pauser(at=inf)
+        self.pauser = _Pauser(at=inf, env=self)
         self._ui = True
         if actions is None:
             actions = []
@@ -15334,7 +15342,7 @@ class Environment:
                     self.animate(True)
                     self.paused(True)
                 else:
-                    _AnimateOff(urgent=True)
+                    _AnimateOff(urgent=True, env=self)
 
         self.user_handle_event(env=self, window=self._ui_window, event=event, values=values)
 
@@ -18311,6 +18319,7 @@ class AnimateQueue(DynamicClass):
             layer=lambda t: self.layer(t),
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.show()
 
-- 
2.43.0


From 62d003cbb07d58865df6ad1f4c1d101cc55b9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 27/56] fix: minimum, maximum and duration of a stats_only
 level monitor include the time up to now

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3e12c26..f8778e2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1757,6 +1757,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1783,6 +1785,8 @@ class Monitor:
         """
 
         if self._stats_only:
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
@@ -2226,6 +2230,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From a4d6ee92c2387e450d90154775a6cda1e6567cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 28/56] fix: turning off a level monitor invalidates its cached
 values

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f8778e2..9029313 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1332,6 +1332,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From 585a59f9571980f18382667807866d19a052b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:22 +0000
Subject: [PATCH 29/56] fix: Monitor.slice without start, and after reset_now

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9029313..504718c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -838,8 +838,8 @@ class Monitor:
             if self.env._animate:
                 stop = min(stop, self.env._t)
             else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
+                stop = min(stop, self.env._now)  # not self.now() in order to support frozen monitors
+            actions.append((start_, "a", 0, 0))
             actions.append((stop, stop_action, 0, 0))
         else:
             if start is None:
@@ -850,8 +850,8 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
+            start_ = (start + self.env._offset) % modulo
+            stop = (stop + self.env._offset) % modulo
             start1 = self._t[0] - (self._t[0] % modulo) + start_
             len1 = (stop - start_) % modulo
             while start1 < self.env._now:
-- 
2.43.0


From 1f25359113c681bcc3034cc064d198546e1d01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:36 +0000
Subject: [PATCH 30/56] fix: Monitor.t reports the time in the current time
 frame

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 504718c..5c20d48 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1108,7 +1108,7 @@ class Monitor:
         t is available even if the monitor is turned off
         """
         if self._level:
-            return self._ttally
+            return self._ttally - self.env._offset
         raise TypeError("non level monitors are not supported")
 
     def reset_monitors(self, monitor: bool = None, stats_only: bool = None) -> None:
-- 
2.43.0


From 2114e8354c65c9db02a0ccf9ebb6e1da6f49bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 31/56] fix: scheduled_time of an interrupted component is inf

---
 salabim/salabim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5c20d48..60f53b3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7851,6 +7851,7 @@ by adding:
 
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = scheduled
             self._interrupt_level = int(interrupted)
             self.status._value = "interrupted"
@@ -7903,7 +7904,8 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._check_fail()
-            self._remaining_duration = self._scheduled_time - self.env._now
+            if self.status.value != interrupted:  # an interrupted component already has the remaining duration
+                self._remaining_duration = self._scheduled_time - self.env._now
         self._scheduled_time = inf
 
         self.set_mode(mode)
@@ -7947,6 +7949,7 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._remaining_duration = self._scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = self.status.value
             self._interrupt_level = 1
             self.status._value = interrupted
-- 
2.43.0


From 15a0ec2ffdc1eeb330e3ee956a5f459969eece42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:10 +0000
Subject: [PATCH 32/56] fix: run() after a run that was ended by an exception
 replaces the old end event

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 60f53b3..af43351 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13418,6 +13418,7 @@ class Environment:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
+        self._main._remove()  # there might be an event left from a run that was ended by an exception
         if self._yieldless:
             self._main.status._value = scheduled
             self._main._reschedule(scheduled_time, priority, urgent, "run", cap_now, extra=extra)
-- 
2.43.0


From 731750ee051e88411709503676ac46ec79be8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 33/56] fix: setting remaining_duration of a data component is
 rejected

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index af43351..0a3af79 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10014,6 +10014,7 @@ by adding:
             elif self.status.value == standby:
                 raise ValueError("setting remaining_duration not allowed for standby component (" + self.name() + ")")
             else:
+                self._checkisnotdata()
                 self._remove()
                 self._reschedule(value + self.env._now, priority, urgent, "set remaining_duration", False, extra="")
 
-- 
2.43.0


From 01302821e99a10ab2ddaf76bd565cd23ff76526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 34/56] fix: requesting the same resource several times in one
 call adds up the quantities

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0a3af79..7d273cb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8657,7 +8657,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if self not in r._requesters:  # the same resource might be specified several times
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 6ed8072de0e6d48460a7a1421db1d9fa1b2a62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 35/56] fix: yieldless request serves waiting requesters of an
 anonymous resource before the process is suspended

---
 salabim/salabim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7d273cb..df8b0bf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7480,7 +7480,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if switch and self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7540,7 +7540,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7567,7 +7567,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8814,9 +8814,12 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in anonymous_resources:
                 r._tryrequest()
+            if self.env._yieldless:
+                if self is self.env._current_component:
+                    self.env._glet.switch()
             return True
         else:
             return False
-- 
2.43.0


From 299c8c69cef8068fb61cb416c46f8468fb88c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:24 +0000
Subject: [PATCH 36/56] fix: Resource.release does not release claims that are
 honored because of it

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index df8b0bf..d031ce9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24447,10 +24447,7 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
+            for c in self._claimers.as_list():  # releasing might lead to new claimers
                 c.release(self)
 
     def requesters(self) -> Queue:
-- 
2.43.0


From b19487aad4695a76ea4b82a4b6ebbeb60c97c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:33 +0000
Subject: [PATCH 37/56] fix: what is left after preemption is offered to the
 other requesters

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d031ce9..c28abde 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8785,7 +8785,7 @@ by adding:
         if r_honor:
             anonymous_resources = []
             for r in list(self._requests):
-                if r._anonymous:
+                if r._anonymous or r._preemptive:  # preemption might have released more than is needed
                     anonymous_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
-- 
2.43.0


From ba3ba92a11ae935dea526a6036452480bab38594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 38/56] fix: honoring a request tries the next requester of
 honor_only_... resources

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c28abde..d05102f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8785,7 +8785,9 @@ by adding:
         if r_honor:
             anonymous_resources = []
             for r in list(self._requests):
-                if r._anonymous or r._preemptive:  # preemption might have released more than is needed
+                # anonymous: quantity might be put back, preemptive: more might be released than needed,
+                # honor_only_...: another requester comes first now
+                if r._anonymous or r._preemptive or r._honor_only_first or r._honor_only_highest_priority:
                     anonymous_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
-- 
2.43.0


From 1f976773560b0bc8b2c6302cd42883601cee4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:43 +0000
Subject: [PATCH 39/56] fix: Queue.append takes its priority into account, like
 add

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d05102f..0d5d89e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4925,7 +4925,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From 609ed03b349e529047aea9b4e23ff69ce7b1294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 40/56] fix: Queue.insert at the end keeps the queue in order
 of priority

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0d5d89e..70c1ce7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5003,7 +5003,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = (mx.predecessor if mx is self._tail else mx).priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From 2e302a537964a44ba1aa7e5984b0a7761894e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:47 +0000
Subject: [PATCH 41/56] fix: Monitor.slice extended a value over the time the
 monitor was off

---
 salabim/salabim.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 70c1ce7..fa5285e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -901,9 +901,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != curx:
                             new._t.append(t)
                             new._x.append(curx)
                 elif type in ("b", "z"):
@@ -911,9 +909,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != self.off:
                             new._t.append(t)
                             new._x.append(self.off)
                 else:
-- 
2.43.0


From 74052f21f8be2b1e7d470d2466f3f3b847b1132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:01 +0000
Subject: [PATCH 42/56] fix: Monitor.slice with a stop after now left out what
 was tallied now

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fa5285e..f7a1d9f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -835,10 +835,10 @@ class Monitor:
             else:
                 stop += self.env._offset
                 stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now)  # not self.now() in order to support frozen monitors
+            t_extra = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            if stop > t_extra:
+                stop = t_extra
+                stop_action = "z"  # inclusive
             actions.append((start_, "a", 0, 0))
             actions.append((stop, stop_action, 0, 0))
         else:
-- 
2.43.0


From 0ecc0960b30e4fcfc94d3293bc63c73acb274c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:11 +0000
Subject: [PATCH 43/56] fix: Monitor.multiply and x_map dropped the weights

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f7a1d9f..3fb7fd8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -733,6 +733,8 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            if self._weight:
+                new._weight = self._weight[:]
 
         for m in monitors:
             del m._x_any
@@ -1600,6 +1602,8 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            if self._weight:
+                new._weight = self._weight[:]
             return new
 
         else:
-- 
2.43.0


From 9219281c4cca4430576cc582527140431a7f0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:20 +0000
Subject: [PATCH 44/56] fix: Monitor.t_multiply lost the last value when its
 time times factor is now

---
 salabim/salabim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3fb7fd8..7a3833a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -656,8 +656,12 @@ class Monitor:
             new._t.append(t * factor)
 
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
+        if self._t[-1] == self.env._now:
+            new._x[-1] = new.off
+        else:
+            new._x.append(new.off)
+            new._t.append(self.env._now * factor)
         new.isgenerated = True
         return new
 
-- 
2.43.0


From ff2f25def9297ba85ef8cb3c4b5867c6f99e4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 45/56] fix: Monitor.slice of a weighted monitor failed when
 animating

---
 salabim/salabim.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7a3833a..b3c4743 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -892,14 +892,6 @@ class Monitor:
             _t = self._t
             _weight = self._weight
 
-        if self.env._animate:
-            if self._x:
-                _x.append(_x[-1])
-                _t.append(self.env._t)
-            try:
-                _weight.append(self.weight[-1])
-            except AttributeError:
-                ...  # ignore if bool
         for t, type, x, weight in heapq.merge(actions, zip(self._t, itertools.repeat("c"), _x, _weight if (_weight and not self._level) else (1,) * len(_x))):
             if new._level:
                 if type == "a":
-- 
2.43.0


From 676f25218a69f9f22f6da3ab740b79d27422f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:25 +0000
Subject: [PATCH 46/56] fix: Pdf and CumPdf could sample 0 instead of a given
 value

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b3c4743..fb4d768 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22776,8 +22776,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22919,8 +22919,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23093,8 +23093,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23203,8 +23203,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From d55504e76dccbf1e097854e4128c1994deead8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:39 +0000
Subject: [PATCH 47/56] fix: mean of External ignored positional parameters of
 a scipy distribution

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fb4d768..75f95ed 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23280,7 +23280,8 @@ class External(_Distribution):
         self.register_time_unit(time_unit, env)
         self.samples = []
         if self.dis_is_scipy:
-            self._mean = self.dis.mean(**{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
+            number_of_parameters = self.dis.numargs + (2 if isinstance(dis, scipy.stats.rv_continuous) else 1)  # shape(s), loc and scale
+            self._mean = self.dis.mean(*self.args[:number_of_parameters], **{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
         else:
             self._mean = nan
 
-- 
2.43.0


From 8bff371ae69fd9c82f59d7eb6a3f48d6836fad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 48/56] fix: ComponentGenerator with a sampled number of 1
 ignored force_at

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 75f95ed..b6065d2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20567,7 +20567,7 @@ class ComponentGenerator(Component):
 
                     moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
                             moments = [at] if force_at else [self.till]
-- 
2.43.0


From 94adf4a64deab29233134f0d374aff061050c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:11 +0000
Subject: [PATCH 49/56] fix: base_name() changed when an object with a plain
 name was renamed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b6065d2..ae0bb3d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25201,6 +25201,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From a128d18b081e82e0c21a99ee2b3fadedfa307dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 50/56] fix: renaming a queue or resource gave its monitors
 other names than at creation

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ae0bb3d..02caebc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4822,7 +4822,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
@@ -24506,7 +24508,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 24a031924dfa211998090cf5f15314d19c2db201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:27 +0000
Subject: [PATCH 51/56] =?UTF-8?q?fix:=20requester=20queues=20of=20a=20Stor?=
 =?UTF-8?q?e=20without=20a=20name=20were=20called=20None.=E2=80=A6?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 02caebc..9bc5f8b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5736,9 +5736,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
-- 
2.43.0


From a458d86bdc8458befbd638abf2c64ab0ba317605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:49 +0000
Subject: [PATCH 52/56] fix: merging level monitors of different types took the
 off value of a monitor as a value

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9bc5f8b..536c77f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From d3e00cd7d785209fd1eb677891f202e357e721b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:58 +0000
Subject: [PATCH 53/56] fix: slices of sliced, merged, mapped or multiplied
 monitors were empty (start was not kept)

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 536c77f..2ee5d85 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -635,6 +635,7 @@ class Monitor:
                     new._weight.append(weight)
                 new._t.append(t)
                 new._x.append(x)
+            new.start = min(m.start for m in merge)
         new.monitor(False)
         new.isgenerated = True
         return new
@@ -741,6 +742,7 @@ class Monitor:
                 new._t.append(t)
             if self._weight:
                 new._weight = self._weight[:]
+            new.start = self.start
 
         for m in monitors:
             del m._x_any
@@ -830,6 +832,7 @@ class Monitor:
         if name is None:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
+        new.start = self.start
         actions = []
         if modulo is None:
             if start is None:
@@ -1602,6 +1605,7 @@ class Monitor:
             new._t = [t for t in self._t]
             if self._weight:
                 new._weight = self._weight[:]
+            new.start = self.start
             return new
 
         else:
-- 
2.43.0


From e395513457691085256b5c1eaa4ecd97cfae086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:06 +0000
Subject: [PATCH 54/56] fix: Monitor.slice with modulo missed the period at the
 start and went on after now

---
 salabim/salabim.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2ee5d85..745f229 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -861,13 +861,15 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = (start + self.env._offset) % modulo
-            stop = (stop + self.env._offset) % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
+            len1 = stop - start
+            t_extra = self.env._t if self.env._animate else self.env._now
+            start1 = self.start - (self.start - (start + self.env._offset)) % modulo  # last period that starts not later than the monitor
+            while start1 <= t_extra:
                 actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                if start1 + len1 > t_extra:
+                    actions.append((t_extra, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
                 start1 += modulo
 
         if new._level:
-- 
2.43.0


From 6bd2feef2618a7d1a55a5fe55cf10e9c45b52d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 55/56] fix: x_map and t_multiply of a stats_only monitor used
 an old record

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 745f229..1843675 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -641,6 +641,7 @@ class Monitor:
         return new
 
     def t_multiply(self, factor, name=None):
+        self._block_stats_only()
         if name is None:
             name = "mapped"
 
@@ -699,6 +700,8 @@ class Monitor:
             monitors = [self] + monitors
         else:
             monitors = [self]
+        for m in monitors:
+            m._block_stats_only()
         if not all(m._level == self._level for m in monitors):
             raise TypeError("not possible to mix level and non level monitors")
         if not all(m.env == self.env for m in monitors):
-- 
2.43.0


From 5af4a35f32a6184a17550455b21ba073656c7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:57 +0000
Subject: [PATCH 56/56] fix: an equidistant generator with disturbance started
 one interval late and went on after the end

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1843675..340b960 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20597,7 +20597,7 @@ class ComponentGenerator(Component):
             else:
                 if equidistant:
                     force_till = False  # just to prevent errors further on
-                    force_at = True  # just to prevent errors further on
+                    force_at = self.force_at = True  # the first one at the start, also with disturbance
                     duration = self.till - at
                     if duration < 0:
                         raise ValueError("at > till not allowed for equidistant")
-- 
2.43.0

