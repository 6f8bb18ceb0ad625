From 3173c597e4061d8d21dff905504dff0813a5d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 1/9] fix: a clone of Steer must drive all of its services to
 readiness itself

A clone copied the list of services that still have to become ready, so a
clone of a ready Steer dispatched requests to cloned services whose
poll_ready had never been called.
---
 tower/src/steer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..ae3b092 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,9 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // Readiness does not carry over to a clone: every cloned service
+            // must be polled to readiness before the clone can be called.
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From e27a4a18a8b163c10598acebafff812676e1745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 2/9] fix: AsyncFilter::layer must build AsyncFilter services

It returned the layer of the synchronous filter, whose services do not
accept the asynchronous predicate the layer was given.
---
 tower/src/filter/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/filter/mod.rs b/tower/src/filter/mod.rs
index c53ba40..1ce257d 100644
--- a/tower/src/filter/mod.rs
+++ b/tower/src/filter/mod.rs
@@ -131,8 +131,8 @@ impl<T, U> AsyncFilter<T, U> {
     /// service with the given [`AsyncPredicate`].
     ///
     /// [`Layer`]: crate::Layer
-    pub fn layer(predicate: U) -> FilterLayer<U> {
-        FilterLayer::new(predicate)
+    pub fn layer(predicate: U) -> AsyncFilterLayer<U> {
+        AsyncFilterLayer::new(predicate)
     }
 
     /// Check a `Request` value against this filter's predicate.
-- 
2.43.0


From 101fe964de8df6aee2f40bef037d38a12dbaf66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 3/9] fix: CallAll::unordered must not lose a request it
 already took

A request taken from the stream while the service was not ready was
silently dropped; as documented, converting a polled CallAll panics.
---
 tower/src/util/call_all/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/util/call_all/common.rs b/tower/src/util/call_all/common.rs
index 9f2490b..fca8211 100644
--- a/tower/src/util/call_all/common.rs
+++ b/tower/src/util/call_all/common.rs
@@ -75,7 +75,7 @@ where
     }
 
     pub(crate) fn unordered(mut self) -> super::CallAllUnordered<Svc, S> {
-        assert!(self.queue.is_empty() && !self.eof);
+        assert!(self.queue.is_empty() && self.curr_req.is_none() && !self.eof);
 
         super::CallAllUnordered::new(self.service.take().unwrap(), self.stream)
     }
-- 
2.43.0


From 99956dfa386456412e974391c71eac71c8d3e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 4/9] fix: a jitter factor of zero is a valid random number

Rng::next_f64 returns values in [0, 1), so the assertion failed in debug
builds when the generator returned exactly zero.
---
 tower/src/retry/backoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..b56322b 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,7 +155,7 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-- 
2.43.0


From bdc40f5ea658a199847fd1aa03d5170102dee990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 5/9] fix: withdrawals from a TpsBudget must not overdraw it

Checking the balance and debiting it were separate steps, so that
concurrent withdrawals could all pass the check against the same balance
and overdraw the budget. Hold the generation lock across both.
---
 tower/src/retry/budget/tps_budget.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..2dca135 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -4,7 +4,7 @@ use std::{
     fmt,
     sync::{
         atomic::{AtomicIsize, Ordering},
-        Mutex,
+        Mutex, MutexGuard,
     },
     time::Duration,
 };
@@ -111,14 +111,14 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
+    fn expire(&self) -> MutexGuard<'_, Generation> {
         let mut gen = self.generation.lock().expect("generation lock");
 
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
             // not expired yet
-            return;
+            return gen;
         }
 
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
@@ -134,6 +134,7 @@ impl TpsBudget {
 
         gen.index = idx;
         gen.time = now;
+        gen
     }
 
     fn sum(&self) -> isize {
@@ -151,14 +152,16 @@ impl TpsBudget {
     }
 
     fn put(&self, amt: isize) {
-        self.expire();
+        drop(self.expire());
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        // Hold the lock, so that no other withdrawal comes between reading the
+        // balance and debiting it.
+        let _gen = self.expire();
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From a12b988a67b55e45167be359f6396bf67215135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 6/9] fix: Balance must not poll its discover stream after it
 ended

A stream must not be polled again once it returned None: it may panic or
misbehave, but every poll_ready of the balancer polled it.
---
 tower/src/balance/p2c/service.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..a1c7932 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,7 @@ where
     D::Key: Hash,
 {
     discover: D,
+    discover_done: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +74,7 @@ where
         Self {
             rng,
             discover,
+            discover_done: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -108,12 +110,19 @@ where
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
         debug!("updating from discover");
+        // A stream must not be polled again once it has ended.
+        if self.discover_done {
+            return Poll::Ready(None);
+        }
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_done = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     self.services.evict(&key);
-- 
2.43.0


From 2379335ddcc2ea590377f5c6576acb651f7d98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 7/9] fix: Reconnect must stay ready until it reported a
 connect error

Polling a ready Reconnect again after a failed connection attempt revoked
the readiness it had reported, and the call that followed got the stale
error although a connection had since been made.
---
 tower/src/reconnect/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tower/src/reconnect/mod.rs b/tower/src/reconnect/mod.rs
index 0062fe3..3de4762 100644
--- a/tower/src/reconnect/mod.rs
+++ b/tower/src/reconnect/mod.rs
@@ -82,6 +82,12 @@ where
     type Future = ResponseFuture<S::Future, M::Error>;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        // The error of a failed connection attempt is returned by the next
+        // call: until then, this service stays ready.
+        if self.error.is_some() {
+            return Poll::Ready(Ok(()));
+        }
+
         loop {
             match &mut self.state {
                 State::Idle => {
-- 
2.43.0


From c1c6d9dee7f772193f26a8491f7998fbd953cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 8/9] fix: deposits in a TpsBudget must not expire before their
 ttl

---
 tower/src/retry/budget/tps_budget.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index 2dca135..7b4d3bf 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -124,16 +124,21 @@ impl TpsBudget {
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
         self.slots[gen.index].store(to_commit, Ordering::SeqCst);
 
-        let mut diff = diff;
+        // Move on by as many slots as whole windows have passed, and keep the
+        // rest of the time for the window that is now current, or else deposits
+        // expire before their ttl has passed.
+        let mut diff = diff - self.window;
+        let mut time = gen.time + self.window;
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        while diff >= self.window {
             self.slots[idx].store(0, Ordering::SeqCst);
             diff -= self.window;
+            time += self.window;
             idx = (idx + 1) % self.slots.len();
         }
 
         gen.index = idx;
-        gen.time = now;
+        gen.time = time;
         gen
     }
 
-- 
2.43.0


From f884a0a60e385f168bccf463dec1b611af3878a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:54 +0000
Subject: [PATCH 9/9] fix: hedge latency histogram with a period of no length,
 or idle for 2^32 periods

A zero period divided by zero in the first request; the number of elapsed
periods was truncated to 32 bits, so that latencies could be looked at again
long after their period.
---
 tower/src/hedge/rotating_histogram.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index 4b07a15..08e7e8b 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -41,7 +41,9 @@ impl RotatingHistogram {
     fn maybe_rotate(&mut self) {
         let delta = Instant::now().saturating_duration_since(self.last_rotation);
         // TODO: replace with delta.duration_div when it becomes stable.
-        let rotations = (nanos(delta) / nanos(self.period)) as u32;
+        // A period of no length counts as the shortest one there is.
+        let period = nanos(self.period).max(1);
+        let rotations = nanos(delta) / period;
         if rotations >= 2 {
             trace!("Time since last rotation is {:?}.  clearing!", delta);
             self.clear();
@@ -49,7 +51,7 @@ impl RotatingHistogram {
             trace!("Time since last rotation is {:?}. rotating!", delta);
             self.rotate();
         }
-        self.last_rotation += self.period * rotations;
+        self.last_rotation += Duration::from_nanos(period * rotations);
     }
 
     fn rotate(&mut self) {
-- 
2.43.0

