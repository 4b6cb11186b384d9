From ea74dec482114f3bd23fb3916d1da81add14df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:12 +0000
Subject: [PATCH 01/47] fix: reject transport allocations whose size overflows

Adding the frame header to a size near SIZE_MAX wrapped around, so the
allocation passed the FRAME_LARGE check and wrote outside of the arena.
---
 src/transport.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index af9b36a..b785126 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -511,6 +511,11 @@ a0_err_t a0_transport_find_slot(a0_transport_locked_t lk, size_t frame_size, siz
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
+  // The first comparison holds if adding the frame header to the requested size overflowed.
+  if (frame_size < sizeof(a0_transport_frame_hdr_t) || frame_size > hdr->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
+
   bool empty;
   A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
 
-- 
2.43.0


From 4b2ae4dfa69c1bb6b22ac5119880aecbe00f2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:17 +0000
Subject: [PATCH 02/47] fix: hide incomplete transport changes from readonly
 and exclusive users

After a writer died between alloc and commit, a transport opened with
READONLY or EXCLUSIVE mode, which take no lock, exposed the half-made
working page. Exclusive users now restore it on open. Readonly users
read the committed page, and can no longer commit or clear.
---
 src/transport.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index b785126..b18e712 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -72,6 +72,10 @@ a0_transport_state_t* a0_transport_committed_page(a0_transport_locked_t lk) {
 
 A0_STATIC_INLINE
 a0_transport_state_t* a0_transport_working_page(a0_transport_locked_t lk) {
+  // A readonly user makes no changes and must not see the incomplete changes of others.
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return a0_transport_committed_page(lk);
+  }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   return &hdr->state_pages[!hdr->committed_page_idx];
 }
@@ -150,6 +154,11 @@ a0_err_t a0_transport_init(a0_transport_t* transport, a0_arena_t arena) {
   a0_transport_locked_t lk;
   A0_RETURN_ERR_ON_ERR(a0_transport_lock(transport, &lk));
 
+  if (transport->_arena.mode == A0_ARENA_MODE_EXCLUSIVE) {
+    // Clear any incomplete changes.
+    *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
+  }
+
   if (!hdr->initialized) {
     memcpy(hdr->magic, "ALEPHZERO", 9);
     hdr->version.major = 0;
@@ -672,6 +681,9 @@ a0_err_t a0_transport_allocator(a0_transport_locked_t* lk, a0_alloc_t* alloc_out
 }
 
 a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   // Assume page A was the previously committed page and page B is the working
   // page that is ready to be committed. Both represent a valid state for the
@@ -705,6 +717,9 @@ a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
 }
 
 a0_err_t a0_transport_clear(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
   a0_transport_state_t* state = a0_transport_working_page(lk);
   state->seq_low = state->seq_high + 1;
   state->off_head = 0;
-- 
2.43.0


From 36d338000ceeb0336f1237770dc2517daecd3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:35 +0000
Subject: [PATCH 03/47] fix: keep waiting on an event when another user of it
 dies

The death of a thread or process inside an event call was passed on to
those waiting on the event as an error, before the event was set.
---
 src/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.c b/src/event.c
index af52d7b..1773b55 100644
--- a/src/event.c
+++ b/src/event.c
@@ -39,6 +39,10 @@ a0_err_t a0_event_timedwait(a0_event_t* e, a0_time_mono_t* timeout) {
 
   while (!err && !e->_val) {
     err = a0_cnd_timedwait(&e->_cnd, &e->_mtx, timeout);
+    // The death of another user is not the concern of those waiting.
+    if (a0_mtx_previous_owner_died(err)) {
+      err = A0_OK;
+    }
   }
   a0_mtx_unlock(&e->_mtx);
   return err;
-- 
2.43.0


From 33656a3c3ae3ee21838ef77d175e16011f80e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:44 +0000
Subject: [PATCH 04/47] fix: leave no event or latch waiter asleep when the one
 releasing them dies

The new state was stored before the waiters were notified. A thread dying
in between left them asleep although the event was set or the latch open.
---
 src/event.c |  4 +++-
 src/latch.c | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index 1773b55..d39260e 100644
--- a/src/event.c
+++ b/src/event.c
@@ -20,8 +20,10 @@ a0_err_t a0_event_set(a0_event_t* e) {
   if (!a0_mtx_lock_successful(err)) {
     return err;
   }
-  e->_val = true;
+  // Notify first: the waiters only get to run once the mutex is released,
+  // and no waiter is left behind if this thread dies in between.
   a0_cnd_broadcast(&e->_cnd, &e->_mtx);
+  e->_val = true;
   a0_mtx_unlock(&e->_mtx);
   return A0_OK;
 }
diff --git a/src/latch.c b/src/latch.c
index 58795e9..7cca827 100644
--- a/src/latch.c
+++ b/src/latch.c
@@ -18,10 +18,12 @@ a0_err_t a0_latch_count_down(a0_latch_t* l, int32_t update) {
     return err;
   }
 
-  l->_val -= update;
-  if (l->_val <= 0) {
+  // Notify first: the waiters only get to run once the mutex is released,
+  // and no waiter is left behind if this thread dies in between.
+  if (l->_val - update <= 0) {
     a0_cnd_broadcast(&l->_cnd, &l->_mtx);
   }
+  l->_val -= update;
 
   a0_mtx_unlock(&l->_mtx);
   return A0_OK;
@@ -49,10 +51,12 @@ a0_err_t a0_latch_arrive_and_wait(a0_latch_t* l, int32_t update) {
     return err;
   }
 
-  l->_val -= update;
-  if (l->_val <= 0) {
+  // Notify first: the waiters only get to run once the mutex is released,
+  // and no waiter is left behind if this thread dies in between.
+  if (l->_val - update <= 0) {
     a0_cnd_broadcast(&l->_cnd, &l->_mtx);
   }
+  l->_val -= update;
   while (l->_val > 0) {
     a0_cnd_wait(&l->_cnd, &l->_mtx);
   }
-- 
2.43.0


From 45e230f22a33ca44759857d3d7550770df0376a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:15 +0000
Subject: [PATCH 05/47] fix: hide incomplete changes from a user returning from
 a wait

Locking discards what the previous holder left uncommitted, but a wait
takes the lock again without doing so. A waiter that resumed after another
user died, or waited, with an allocation outstanding saw that allocation.
---
 src/transport.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index b18e712..51171ab 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -376,6 +376,8 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
 
   while (!lk.transport->_shutdown) {
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+    // Clear any incomplete changes of whoever had the lock in the meantime.
+    *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
     if (A0_SYSERR(err) == ETIMEDOUT) {
       break;
     }
-- 
2.43.0


From 547fbf8d66f3f56811b32245d99e8142e929444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:07 +0000
Subject: [PATCH 06/47] fix: leave no waiter asleep when the process committing
 a frame dies

The frame was made visible before the waiters were notified. A process
dying in between left them asleep although what they wait for is there.
---
 src/transport.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 51171ab..9cb10bc 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -687,6 +687,11 @@ a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
     return A0_MAKE_SYSERR(EPERM);
   }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
+
+  // Notify first: the waiters only get to run once the lock is released, and
+  // none is left behind if this process dies before the function returns.
+  a0_cnd_broadcast(&hdr->cnd, &hdr->mtx);
+
   // Assume page A was the previously committed page and page B is the working
   // page that is ready to be committed. Both represent a valid state for the
   // transport. It's possible that the copying of B into A will fail (prog crash),
@@ -695,8 +700,6 @@ a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
   hdr->committed_page_idx = !hdr->committed_page_idx;
   *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
 
-  a0_cnd_broadcast(&hdr->cnd, &hdr->mtx);
-
   return A0_OK;
 }
 
-- 
2.43.0


From 6372af1a75acdd1cb7fef8232ba66c131538c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:47 +0000
Subject: [PATCH 07/47] fix: never wait for the unlock of a deadman that is not
 locked

---
 src/deadman_mtx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..e897295 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -90,6 +90,11 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     }
     err = A0_OK;
 
+    // Only wait for someone else's unlock. If it was unlocked, try again.
+    if (!a0_ftx_tid(old)) {
+      continue;
+    }
+
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-- 
2.43.0


From 4912f1f0b5b8b3377addeb8837626195a882773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:15 +0000
Subject: [PATCH 08/47] fix: give those waiting on a deadman the token of its
 current owner

---
 src/deadman_mtx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index e897295..f9d91d3 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -45,11 +45,13 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   if (!a0_ftx_tid(old)) {
-    uint32_t new = (old | tid) & (~FUTEX_OWNER_DIED);
+    // The owner is not visible to those waiting on the state until the token is updated.
+    uint32_t new = old | tid | FUTEX_OWNER_DIED;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
-      d->_stkn->_tkn++;
+      a0_atomic_add_fetch(&d->_stkn->_tkn, 1);
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
     }
   } else if (a0_ftx_tid(old) == tid) {
-- 
2.43.0


From 56ab357279ffd5ceec1203d5017db677909dcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:15 +0000
Subject: [PATCH 09/47] fix: report the owner and the token of a deadman from
 the same moment

---
 src/deadman_mtx.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index f9d91d3..a58bd5f 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -223,12 +223,19 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
-  out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  out_state->owner_tid = a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx));
-  if (a0_ftx_owner_died(out_state->owner_tid)) {
-    out_state->owner_tid = 0;
-  }
+  uint32_t ftx;
+  do {
+    ftx = a0_atomic_load(&d->_stkn->_mtx.ftx);
+    out_state->is_owner = a0_atomic_load(&d->_is_owner);
+    out_state->tkn = a0_atomic_load(&d->_stkn->_tkn);
+    // Retry if the owner may have changed, to not mix the state of different owners.
+  } while (ftx != a0_atomic_load(&d->_stkn->_mtx.ftx));
+
+  out_state->owner_tid = a0_ftx_owner_died(ftx) ? 0 : a0_ftx_tid(ftx);
   out_state->is_locked = out_state->owner_tid != 0;
-  out_state->tkn = out_state->is_locked ? a0_atomic_load(&d->_stkn->_tkn) : 0;
+  if (!out_state->is_locked) {
+    out_state->is_owner = false;
+    out_state->tkn = 0;
+  }
   return A0_OK;
 }
-- 
2.43.0


From 5033374e7dfbbb442d3251dcc995491a24a8676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:50 +0000
Subject: [PATCH 10/47] fix: do not report a free deadman as busy because
 someone started to wait on it

---
 src/deadman_mtx.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index a58bd5f..8531d11 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -40,25 +40,23 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
     return A0_MAKE_SYSERR(ESHUTDOWN);
   }
 
-  a0_err_t err = A0_MAKE_SYSERR(EBUSY);
-
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  if (!a0_ftx_tid(old)) {
+  // The swap also fails if someone starts waiting. That doesn't make it locked.
+  while (!a0_ftx_tid(old)) {
     // The owner is not visible to those waiting on the state until the token is updated.
     uint32_t new = old | tid | FUTEX_OWNER_DIED;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
       a0_atomic_add_fetch(&d->_stkn->_tkn, 1);
       a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      return a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
     }
-  } else if (a0_ftx_tid(old) == tid) {
-    err = A0_MAKE_SYSERR(EDEADLK);
+    old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
 
-  return err;
+  return A0_MAKE_SYSERR(a0_ftx_tid(old) == tid ? EDEADLK : EBUSY);
 }
 
 a0_err_t a0_deadman_mtx_trylock(a0_deadman_mtx_t* d) {
-- 
2.43.0


From 320567aa5440fe7164ffa85d8d5c2f2fecb4ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:45 +0000
Subject: [PATCH 11/47] fix: release all operations blocked on a deadman when
 it is shutdown

---
 include/a0/deadman_mtx.h |  2 +-
 src/deadman_mtx.c        | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/a0/deadman_mtx.h b/include/a0/deadman_mtx.h
index 5bb2f5e..9248cb4 100644
--- a/include/a0/deadman_mtx.h
+++ b/include/a0/deadman_mtx.h
@@ -31,7 +31,7 @@ typedef struct a0_deadman_mtx_shared_token_s {
 typedef struct a0_deadman_mtx_s {
   a0_deadman_mtx_shared_token_t* _stkn;
   bool _shutdown;
-  bool _inop;
+  uint32_t _inop;  // Number of active lock/wait operations.
   bool _is_owner;
 } a0_deadman_mtx_t;
 
diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 8531d11..5f49910 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -108,7 +108,7 @@ a0_err_t a0_deadman_mtx_timedlock(a0_deadman_mtx_t* d, a0_time_mono_t* timeout)
     return A0_OK;
   }
 
-  a0_atomic_store(&d->_inop, true);
+  a0_atomic_add_fetch(&d->_inop, 1);
 
   a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedlock_impl(d, timeout);
@@ -119,7 +119,7 @@ a0_err_t a0_deadman_mtx_timedlock(a0_deadman_mtx_t* d, a0_time_mono_t* timeout)
   }
   a0_robust_op_end(&d->_stkn->_mtx);
 
-  a0_atomic_store(&d->_inop, false);
+  a0_atomic_add_fetch(&d->_inop, -1);
   return err;
 }
 
@@ -180,9 +180,9 @@ a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* ti
     out_tkn = &unused_tkn;
   }
 
-  a0_atomic_store(&d->_inop, true);
+  a0_atomic_add_fetch(&d->_inop, 1);
   a0_err_t err = a0_deadman_mtx_timedwait_locked_impl(d, timeout, out_tkn);
-  a0_atomic_store(&d->_inop, false);
+  a0_atomic_add_fetch(&d->_inop, -1);
   return err;
 }
 
@@ -213,9 +213,9 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 }
 
 a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
-  a0_atomic_store(&d->_inop, true);
+  a0_atomic_add_fetch(&d->_inop, 1);
   a0_err_t err = a0_deadman_mtx_timedwait_unlocked_impl(d, timeout, tkn);
-  a0_atomic_store(&d->_inop, false);
+  a0_atomic_add_fetch(&d->_inop, -1);
   return err;
 }
 
-- 
2.43.0


From 37eafeb821fd0f8b916743976762c92131bbbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:31 +0000
Subject: [PATCH 12/47] fix: leave nobody waiting on a deadman whose owner dies
 while unlocking it

---
 src/deadman_mtx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 5f49910..99c7014 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -134,12 +134,14 @@ a0_err_t a0_deadman_mtx_unlock(a0_deadman_mtx_t* d) {
   a0_robust_op_del(&d->_stkn->_mtx);
 
   a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, FUTEX_WAITERS);
+  // Must precede the end of the robust operation.
+  // Until then, the kernel will wake a waiter if the thread dies.
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
 
   a0_robust_op_end(&d->_stkn->_mtx);
   __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
 
   d->_is_owner = false;
-  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
   return A0_OK;
 }
 
-- 
2.43.0


From 04c59c8be39c181a2460f75244d6904680b0a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:12 +0000
Subject: [PATCH 13/47] fix: let every waiter of a deadman know of its owner's
 death

---
 src/deadman_mtx.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 99c7014..de587b4 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -164,6 +164,13 @@ a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
       }
+
+      old = a0_atomic_load(&d->_stkn->_mtx.ftx);
+      // The death of an owner wakes a single waiter. Pass it on.
+      if (old != new && (!a0_ftx_tid(old) || a0_ftx_owner_died(old))) {
+        a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      }
+      continue;
     }
 
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
@@ -207,6 +214,13 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
       }
+
+      old = a0_atomic_load(&d->_stkn->_mtx.ftx);
+      // The death of an owner wakes a single waiter. Pass it on.
+      if (old != new && (!a0_ftx_tid(old) || a0_ftx_owner_died(old))) {
+        a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      }
+      continue;
     }
 
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-- 
2.43.0


From c6d864863ff07b953fa16a270e692d6d1a5c70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:07 +0000
Subject: [PATCH 14/47] fix: pair the token returned by waiting on a deadman
 with a visible owner

---
 src/deadman_mtx.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index de587b4..5ef8c15 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -152,7 +152,22 @@ a0_err_t a0_deadman_mtx_wait_locked(a0_deadman_mtx_t* d, uint64_t* out_tkn) {
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  while (!a0_ftx_tid(old) || a0_ftx_owner_died(old)) {
+  while (true) {
+    if (a0_ftx_tid(old) && !a0_ftx_owner_died(old)) {
+      __tsan_mutex_pre_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock);
+      *out_tkn = a0_atomic_load(&d->_stkn->_tkn);
+      __tsan_mutex_post_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock | __tsan_mutex_try_lock_failed, 0);
+      A0_TSAN_HAPPENS_AFTER(&d->_stkn->_mtx.ftx);
+
+      // The token may be that of the next owner.
+      uint32_t now = a0_atomic_load(&d->_stkn->_mtx.ftx);
+      if (now == old) {
+        return A0_OK;
+      }
+      old = now;
+      continue;
+    }
+
     if (a0_atomic_load(&d->_shutdown)) {
       A0_TSAN_HAPPENS_AFTER(&d->_shutdown);
       return A0_MAKE_SYSERR(ESHUTDOWN);
@@ -175,12 +190,6 @@ a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_
 
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
-
-  __tsan_mutex_pre_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock);
-  *out_tkn = a0_atomic_load(&d->_stkn->_tkn);
-  __tsan_mutex_post_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock | __tsan_mutex_try_lock_failed, 0);
-  A0_TSAN_HAPPENS_AFTER(&d->_stkn->_mtx.ftx);
-  return A0_OK;
 }
 
 a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
-- 
2.43.0


From 420106a0cbf34d3d19af6899ef9a1d81a27206fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:23 +0000
Subject: [PATCH 15/47] fix: refuse closing a reader from within its callback
 instead of hanging

The id recorded by the reader's thread is that of the kernel. It was compared with
a pthread_t, which never matched.
---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..0b48677 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -413,7 +413,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 #ifdef DEBUG
-- 
2.43.0


From 0534631d507a52c85135329cc42eb1459e06560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:39 +0000
Subject: [PATCH 16/47] fix: refuse closing subscribers, servers, clients,
 watchers and listeners from their callbacks

The reader's refusal was ignored and the file was unmapped under the running
thread.
---
 src/cfg.c    | 2 +-
 src/log.c    | 2 +-
 src/prpc.c   | 4 ++--
 src/pubsub.c | 4 ++--
 src/rpc.c    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cfg.c b/src/cfg.c
index ea96204..53935f6 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -127,7 +127,7 @@ a0_err_t a0_cfg_watcher_init(a0_cfg_watcher_t* cw,
 }
 
 a0_err_t a0_cfg_watcher_close(a0_cfg_watcher_t* cw) {
-  a0_reader_close(&cw->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&cw->_reader));
   a0_file_close(&cw->_file);
   return A0_OK;
 }
diff --git a/src/log.c b/src/log.c
index 0923f8b..4b31f25 100644
--- a/src/log.c
+++ b/src/log.c
@@ -164,7 +164,7 @@ a0_err_t a0_log_listener_init(a0_log_listener_t* log_list,
 }
 
 a0_err_t a0_log_listener_close(a0_log_listener_t* log_list) {
-  a0_reader_close(&log_list->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&log_list->_reader));
   a0_file_close(&log_list->_file);
   return A0_OK;
 }
diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..c21d0aa 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_prpc_server_init(a0_prpc_server_t* server,
 }
 
 a0_err_t a0_prpc_server_close(a0_prpc_server_t* server) {
-  a0_reader_close(&server->_connection_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_connection_reader));
   a0_writer_close(&server->_progress_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -230,7 +230,7 @@ a0_err_t a0_prpc_client_init(a0_prpc_client_t* client,
 }
 
 a0_err_t a0_prpc_client_close(a0_prpc_client_t* client) {
-  a0_reader_close(&client->_progress_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_progress_reader));
   a0_writer_close(&client->_connection_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_connections);
diff --git a/src/pubsub.c b/src/pubsub.c
index fd959dd..035af30 100644
--- a/src/pubsub.c
+++ b/src/pubsub.c
@@ -168,7 +168,7 @@ a0_err_t a0_subscriber_zc_init(a0_subscriber_zc_t* sub_zc,
 }
 
 a0_err_t a0_subscriber_zc_close(a0_subscriber_zc_t* sub_zc) {
-  a0_reader_zc_close(&sub_zc->_reader_zc);
+  A0_RETURN_ERR_ON_ERR(a0_reader_zc_close(&sub_zc->_reader_zc));
   a0_file_close(&sub_zc->_file);
   return A0_OK;
 }
@@ -197,7 +197,7 @@ a0_err_t a0_subscriber_init(a0_subscriber_t* sub,
 }
 
 a0_err_t a0_subscriber_close(a0_subscriber_t* sub) {
-  a0_reader_close(&sub->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&sub->_reader));
   a0_file_close(&sub->_file);
   return A0_OK;
 }
diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..783d6e2 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_rpc_server_init(a0_rpc_server_t* server,
 }
 
 a0_err_t a0_rpc_server_close(a0_rpc_server_t* server) {
-  a0_reader_close(&server->_request_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_request_reader));
   a0_writer_close(&server->_response_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -237,7 +237,7 @@ a0_err_t a0_rpc_client_init(a0_rpc_client_t* client,
 }
 
 a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
-  a0_reader_close(&client->_response_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_response_reader));
   a0_writer_close(&client->_request_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_requests);
-- 
2.43.0


From f65c6cd6ceac22204bdff69bd2bdfebb27c4b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:39 +0000
Subject: [PATCH 17/47] fix: refuse closing a discovery from within its
 callback

The discovery was torn down under its own running thread.
---
 src/discovery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..afe9e8f 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -289,6 +289,10 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
 }
 
 a0_err_t a0_discovery_close(a0_discovery_t* d) {
+  if (pthread_equal(pthread_self(), d->_thread)) {
+    return A0_MAKE_SYSERR(EDEADLK);
+  }
+
   uint64_t writ = 1;
   (void)!write(d->_close_fd, &writ, sizeof(uint64_t));
   pthread_join(d->_thread, NULL);
-- 
2.43.0


From 1aa21d82d0d8c066aae617f655c9e7b3a7a59fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 18/47] fix: compare pointers without truncating the difference
 to int

Pointers that differ by a multiple of 4 GiB compared equal, and
differences of 2 GiB or more had the wrong sign.
---
 src/cmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index 76d9f77..22298ff 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -58,7 +58,9 @@ const a0_hash_t A0_HASH_PTR = {
 
 a0_err_t a0_cmp_ptr_fn(void* user_data, const void* lhs, const void* rhs, int* out) {
   A0_MAYBE_UNUSED(user_data);
-  *out = (int)(*(uintptr_t*)lhs - *(uintptr_t*)rhs);
+  uintptr_t lhs_ptr = *(uintptr_t*)lhs;
+  uintptr_t rhs_ptr = *(uintptr_t*)rhs;
+  *out = (lhs_ptr > rhs_ptr) - (lhs_ptr < rhs_ptr);
   return A0_OK;
 }
 
-- 
2.43.0


From c4ba1d46a3d5175d79c84359c9e6323152cf1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 19/47] fix: compare buffer sizes without truncating them to
 int

Buffers whose sizes differ by a multiple of 4 GiB compared equal.
---
 src/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index 22298ff..fce9483 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -95,7 +95,7 @@ a0_err_t a0_cmp_buf_fn(void* user_data, const void* lhs, const void* rhs, int* o
   a0_buf_t* lhs_buf = (a0_buf_t*)lhs;
   a0_buf_t* rhs_buf = (a0_buf_t*)rhs;
   if (lhs_buf->size != rhs_buf->size) {
-    *out = (int)(lhs_buf->size) - (int)(rhs_buf->size);
+    *out = (lhs_buf->size > rhs_buf->size) - (lhs_buf->size < rhs_buf->size);
   } else {
     *out = memcmp(lhs_buf->data, rhs_buf->data, lhs_buf->size);
   }
-- 
2.43.0


From 35d7a3b14aa48f1708c02c7d4670d32664d81c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 20/47] fix: keep the uuid hash inside its lookup table

The table had 128 entries but is indexed by any byte of the key.
---
 src/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index fce9483..cfcc470 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -142,7 +142,7 @@ const a0_cmp_t A0_CMP_STR = {
 //////////////////
 
 // clang-format off
-static const uint8_t UNHEX_VALUES[] = {
+static const uint8_t UNHEX_VALUES[256] = {
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
-- 
2.43.0


From 94e701532640d3d37ec53b0fd17e69cc7b619e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 21/47] fix: use one temporary bucket per map insertion

The temporary was taken from the stack once per shifted entry, and the
stack overflowed when an insertion shifted many entries.
---
 src/map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 1a75f59..b80c5a4 100644
--- a/src/map.c
+++ b/src/map.c
@@ -150,6 +150,8 @@ a0_err_t a0_map_put(a0_map_t* map, const void* key, const void* val) {
   memcpy(new_bkt.key, key, map->_key_size);
   memcpy(new_bkt.val, val, map->_val_size);
 
+  void* tmp_bkt = alloca(map->_bucket_size);
+
   a0_map_bucket_t iter_bkt;
   A0_RETURN_ERR_ON_ERR(a0_map_bucket(map, new_bkt.idx, &iter_bkt));
 
@@ -162,7 +164,6 @@ a0_err_t a0_map_put(a0_map_t* map, const void* key, const void* val) {
     }
 
     if (*new_bkt.off > *iter_bkt.off) {
-      void* tmp_bkt = alloca(map->_bucket_size);
       memcpy(tmp_bkt, iter_bkt.dat, map->_bucket_size);
       memcpy(iter_bkt.dat, new_bkt.dat, map->_bucket_size);
       memcpy(new_bkt.dat, tmp_bkt, map->_bucket_size);
-- 
2.43.0


From 00ace89d902c4b98e2e8206331dc360b77adeec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 22/47] fix: refuse to print monotonic times that do not fit
 their text

Negative times and times of 10^19 ns or more need 20 digits. The extra
digit was written in front of the caller's buffer.
---
 src/time.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 203af6a..d3fe039 100644
--- a/src/time.c
+++ b/src/time.c
@@ -24,7 +24,11 @@ a0_err_t a0_time_mono_now(a0_time_mono_t* out) {
 
 a0_err_t a0_time_mono_str(a0_time_mono_t time_mono, char mono_str[20]) {
   // Mono time as unsigned integer with up to 20 chars: "18446744072709551615"
-  uint64_t ns = time_mono.ts.tv_sec * NS_PER_SEC + time_mono.ts.tv_nsec;
+  // Only 19 of them fit before the terminator.
+  if (time_mono.ts.tv_sec < 0 || time_mono.ts.tv_sec >= 10000000000) {
+    return A0_ERR_INVALID_ARG;
+  }
+  uint64_t ns = (uint64_t)time_mono.ts.tv_sec * NS_PER_SEC + time_mono.ts.tv_nsec;
   mono_str[19] = '\0';
   return a0_u64_to_str(ns, mono_str, mono_str + 19, NULL);
 }
-- 
2.43.0


From 5f98a750a333dbb4c41ff11c0392fb151bbcaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 23/47] fix: print wall times of every four digit year in the
 fixed shape

Years before 1000 were not padded, and years outside 0..9999 left
uninitialized characters in the text. The former are padded and the
latter refused.
---
 src/time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.c b/src/time.c
index d3fe039..d2e831e 100644
--- a/src/time.c
+++ b/src/time.c
@@ -55,9 +55,13 @@ a0_err_t a0_time_wall_now(a0_time_wall_t* out) {
 a0_err_t a0_time_wall_str(a0_time_wall_t wall_time, char wall_str[36]) {
   // Wall time in RFC 3999 Nano: "2006-01-02T15:04:05.999999999-07:00"
   struct tm wall_tm;
-  gmtime_r(&wall_time.ts.tv_sec, &wall_tm);
+  if (!gmtime_r(&wall_time.ts.tv_sec, &wall_tm) || wall_tm.tm_year < -1900 || wall_tm.tm_year > 9999 - 1900) {
+    return A0_ERR_INVALID_ARG;
+  }
 
-  strftime(&wall_str[0], 20, "%Y-%m-%dT%H:%M:%S", &wall_tm);
+  // %Y is not padded.
+  a0_u32_to_str(1900 + wall_tm.tm_year, &wall_str[0], &wall_str[4], NULL);
+  strftime(&wall_str[4], 16, "-%m-%dT%H:%M:%S", &wall_tm);
   snprintf(&wall_str[19], 17, ".%09ld-00:00", wall_time.ts.tv_nsec);
   wall_str[35] = '\0';
 
-- 
2.43.0


From 8ff3a0fc77c8bff815507980fca25ceef4834721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 24/47] fix: refuse wall time texts that name no instant

Hour 24, minute 60, second 61 and days past the end of their month were
accepted and turned into a different time.
---
 src/time.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/time.c b/src/time.c
index d2e831e..18a964d 100644
--- a/src/time.c
+++ b/src/time.c
@@ -95,13 +95,19 @@ a0_err_t a0_time_wall_parse(const char wall_str[36], a0_time_wall_t* out) {
   if (wall_tm.tm_mday < 1 || wall_tm.tm_mday > 31) {
     return A0_ERR_INVALID_ARG;
   }
+  // timegm moves days past the end of the month to the next one.
+  struct tm date_tm = wall_tm;
+  timegm(&date_tm);
+  if (date_tm.tm_mday != wall_tm.tm_mday) {
+    return A0_ERR_INVALID_ARG;
+  }
   // T
   if (wall_str[10] != 'T') {
     return A0_ERR_INVALID_ARG;
   }
   // %H
   A0_RETURN_ERR_ON_ERR(a0_str_to_u32(wall_str + 11, wall_str + 13, (uint32_t*)&wall_tm.tm_hour));
-  if (wall_tm.tm_hour > 24) {
+  if (wall_tm.tm_hour > 23) {
     return A0_ERR_INVALID_ARG;
   }
   // :
@@ -110,7 +116,7 @@ a0_err_t a0_time_wall_parse(const char wall_str[36], a0_time_wall_t* out) {
   }
   // %M
   A0_RETURN_ERR_ON_ERR(a0_str_to_u32(wall_str + 14, wall_str + 16, (uint32_t*)&wall_tm.tm_min));
-  if (wall_tm.tm_min > 60) {
+  if (wall_tm.tm_min > 59) {
     return A0_ERR_INVALID_ARG;
   }
   // :
@@ -119,7 +125,7 @@ a0_err_t a0_time_wall_parse(const char wall_str[36], a0_time_wall_t* out) {
   }
   // %S
   A0_RETURN_ERR_ON_ERR(a0_str_to_u32(wall_str + 17, wall_str + 19, (uint32_t*)&wall_tm.tm_sec));
-  if (wall_tm.tm_sec > 61) {
+  if (wall_tm.tm_sec > 60) {
     return A0_ERR_INVALID_ARG;
   }
   // .
-- 
2.43.0


From 814b7ed3e1b4ec245cf77caaec3c474410579bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 25/47] fix: do not read past the end of a short wall time text

The zone was compared before knowing that the text was long enough to
have one.
---
 src/time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.c b/src/time.c
index 18a964d..38badfc 100644
--- a/src/time.c
+++ b/src/time.c
@@ -133,11 +133,15 @@ a0_err_t a0_time_wall_parse(const char wall_str[36], a0_time_wall_t* out) {
     return A0_ERR_INVALID_ARG;
   }
 
-  if (memcmp(wall_str + 29, "-00:00", 6) != 0) {
+  // %09ld
+  uint64_t nsec;
+  A0_RETURN_ERR_ON_ERR(a0_str_to_u64(wall_str + 20, wall_str + 29, &nsec));
+  if (strncmp(wall_str + 29, "-00:00", 6) != 0) {
     return A0_ERR_INVALID_ARG;
   }
 
   // Use timegm, cause it's a pain to compute months/years to seconds.
   out->ts.tv_sec = timegm(&wall_tm);
-  return a0_str_to_u64(wall_str + 20, wall_str + 29, (uint64_t*)&out->ts.tv_nsec);
+  out->ts.tv_nsec = nsec;
+  return A0_OK;
 }
-- 
2.43.0


From a29f926999720220b3884b9f498819bc90bc369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 26/47] fix: parse times from string views that are not
 terminated

The C functions read on past the end of the view.
---
 src/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index 9357c75..84401b2 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -32,7 +32,7 @@ std::string TimeMono::to_string() {
 TimeMono TimeMono::parse(string_view str) {
   return make_cpp<TimeMono>(
       [&](a0_time_mono_t* c) {
-        return a0_time_mono_parse(str.data(), c);
+        return a0_time_mono_parse(std::string(str).c_str(), c);
       });
 }
 
@@ -103,7 +103,7 @@ std::string TimeWall::to_string() {
 TimeWall TimeWall::parse(string_view str) {
   return make_cpp<TimeWall>(
       [&](a0_time_wall_t* c) {
-        return a0_time_wall_parse(str.data(), c);
+        return a0_time_wall_parse(std::string(str).c_str(), c);
       });
 }
 
-- 
2.43.0


From e60800a85b16f0c1087f8f5562642ff622b6f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:00 +0000
Subject: [PATCH 27/47] fix: refuse patterns and paths deeper than the pathglob
 limit

The segments past the 32nd were written behind the array of parts.
---
 src/pathglob.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..3672c59 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -35,6 +35,11 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
           type = A0_PATHGLOB_PART_TYPE_RECURSIVE;
         }
       }
+      // The segment after this slash must fit as well.
+      if (glob->depth + 1 >= A0_PATHGLOB_MAX_DEPTH) {
+        a0_pathglob_close(glob);
+        return A0_ERR_BAD_PATH;
+      }
       glob->parts[glob->depth++] = (a0_pathglob_part_t){
           (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
           type,
-- 
2.43.0


From 234362e2022c032cd54c7bf3f01e7f18950d3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:46 +0000
Subject: [PATCH 28/47] fix: iterate over relative paths under the configured
 root

The directory was looked up relative to the working directory, while its
entries were reported, and by a0_file_remove_all removed, under the root.
---
 src/file.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file.c b/src/file.c
index 17e4b34..9b989bb 100644
--- a/src/file.c
+++ b/src/file.c
@@ -346,22 +346,22 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   memcpy(iter->_path, abspath, iter->_path_len + 1);
   free(abspath);
 
-  if (iter->_path[iter->_path_len - 1] != '/') {
-    iter->_path[iter->_path_len] = '/';
-    iter->_path_len++;
-  }
-
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
+  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(iter->_path, &stat));
 
   if (!S_ISDIR(stat.st_mode)) {
     return A0_MAKE_SYSERR(ENOTDIR);
   }
 
-  iter->_dir = opendir(path);
+  iter->_dir = opendir(iter->_path);
   if (!iter->_dir) {
     return A0_MAKE_SYSERR(errno);
   }
+
+  if (iter->_path[iter->_path_len - 1] != '/') {
+    iter->_path[iter->_path_len] = '/';
+    iter->_path_len++;
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From d50523dcc64e1e05594b88cbdb35ac330a2e5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:46 +0000
Subject: [PATCH 29/47] fix: honour the length of string views naming files and
 topics

Views that are not terminated were read past their end, and named a
different file.
---
 src/file.cpp  | 6 +++---
 src/topic.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/file.cpp b/src/file.cpp
index af06416..07b6bc9 100644
--- a/src/file.cpp
+++ b/src/file.cpp
@@ -37,7 +37,7 @@ File::File(string_view path, Options opts) {
       &c,
       [&](a0_file_t* c) {
         auto c_opts = c_fileopts(opts);
-        return a0_file_open(path.data(), &c_opts, c);
+        return a0_file_open(std::string(path).c_str(), &c_opts, c);
       },
       a0_file_close);
 }
@@ -86,7 +86,7 @@ stat_t File::stat() const {
 }
 
 void File::remove(string_view path) {
-  auto err = a0_file_remove(path.data());
+  auto err = a0_file_remove(std::string(path).c_str());
   // Ignore "No such file or directory" errors.
   if (A0_SYSERR(err) == ENOENT) {
     return;
@@ -95,7 +95,7 @@ void File::remove(string_view path) {
 }
 
 void File::remove_all(string_view path) {
-  check(a0_file_remove_all(path.data()));
+  check(a0_file_remove_all(std::string(path).c_str()));
 }
 
 }  // namespace a0
diff --git a/src/topic.cpp b/src/topic.cpp
index 2bed46a..a34599e 100644
--- a/src/topic.cpp
+++ b/src/topic.cpp
@@ -14,7 +14,7 @@ namespace a0 {
 
 std::string topic_path(string_view tmpl, string_view topic) {
   const char* path;
-  check(a0_topic_path(tmpl.data(), topic.data(), &path));
+  check(a0_topic_path(std::string(tmpl).c_str(), std::string(topic).c_str(), &path));
   std::string ret = path;
   free((void*)path);
   return ret;
@@ -24,7 +24,7 @@ File topic_open(string_view tmpl, string_view topic, File::Options opts) {
   return make_cpp<File>(
       [&](a0_file_t* c) {
         auto c_opts = c_fileopts(opts);
-        return a0_topic_open(tmpl.data(), topic.data(), &c_opts, c);
+        return a0_topic_open(std::string(tmpl).c_str(), std::string(topic).c_str(), &c_opts, c);
       },
       a0_file_close);
 }
-- 
2.43.0


From 4d949760ca5f9c3f2371844e2dacaa9404273c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:13 +0000
Subject: [PATCH 30/47] fix: report allocation failures in packet serialize,
 deserialize and deep copy

The allocator's error was dropped, and the packet was then written through
whatever the output buffer happened to hold.
---
 src/packet.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..919e14b 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -193,9 +193,9 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc,
+                                stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+                                out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
-- 
2.43.0


From 57d399c0ba1a459d10e3ddc341bc9a89979a8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:41 +0000
Subject: [PATCH 31/47] fix: a write that cannot be stored returns its error

The writer ignored failures to serialize or commit and reported success for
packets that were never added, such as those too large for the arena.
---
 src/writer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index d539303..46ca1e0 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,12 +95,13 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
-
-  a0_transport_commit(tlk);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
+  if (!err) {
+    err = a0_transport_commit(tlk);
+  }
   a0_transport_unlock(tlk);
 
-  return A0_OK;
+  return err;
 }
 
 a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
-- 
2.43.0


From 7f885be63b0f8e1dc71dbd739d052743fa5a17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:36 +0000
Subject: [PATCH 32/47] fix: mergepatch of a large document overflowed the
 stack

The parse and output buffers, about twelve times the documents' sizes, were
taken from the stack. Let yyjson allocate them.
---
 src/middleware.c | 49 +++++++++---------------------------------------
 1 file changed, 9 insertions(+), 40 deletions(-)

diff --git a/src/middleware.c b/src/middleware.c
index eed3849..a9964d2 100644
--- a/src/middleware.c
+++ b/src/middleware.c
@@ -8,7 +8,6 @@
 #include <a0/unused.h>
 #include <a0/uuid.h>
 
-#include <alloca.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -273,26 +272,12 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
   a0_buf_t original_payload;
   a0_flat_packet_payload(flat_packet, &original_payload);
 
-  size_t original_size = yyjson_read_max_memory_usage(
-      original_payload.size, a0_yyjson_read_flags());
-  if (!original_size) {
-    a0_transport_unlock(tlk);
-    return A0_MAKE_MSGERR("Failed to parse json: original json too big");
-  }
-  void* original_data = alloca(original_size);
-
-  yyjson_alc original_alc;
-  yyjson_alc_pool_init(
-      &original_alc,
-      original_data,
-      original_size);
-
   yyjson_read_err read_err;
   yyjson_doc* original = yyjson_read_opts(
       (char*)original_payload.data,
       original_payload.size,
       a0_yyjson_read_flags(),
-      &original_alc,
+      NULL,
       &read_err);
   if (read_err.code) {
     a0_transport_unlock(tlk);
@@ -300,27 +285,14 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
   }
 
   // Parse the mergepatch json.
-  size_t mergepatch_size = yyjson_read_max_memory_usage(
-      pkt->payload.size, a0_yyjson_read_flags());
-  if (!mergepatch_size) {
-    a0_transport_unlock(tlk);
-    return A0_MAKE_MSGERR("Failed to parse json: mergepatch too big");
-  }
-  void* mergepatch_data = alloca(mergepatch_size);
-
-  yyjson_alc mergepatch_alc;
-  yyjson_alc_pool_init(
-      &mergepatch_alc,
-      mergepatch_data,
-      mergepatch_size);
-
   yyjson_doc* mergepatch = yyjson_read_opts(
       (char*)pkt->payload.data,
       pkt->payload.size,
       a0_yyjson_read_flags(),
-      &mergepatch_alc,
+      NULL,
       &read_err);
   if (read_err.code) {
+    yyjson_doc_free(original);
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: %s", read_err.msg);
   }
@@ -333,23 +305,20 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
       original->root,
       mergepatch->root);
 
-  size_t result_max_size = original_size + mergepatch_size;
-  void* result_data = alloca(result_max_size);
-
-  yyjson_alc result_alc;
-  yyjson_alc_pool_init(&result_alc, result_data, result_max_size);
-
   yyjson_write_err write_err;
   size_t size;
   char* data = yyjson_mut_write_opts(
       merged_doc,
       a0_yyjson_write_flags(),
-      &result_alc,
+      NULL,
       &size,
       &write_err);
 
+  yyjson_mut_doc_free(merged_doc);
+  yyjson_doc_free(mergepatch);
+  yyjson_doc_free(original);
+
   if (write_err.code) {
-    yyjson_mut_doc_free(merged_doc);
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to serialize cfg: %s", write_err.msg);
   }
@@ -358,7 +327,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
   pkt->payload = (a0_buf_t){(uint8_t*)data, size};
   a0_err_t err = a0_middleware_chain(chain, pkt);
 
-  yyjson_mut_doc_free(merged_doc);
+  free(data);
 
   return err;
 }
-- 
2.43.0


From 99a4f9a144a5470756a4b0be6c20744985548aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 33/47] fix: prpc clients only pass progress and complete
 packets to callbacks

A connection cancelled by another client had the cancel packet delivered as
if it was progress.
---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index c21d0aa..5305c38 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -152,6 +152,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From c75808fa141ea166aadf769b29e1ad9b8861b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 34/47] fix: rpc and prpc callbacks may be left out

A prpc connection without progress callback crashed on its first progress,
a C++ server without cancel callback on the first cancellation.
---
 src/prpc.c   |  2 +-
 src/prpc.cpp | 15 +++++++++------
 src/rpc.cpp  | 15 +++++++++------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/prpc.c b/src/prpc.c
index 5305c38..673e422 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -170,7 +170,7 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
   pthread_mutex_unlock(&client->_outstanding_connections_mu);
 
-  if (!err) {
+  if (!err && cb.fn) {
     cb.fn(cb.user_data, pkt, is_complete);
   }
 }
diff --git a/src/prpc.cpp b/src/prpc.cpp
index 278d0fe..9dce7ec 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -98,12 +98,15 @@ PrpcServer::PrpcServer(
               impl->onconnect(cpp_conn);
             }};
 
-        a0_packet_id_callback_t c_oncancel = {
-            .user_data = impl,
-            .fn = [](void* user_data, a0_uuid_t id) {
-              auto* impl = (PrpcServerImpl*)user_data;
-              impl->oncancel(id);
-            }};
+        a0_packet_id_callback_t c_oncancel = A0_EMPTY;
+        if (impl->oncancel) {
+          c_oncancel = {
+              .user_data = impl,
+              .fn = [](void* user_data, a0_uuid_t id) {
+                auto* impl = (PrpcServerImpl*)user_data;
+                impl->oncancel(id);
+              }};
+        }
 
         return a0_prpc_server_init(c, c_topic, alloc, c_onconnect, c_oncancel);
       },
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 84d5e85..e410ace 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -100,12 +100,15 @@ RpcServer::RpcServer(
               impl->onrequest(cpp_req);
             }};
 
-        a0_packet_id_callback_t c_oncancel = {
-            .user_data = impl,
-            .fn = [](void* user_data, a0_uuid_t id) {
-              auto* impl = (RpcServerImpl*)user_data;
-              impl->oncancel(id);
-            }};
+        a0_packet_id_callback_t c_oncancel = A0_EMPTY;
+        if (impl->oncancel) {
+          c_oncancel = {
+              .user_data = impl,
+              .fn = [](void* user_data, a0_uuid_t id) {
+                auto* impl = (RpcServerImpl*)user_data;
+                impl->oncancel(id);
+              }};
+        }
 
         return a0_rpc_server_init(c, c_topic, alloc, c_onrequest, c_oncancel);
       },
-- 
2.43.0


From a85de3324f177ba3e00b6d9df68eab90caab278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 35/47] fix: rpc and prpc ids of unexpected length were read
 out of bounds

Packets of others may carry any id header or cancel payload, and the id
given to a C++ cancel is a view that need not be terminated.
---
 src/prpc.c   | 6 ++++--
 src/prpc.cpp | 5 ++++-
 src/rpc.c    | 6 ++++--
 src/rpc.cpp  | 5 ++++-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/prpc.c b/src/prpc.c
index 673e422..69bdbc1 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -53,9 +53,10 @@ void a0_prpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, PRPC_TYPE_CONNECT)) {
     server->_onconnect.fn(server->_onconnect.user_data, (a0_prpc_connection_t){server, pkt});
   } else if (!strcmp(type_hdr.val, PRPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size == sizeof(a0_uuid_t)) {
       a0_uuid_t uuid;
       memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      uuid[sizeof(a0_uuid_t) - 1] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -141,7 +142,8 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
 
   a0_packet_header_t conn_id_hdr;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr)) {
+  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr) ||
+      strlen(conn_id_hdr.val) != sizeof(a0_uuid_t) - 1) {
     return;
   }
 
diff --git a/src/prpc.cpp b/src/prpc.cpp
index 9dce7ec..5ba83fc 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -195,7 +195,10 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
 
 void PrpcClient::cancel(string_view id) {
   CHECK_C;
-  check(a0_prpc_client_cancel(&*c, id.data()));
+  if (id.size() != sizeof(a0_uuid_t) - 1) {
+    check(A0_ERR_INVALID_ARG);
+  }
+  check(a0_prpc_client_cancel(&*c, std::string(id).c_str()));
 }
 
 }  // namespace a0
diff --git a/src/rpc.c b/src/rpc.c
index 783d6e2..2446f27 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -53,9 +53,10 @@ void a0_rpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, RPC_TYPE_REQUEST)) {
     server->_onrequest.fn(server->_onrequest.user_data, (a0_rpc_request_t){server, pkt});
   } else if (!strcmp(type_hdr.val, RPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size == sizeof(a0_uuid_t)) {
       a0_uuid_t uuid;
       memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      uuid[sizeof(a0_uuid_t) - 1] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -150,7 +151,8 @@ a0_err_t a0_find_reqid(a0_packet_t pkt, a0_uuid_t** out) {
   a0_packet_header_t req_id_hdr;
   a0_packet_header_iterator_t hdr_iter;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr)) {
+  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr) &&
+      strlen(req_id_hdr.val) == sizeof(a0_uuid_t) - 1) {
     *out = (a0_uuid_t*)req_id_hdr.val;
     return A0_OK;
   }
diff --git a/src/rpc.cpp b/src/rpc.cpp
index e410ace..76b7db3 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -243,7 +243,10 @@ std::future<Packet> RpcClient::send(Packet pkt) {
 
 void RpcClient::cancel(string_view id) {
   CHECK_C;
-  check(a0_rpc_client_cancel(&*c, id.data()));
+  if (id.size() != sizeof(a0_uuid_t) - 1) {
+    check(A0_ERR_INVALID_ARG);
+  }
+  check(a0_rpc_client_cancel(&*c, std::string(id).c_str()));
 }
 
 }  // namespace a0
-- 
2.43.0


From 88a808690869e0215edc3def0775c1464132ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 36/47] fix: C++ rpc replies and prpc progress packets own
 their contents

They pointed into a buffer which the next packet overwrites, so a packet kept
by the callback, or taken from the future, changed or dangled.
---
 src/prpc.cpp | 4 +++-
 src/rpc.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index 5ba83fc..aeeb255 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -185,7 +185,9 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
             }
           }
 
-          onprogress(Packet(prog, nullptr), done);
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onprogress(Packet(prog, [data](a0_packet_t*) {}), done);
         },
     };
   }
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 76b7db3..17923a4 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -185,7 +185,9 @@ void RpcClient::send(Packet pkt, std::function<void(Packet)> onreply) {
             impl->user_onreply.erase(iter);
           }
 
-          onreply(Packet(resp, nullptr));
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onreply(Packet(resp, [data](a0_packet_t*) {}));
         },
     };
   }
-- 
2.43.0


From f94203de3510a4210d6e2657b79b4561e0cdfb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:24 +0000
Subject: [PATCH 37/47] fix: remove the temporary file if a file cannot be
 created

When sizing or mapping the temporary file failed, a0_file_open reported the
error but left the temporary file in the directory.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 9b989bb..249dd4d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From af5510305ec3dd2f0cba00b5fe13bc9259243d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:25 +0000
Subject: [PATCH 38/47] fix: unmap the temporary file if it cannot be put in
 place

Losing the race to create a file, or failing to link it, left the mapping of
the temporary file behind for the life of the process.
---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index 249dd4d..ea22021 100644
--- a/src/file.c
+++ b/src/file.c
@@ -261,6 +261,7 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      a0_munmap(file);
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From d80ee423b7692050889ed923401098c7bf3d0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:25 +0000
Subject: [PATCH 39/47] fix: opening a dangling symbolic link reports an error

a0_file_open neither found nor could create the file and retried forever.
---
 src/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file.c b/src/file.c
index ea22021..3db52fe 100644
--- a/src/file.c
+++ b/src/file.c
@@ -269,6 +269,12 @@ a0_err_t a0_do_open(
     if (A0_SYSERR(err) != EEXIST) {
       break;
     }
+
+    // A symbolic link to nothing can neither be opened nor be created.
+    stat_t st;
+    if (!lstat(path, &st) && S_ISLNK(st.st_mode) && stat(path, &st) == -1 && errno == ENOENT) {
+      break;
+    }
   }
 
   if (path_copy) {
-- 
2.43.0


From fa8039f5ae8792c5e9ef38600f487c296263d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:40 +0000
Subject: [PATCH 40/47] fix: listing a directory with a very long path
 overflowed the path

The name of an entry was appended to the path of the directory without regard
to the size of the buffer.
---
 src/file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 3db52fe..7e50302 100644
--- a/src/file.c
+++ b/src/file.c
@@ -347,7 +347,7 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   A0_RETURN_ERR_ON_ERR(a0_abspath(path, &abspath));
 
   iter->_path_len = strlen(abspath);
-  if (iter->_path_len > PATH_MAX) {
+  if (iter->_path_len >= PATH_MAX) {
     free(abspath);
     return A0_MAKE_SYSERR(ENAMETOOLONG);
   }
@@ -383,6 +383,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len > PATH_MAX) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
-- 
2.43.0


From 8ac7ec163a761226c17a0b227c0e9377fa5b35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:40 +0000
Subject: [PATCH 41/47] fix: type of directory entries on filesystems that do
 not report it

There, directories were taken for files: trees could not be removed and files
in subdirectories were not discovered.
---
 src/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file.c b/src/file.c
index 7e50302..2eb1be1 100644
--- a/src/file.c
+++ b/src/file.c
@@ -393,6 +393,12 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   memcpy(iter->_path + iter->_path_len, dir_entity->d_name, len);
   iter->_path[iter->_path_len + len] = '\0';
 
+  // Not all filesystems report the type.
+  stat_t stat;
+  if (entry->d_type == DT_UNKNOWN && !lstat(iter->_path, &stat)) {
+    entry->d_type = IFTODT(stat.st_mode);
+  }
+
   return A0_OK;
 }
 
-- 
2.43.0


From c534b037e1ef8d534ef86f61baa36951f842b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:40 +0000
Subject: [PATCH 42/47] fix: report errors while listing a directory

A directory that could not be read to the end looked as if it ended there.
---
 src/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file.c b/src/file.c
index 2eb1be1..d210ced 100644
--- a/src/file.c
+++ b/src/file.c
@@ -376,9 +376,13 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
 
 a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   struct dirent* dir_entity;
+  errno = 0;
   while ((dir_entity = readdir(iter->_dir)) && (!memcmp(dir_entity->d_name, ".", 2) || !memcmp(dir_entity->d_name, "..", 3))) {
   }
   if (!dir_entity) {
+    if (errno) {
+      return A0_MAKE_SYSERR(errno);
+    }
     return A0_ERR_ITER_DONE;
   }
 
-- 
2.43.0


From 25a04717d7b021fe79f5efd1d815a39f80164132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:59 +0000
Subject: [PATCH 43/47] fix: removing all of a file removes it, and never
 follows links

a0_file_remove_all is documented to remove the specified file or directory but
refused files, and given a link to a directory with a trailing slash it emptied
the directory the link points to.
---
 src/file.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/file.c b/src/file.c
index d210ced..1dc924e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -423,19 +423,39 @@ a0_err_t a0_file_remove(const char* path) {
   return err;
 }
 
-a0_err_t a0_file_remove_all(const char* path) {
+A0_STATIC_INLINE_RECURSIVE
+a0_err_t a0_remove_tree(const char* path) {
   a0_file_iter_t iter;
-  A0_RETURN_ERR_ON_ERR(a0_file_iter_init(&iter, path));
+  a0_err_t err = a0_file_iter_init(&iter, path);
+  if (A0_SYSERR(err) == ENOTDIR) {
+    return a0_file_remove(path);
+  }
+  A0_RETURN_ERR_ON_ERR(err);
 
   a0_file_iter_entry_t entry;
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
-      a0_file_remove_all(entry.fullpath);
+      a0_remove_tree(entry.fullpath);
     }
     a0_file_remove(entry.fullpath);
   }
 
-  a0_err_t err = a0_file_remove(path);
+  err = a0_file_remove(path);
   a0_file_iter_close(&iter);
   return err;
 }
+
+a0_err_t a0_file_remove_all(const char* path) {
+  char* abspath;
+  A0_RETURN_ERR_ON_ERR(a0_abspath(path, &abspath));
+
+  // With a trailing slash, a symbolic link would be followed.
+  size_t len = strlen(abspath);
+  while (len > 1 && abspath[len - 1] == '/') {
+    abspath[--len] = '\0';
+  }
+
+  a0_err_t err = a0_remove_tree(abspath);
+  free(abspath);
+  return err;
+}
-- 
2.43.0


From cbd9eafb21441232a858ffcbb4397feb3bad1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:23 +0000
Subject: [PATCH 44/47] fix: discovery crashed if a directory vanished while it
 was being scanned

The iterator was used although it could not be initialized.
---
 src/discovery.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index afe9e8f..345c51c 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,10 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    // The directory has been removed.
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From ac875b849e314de7d5986fba0ef8d7decca8f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:23 +0000
Subject: [PATCH 45/47] fix: discovery in directories that are removed and
 created again

A directory was watched once per path. When it was removed its watch went with
it, and nothing in a directory created again under that name was discovered.
The same held for the root of the pattern, whose parent is not watched.
---
 include/a0/discovery.h |  5 +--
 src/discovery.c        | 85 ++++++++++++++++++++++++------------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/include/a0/discovery.h b/include/a0/discovery.h
index 43eeb1e..00331d6 100644
--- a/include/a0/discovery.h
+++ b/include/a0/discovery.h
@@ -21,9 +21,8 @@ typedef struct a0_discovery_s {
   a0_discovery_callback_t _callback;
   pthread_t _thread;
 
-  a0_map_t _watch_map;          // inotify watch descriptor -> absolute dir path
-  a0_map_t _reverse_watch_map;  // absolute dir path -> nothing
-  a0_map_t _discovered_map;     // absolute file path -> nothing
+  a0_map_t _watch_map;       // inotify watch descriptor -> absolute dir path
+  a0_map_t _discovered_map;  // absolute file path -> nothing
   int _epoll_fd;
   int _inotify_fd;
   int _close_fd;
diff --git a/src/discovery.c b/src/discovery.c
index 345c51c..0b4c859 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -55,21 +55,31 @@ size_t a0_discovery_rootlen(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
+a0_err_t a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
+  // Note: A directory that is already being watched keeps its watch descriptor.
+  //       One that has been removed and created again gets another.
+  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
+  if (wd < 0) {
+    return A0_MAKE_SYSERR(errno);
+  }
+
   bool already_watching;
-  a0_map_has(&d->_reverse_watch_map, &path, &already_watching);
-  if (already_watching) {
-    return;
+  a0_map_has(&d->_watch_map, &wd, &already_watching);
+  if (!already_watching) {
+    char* dup = strdup(path);
+    a0_map_put(&d->_watch_map, &wd, &dup);
   }
+  return A0_OK;
+}
 
-  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
-  if (wd < 0) {
+A0_STATIC_INLINE
+void a0_discovery_unwatch(a0_discovery_t* d, int wd) {
+  char** path;
+  if (a0_map_get(&d->_watch_map, &wd, (void**)&path)) {
     return;
   }
-  char* dup = strdup(path);
-  a0_map_put(&d->_watch_map, &wd, &dup);
-  int unused = 0;
-  a0_map_put(&d->_reverse_watch_map, &dup, &unused);
+  free(*path);
+  a0_map_del(&d->_watch_map, &wd);
 }
 
 A0_STATIC_INLINE
@@ -85,14 +95,14 @@ void a0_discovery_announce(a0_discovery_t* d, const char* path) {
 }
 
 A0_STATIC_INLINE_RECURSIVE
-void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
-  a0_discovery_watch_path(d, path);
+a0_err_t a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
+  a0_err_t err = a0_discovery_watch_path(d, path);
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
   if (a0_file_iter_init(&iter, path)) {
     // The directory has been removed.
-    return;
+    return err;
   }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
@@ -106,15 +116,20 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
     }
   }
   a0_file_iter_close(&iter);
+  return err;
 }
 
 A0_STATIC_INLINE
 void a0_discovery_watch_root(a0_discovery_t* d) {
-  size_t root_size = a0_discovery_rootlen(d);
-  char root_path[PATH_MAX];
-  memcpy(root_path, d->_pathglob.abspath.data, root_size);
-  root_path[root_size] = '\0';
-  a0_discovery_watch_recursive(d, root_path);
+  a0_err_t err;
+  do {
+    size_t root_size = a0_discovery_rootlen(d);
+    char root_path[PATH_MAX];
+    memcpy(root_path, d->_pathglob.abspath.data, root_size);
+    root_path[root_size] = '\0';
+    err = a0_discovery_watch_recursive(d, root_path);
+    // If the root has been removed in the meantime, watch what is left of it.
+  } while (A0_SYSERR(err) == ENOENT || A0_SYSERR(err) == ENOTDIR);
 }
 
 A0_STATIC_INLINE
@@ -155,14 +170,25 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 
   for (size_t i = 0; i < (size_t)buf_size;) {
     inotify_event_t* evt = (inotify_event_t*)&buf[i];
-    if (evt->len) {
+
+    const char** parent;
+    if (a0_map_get(&d->_watch_map, &evt->wd, (void**)&parent)) {
+      i += sizeof(inotify_event_t) + evt->len;
+      continue;
+    }
+
+    if (evt->mask & IN_IGNORED) {
+      // Only the root ends with a slash. All other directories are found again through their parents.
+      bool is_root = (*parent)[strlen(*parent) - 1] == '/';
+      a0_discovery_unwatch(d, evt->wd);
+      if (is_root) {
+        a0_discovery_watch_root(d);
+      }
+    } else if (evt->len) {
       a0_buf_t path = (a0_buf_t){(uint8_t*)evt->name, strlen(evt->name)};
 
       bool is_dir = evt->mask & IN_ISDIR;
 
-      const char** parent;
-      a0_map_get(&d->_watch_map, &evt->wd, (void**)&parent);
-
       size_t parent_size = strlen(*parent);
       bool parent_ends_with_slash = (*parent)[parent_size - 1] == '/';
 
@@ -257,18 +283,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  err = a0_map_init(
-      &d->_reverse_watch_map,
-      sizeof(char*),
-      sizeof(int),
-      A0_HASH_STR,
-      A0_CMP_STR);
-  if (err) {
-    a0_map_close(&d->_watch_map);
-    a0_pathglob_close(&d->_pathglob);
-    return err;
-  }
-
   err = a0_map_init(
       &d->_discovered_map,
       sizeof(char*),
@@ -276,7 +290,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
       A0_HASH_STR,
       A0_CMP_STR);
   if (err) {
-    a0_map_close(&d->_reverse_watch_map);
     a0_map_close(&d->_watch_map);
     a0_pathglob_close(&d->_pathglob);
     return err;
@@ -310,8 +323,6 @@ a0_err_t a0_discovery_close(a0_discovery_t* d) {
     free(*(void**)val);
   }
   a0_map_close(&d->_watch_map);
-  // Note: _reverse_watch_map doesn't own any memory.
-  a0_map_close(&d->_reverse_watch_map);
 
   a0_map_iterator_init(&iter, &d->_discovered_map);
   while (!a0_map_iterator_next(&iter, &key, &val)) {
-- 
2.43.0


From 1685f1309473db9e7f52e1d8416b184d95b1f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:23 +0000
Subject: [PATCH 46/47] fix: discovery lost files if the notification queue
 overflowed

---
 src/discovery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index 0b4c859..33c2bdf 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -171,6 +171,13 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
   for (size_t i = 0; i < (size_t)buf_size;) {
     inotify_event_t* evt = (inotify_event_t*)&buf[i];
 
+    if (evt->mask & IN_Q_OVERFLOW) {
+      // Events have been lost. Look at everything again.
+      a0_discovery_watch_root(d);
+      i += sizeof(inotify_event_t) + evt->len;
+      continue;
+    }
+
     const char** parent;
     if (a0_map_get(&d->_watch_map, &evt->wd, (void**)&parent)) {
       i += sizeof(inotify_event_t) + evt->len;
-- 
2.43.0


From a0edc1b25c41e9d264025c4c03ef2293db09dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:15:15 +0000
Subject: [PATCH 47/47] fix: pass the death of a deadman's owner on when the
 woken waiter was shut down

---
 src/deadman_mtx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 5ef8c15..df30ac1 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -85,6 +85,10 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
   while (!err || A0_SYSERR(err) == EAGAIN) {
     uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
     err = a0_deadman_mtx_trylock_impl(d);
+    if (A0_SYSERR(err) == ESHUTDOWN) {
+      // The death of an owner wakes a single waiter. Pass it on.
+      a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+    }
     if (!err || A0_SYSERR(err) != EBUSY) {
       return err;
     }
-- 
2.43.0

