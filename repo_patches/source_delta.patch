From 7d06c34c6fcbd2b7a95902b64f950e6d4fb048d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 01/32] fix: channel operation completed by a peer was reported
 as canceled or timed out

A sender/receiver that was already matched by its peer, but got a deadline or
cancelation before it ran, returned an error: the message was lost or
duplicated. Also remove a canceled select from the resumers list.
---
 neco.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..c201152 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool done;                    // coroutine operation was completed by a peer
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -4162,9 +4163,9 @@ static void rt_sched_paused_step(void) {
     struct coroutine *co = colist_pop_front(&rt->resumers);
     while (co) {
         sco_resume(co->id);
-        rt->nresumers--;
         co = colist_pop_front(&rt->resumers);
     }
+    rt->nresumers = 0;
 
     // Calculate the minimum timeout for this step.
     int64_t timeout = MAX_TIMEOUT;
@@ -4615,6 +4616,20 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkwait is used in place of checkdl after a coroutine has been paused in
+// a queue, waiting for a peer. When the peer has already completed the
+// operation then the result is NECO_OK, even if a deadline or cancelation 
+// arrived before the coroutine had a chance to run. In that case the 
+// cancelation is left pending for the next operation.
+static int checkwait(struct coroutine *co) {
+    if (co->done) {
+        co->done = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -5989,6 +6004,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
         }
+        recv->done = true;
         if (!broadcast) {
             // Resume receiver immediately.
             sco_resume(recv->id);
@@ -6023,7 +6039,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6086,6 +6102,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
             cbuf_push(chan, send->cmsg);
+            send->done = true;
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
@@ -6107,6 +6124,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
+        send->done = true;
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
         {
@@ -6135,7 +6153,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6224,6 +6242,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->done = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6297,7 +6316,10 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    // The coroutine may have been scheduled to resume by a broadcast or close,
+    // but was woken up by something else.
+    remove_from_list(co);
+    int ret = checkwait(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
-- 
2.43.0


From c244faefaa28a3134d8a8543d8e217b185333b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 02/32] fix: mutex handed off to a waiter that reports a
 timeout or cancelation was never unlocked

---
 neco.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index c201152..17aa776 100644
--- a/neco.c
+++ b/neco.c
@@ -7214,7 +7214,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7285,6 +7285,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
         // Schedule the coroutines to resume.
+        co->done = true;
         sched_resume(co);
         if (co->rlocked) {
             // The popped coroutine was a reader.
-- 
2.43.0


From 3c95dc090651f27a6663673e5576bdc8bded4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 03/32] fix: canceling a coroutine blocked on a background
 worker resumed it too early

neco_work() and neco_write() returned while the worker thread was still using
the coroutine's stack.
---
 neco.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 17aa776..6655e6c 100644
--- a/neco.c
+++ b/neco.c
@@ -3342,6 +3342,7 @@ struct coroutine {
 
     bool rlocked;
     bool suspended;
+    bool iowait;                  // waiting on a background worker
 
     int64_t pool_ts;              // timestamp when added to a pool
 
@@ -4200,6 +4201,7 @@ static void rt_sched_paused_step(void) {
             if (!co) {
                 break;
             }
+            co->iowait = false;
             sco_resume(co->id);
         }
     }
@@ -5038,6 +5040,18 @@ static void cowait(int fd, enum evkind kind, int64_t deadline) {
 // Networking code
 ////////////////////////////////////////////////////////////////////////////////
 
+#ifndef NECO_NOWORKERS
+// Wait for the background worker to finish. A cancelation may resume the
+// coroutine early, but the worker is still using its stack. So keep waiting
+// and leave the cancelation pending for the next operation.
+static void ioworkerwait(struct coroutine *co) {
+    co->iowait = true;
+    while (co->iowait) {
+        sco_pause();
+    }
+}
+#endif
+
 #if !defined(NECO_NOWORKERS) && defined(NECO_USEREADWORKERS) && \
     !defined(NECO_NOREADWORKERS)
 
@@ -5085,7 +5099,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            ioworkerwait(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5247,7 +5261,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            ioworkerwait(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8754,7 +8768,7 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
+    ioworkerwait(co);
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From 3bc00c7725f5b610cfba0bd37a1acd21e0a0eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 04/32] fix: failed worker thread creation left its work queued
 forever

pthread_create() returns a positive error number, never -1.
---
 deps/worker.c | 4 +++-
 neco.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..1013139 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,9 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index 6655e6c..be5b59c 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,9 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From d7055c630a733a828f6d9c22e63888be166e539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 05/32] fix: receivers blocked forever on a closed channel
 whose last pending sender gave up

---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index be5b59c..aed7411 100644
--- a/neco.c
+++ b/neco.c
@@ -6055,7 +6055,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkwait(co);
+    int ret = checkwait(co);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) &&
+        chan->buflen == 0)
+    {
+        // The channel was closed while this sender was waiting, and its
+        // message was the last one. Close the receiving side too.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From d90216f14477d31becb1e5f399d68de07c8b3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:56 +0000
Subject: [PATCH 06/32] fix: coroutines selecting on the same channel overwrote
 each other's message

The received message and its closed flag were stored in the channel, where a
second select could replace them before neco_chan_case() was called.
---
 neco.c | 57 ++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/neco.c b/neco.c
index aed7411..08c9445 100644
--- a/neco.c
+++ b/neco.c
@@ -3351,6 +3351,11 @@ struct coroutine {
     char *cmsg;                   // channel message data from sender
     bool cclosed;                 // channel closed by sender
 
+    struct neco_chan *casechan;   // channel chosen by the last select
+    char *casemsg;                // message received by the last select
+    size_t casecap;               // capacity of casemsg
+    bool caseok;                  // last select received a message
+
     uint32_t sigwatch;            // coroutine is watching these signals (mask)
     uint32_t sigmask;             // coroutine wait mask and result
 
@@ -3781,6 +3786,9 @@ static void coroutine_free(struct coroutine *co) {
     if (co) {
         cofreeargs(co);
         costackfree(co);
+        if (co->casemsg) {
+            free0(co->casemsg);
+        }
         free0(co);
     }
 }
@@ -3859,6 +3867,7 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    co->casechan = NULL;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -5752,7 +5761,6 @@ struct neco_chan {
     bool sclosed;         // sender closed
     bool rclosed;         // receiver closed
     bool qrecv;           // queue has all receivers, otherwise all senders
-    bool lok;             // used for the select-case 'closed' result
     struct colist queue;  // waiting coroutines. Either senders or receivers
     int msgsize;          // size of each message
     int bufcap;           // max number of messages in ring buffer
@@ -5771,8 +5779,6 @@ struct coselectcase {
 
     struct neco_chan *chan;
     struct coroutine *co;
-    void *data;
-    bool *ok;
     int idx;
     int *ret_idx;
 } aligned16;
@@ -6013,8 +6019,8 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             // with the real coroutine.
             *cocase->ret_idx = cocase->idx;
             recv = cocase->co;
-            recv->cmsg = cocase->data;
-            *cocase->ok = true;
+            recv->cmsg = recv->casemsg;
+            recv->caseok = true;
         }
         // Directly copy the message to the receiver's 'data' argument.
         if (chan->msgsize > 0) {
@@ -6263,7 +6269,7 @@ static int chan_close(struct neco_chan *chan) {
             // with the real coroutine.
             *cocase->ret_idx = cocase->idx;
             recv = cocase->co;
-            *cocase->ok = false;
+            recv->caseok = false;
         }
         recv->cclosed = true;
         recv->done = true;
@@ -6302,6 +6308,26 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
 
     struct coroutine *co = coself();
 
+    // Each coroutine stores the message of its own select, until it's taken
+    // by the neco_chan_case operation.
+    size_t msgsize = 0;
+    for (int i = 0; i < ncases; i++) {
+        size_t size = (size_t)cases[i].chan->msgsize;
+        msgsize = size > msgsize ? size : msgsize;
+    }
+    if (msgsize > co->casecap) {
+        char *casemsg = malloc0(msgsize);
+        if (!casemsg) {
+            return NECO_NOMEM;
+        }
+        if (co->casemsg) {
+            free0(co->casemsg);
+        }
+        co->casemsg = casemsg;
+        co->casecap = msgsize;
+    }
+    co->casechan = NULL;
+
     if (co->canceled) {
         co->canceled = false;
         return NECO_CANCELED;
@@ -6315,8 +6341,9 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
         if ((!colist_is_empty(&chan->queue) && !chan->qrecv) || 
             chan->buflen > 0 || chan->rclosed)
         {
-            int ret = neco_chan_recv(cases[i].chan, cases[i].data);
-            *cases[i].ok = ret == NECO_OK;
+            int ret = chan_tryrecv0(chan, co->casemsg, true, INT64_MAX);
+            co->caseok = ret == NECO_OK;
+            co->casechan = chan;
             return i;
         }
     }
@@ -6344,7 +6371,11 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     // but was woken up by something else.
     remove_from_list(co);
     int ret = checkwait(co);
-    return ret == NECO_OK ? *ret_idx : ret;
+    if (ret != NECO_OK) {
+        return ret;
+    }
+    co->casechan = cases[*ret_idx].chan;
+    return *ret_idx;
 }
 
 static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans, 
@@ -6384,8 +6415,6 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
         };
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
@@ -6490,11 +6519,13 @@ static int chan_case(struct neco_chan *chan, void *data) {
         return NECO_INVAL;
     } else if (!rt || chan->rtid != rt->id) {
         return NECO_PERM;
-    } else if (!chan->lok) {
+    }
+    struct coroutine *co = coself();
+    if (co->casechan != chan || !co->caseok) {
         return NECO_CLOSED;
     }
     if (chan->msgsize) {
-        memcpy(data, cbufslot(chan, chan->bufcap), (size_t)chan->msgsize);
+        memcpy(data, co->casemsg, (size_t)chan->msgsize);
     }
     return NECO_OK;
 }
-- 
2.43.0


From c29f8cda5ce844bf308c1be65f6aa6d2a377e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:57 +0000
Subject: [PATCH 07/32] fix: cancelation of an exiting coroutine started a
 second exit

The rest of the running cleanup handler was skipped, and the coroutine was
removed from the map (and counted) twice.
---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index 08c9445..e433e74 100644
--- a/neco.c
+++ b/neco.c
@@ -7794,11 +7794,17 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // The coroutine is already exiting. From here on a cancelation must not
+    // start another exit from the cleanup handlers or the yields below.
+    co->canceled = false;
+    co->canceltype = NECO_CANCEL_INLINE;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
             cleanup_pop(1);
         }
+        co->canceltype = NECO_CANCEL_INLINE;
     }
 
     // Delete from map 
-- 
2.43.0


From 7d9b1b4ef0a663ec1e50e533dc9c8ba9d6a5a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 08/32] fix: reused coroutine inherited cancelation, lastid,
 and signal watches

---
 neco.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neco.c b/neco.c
index e433e74..9b5707e 100644
--- a/neco.c
+++ b/neco.c
@@ -3868,6 +3868,10 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
     co->casechan = NULL;
+    // Do not inherit state from a pooled coroutine.
+    co->canceled = false;
+    co->deadlined = false;
+    co->lastid = 0;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7834,6 +7838,11 @@ static void coexit(bool async) {
         co->gen = 0;
     }
 
+    // Stop watching for signals
+    for (int signo = 1; co->sigwatch && signo < 32; signo++) {
+        signal_unwatch(signo);
+    }
+
     // Free the call arguments
     cofreeargs(co);
 
-- 
2.43.0


From 135790c089d2d2d4358b19cbb724f58fc4d841cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 09/32] fix: deadline of a neco_cancel_dl() that returned
 NOTFOUND leaked into the next operation

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 9b5707e..4d2aff5 100644
--- a/neco.c
+++ b/neco.c
@@ -4678,6 +4678,7 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
-- 
2.43.0


From 3e2b89924156ee356425299d7abe962abaa6223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:40 +0000
Subject: [PATCH 10/32] fix: neco_cancel() blocked on a target that re-enabled
 its cancel state

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 4d2aff5..47e7cd0 100644
--- a/neco.c
+++ b/neco.c
@@ -7749,6 +7749,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Wake up the coroutines that are waiting to cancel this one.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From 7dbea5000342ace325ae181f89d93b49fa60bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:55 +0000
Subject: [PATCH 11/32] fix: pending signal without a waiter blocked delivery
 of other signals

Also do not drop a signal that is delivered together with a deadline or
cancelation.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 47e7cd0..5a01189 100644
--- a/neco.c
+++ b/neco.c
@@ -4068,6 +4068,7 @@ static void rt_sched_signal_step(void) {
                 sigexitnow(signo);
             }
         } else {
+            bool delivered = false;
             struct coroutine *co = rt->sigwaiters.head.next;
             while (co != (struct coroutine*)&rt->sigwaiters.tail) {
                 struct coroutine *next = co->next;
@@ -4080,11 +4081,18 @@ static void rt_sched_signal_step(void) {
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
                     }
+                    co->done = true;
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
+                    delivered = true;
                 }
                 co = next;
             }
+            if (!delivered) {
+                // No coroutine is waiting for this signal right now. Leave it
+                // in the queue, and try the next one.
+                continue;
+            }
         }
         break;
     }
@@ -4818,7 +4826,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     return ret == NECO_OK ? signo : ret;
 }
 
-- 
2.43.0


From d77835325bb5fca53d84dbc0f3eaffcce679f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 12/32] fix: signal delivered to a thread other than the main
 runtime's crashed the program

For example the SIGPIPE of a neco_write() to a broken pipe, which is raised on
a background worker thread.
---
 neco.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 5a01189..7e6bef1 100644
--- a/neco.c
+++ b/neco.c
@@ -3934,7 +3934,19 @@ static const int TRAPPED_SIGNALS[] = {
     SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP
 };
 
+// The thread of the runtime which handles the signals.
+static pthread_t sigthread;
+
 static void sigallowhandler(int signo) {
+    if (!rt || !rt->mainthread) {
+        // Signals are only handled by the runtime on the main thread. But the
+        // system may choose any thread for delivery, such as a background 
+        // worker. A broken pipe is always reported by the write operation.
+        if (signo != SIGPIPE) {
+            pthread_kill(sigthread, signo);
+        }
+        return;
+    }
     if (rt->sigwatchers[signo] == 0) {
         // No coroutines are watching for this signal. Without an interested 
         // outside party, the program should exit immediately.
@@ -3951,7 +3963,7 @@ static void sigallowhandler(int signo) {
 
 static void crash_and_exit(int signo) {
 #ifndef NECO_TESTING
-    if (rt->mainthread) {
+    if (rt && rt->mainthread) {
         fprintf(stderr, "\n=== Crash on main thread ===\n");
     } else {
         fprintf(stderr, "\n=== Crash on child thread ===\n");
@@ -3974,7 +3986,7 @@ void neco_reset_sigcrashed(void) {
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
-    if (rt->sigcrashed) {
+    if (rt && rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
     }
@@ -3987,7 +3999,9 @@ static void sighandler(int signo, siginfo_t *info, void *ptr) {
     for (size_t i = 0; i < sizeof(TRAPPED_SIGNALS)/sizeof(int); i++) {
         if (signo == TRAPPED_SIGNALS[i]) {
             // Print the crash and exit.
-            rt->sigcrashed = signo;
+            if (rt) {
+                rt->sigcrashed = signo;
+            }
             crash_and_exit(signo);
             return;
         }
@@ -4002,6 +4016,7 @@ static int rt_handle_signals(void) {
         // Only handle signals on the main thread.
         return NECO_OK;
     }
+    sigthread = pthread_self();
     static struct sigaction act = { 0 };
     sigemptyset(&act.sa_mask);
     act.sa_sigaction = &sighandler;
-- 
2.43.0


From 2409d047d95e8cc8150a5d3868b5ed69b2d72d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 13/32] fix: alternate signal stack was freed while still in
 use after the runtime ended

---
 neco.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 7e6bef1..d33205a 100644
--- a/neco.c
+++ b/neco.c
@@ -3621,6 +3621,7 @@ struct runtime {
     int sigqueue[32];              // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
+    stack_t sigoldstack;           // previous signal stack, for restoring
 #endif
     char *sigstack;                // stack for signals
     int sigcrashed;
@@ -4032,7 +4033,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigoldstack) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4057,7 +4058,6 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
-    free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
@@ -4066,6 +4066,10 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigoldstack, NULL) == 0);
+#endif
+    free0(rt->sigstack);
 #endif
 }
 
-- 
2.43.0


From 15e3c7a8896bb254d664703e8c0623ee6a139366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:28 +0000
Subject: [PATCH 14/32] fix: signal arriving while another one is being
 delivered could get stuck

The pending mask and counters are modified by both the handler and the
scheduler, and were not atomic.
---
 neco.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/neco.c b/neco.c
index d33205a..d9cecc1 100644
--- a/neco.c
+++ b/neco.c
@@ -3615,10 +3615,10 @@ struct runtime {
 
     struct colist sigwaiters;      // signal waiting coroutines
     size_t nsigwaiters;
-    uint32_t sigmask;              // signal mask from handler
+    atomic_uint sigmask;           // signal mask from handler
     int sigwatchers[32];           // signals being watched, reference counted
     bool mainthread;               // running on the main thread
-    int sigqueue[32];              // queue of signals waiting for delivery
+    atomic_int sigqueue[32];       // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
     stack_t sigoldstack;           // previous signal stack, for restoring
@@ -3958,8 +3958,8 @@ static void sigallowhandler(int signo) {
     }
     // The Neco runtime has a signal watching for this specific signal.
     // Queue the signal and let the runtime take over.
-    rt->sigmask |= (UINT32_C(1) << signo);
     rt->sigqueue[signo]++;
+    rt->sigmask |= (UINT32_C(1) << signo);
 }
 
 static void crash_and_exit(int signo) {
@@ -4073,16 +4073,23 @@ static void rt_restore_signal_handlers(void) {
 #endif
 }
 
+// Take one signal from the queue. The sighandler() may interrupt this at any
+// point, so clear the mask before checking if the queue is really empty.
+static void rt_sigqueue_take(int signo) {
+    rt->sigqueue[signo]--;
+    rt->sigmask &= ~(UINT32_C(1) << signo);
+    if (rt->sigqueue[signo] > 0) {
+        rt->sigmask |= (UINT32_C(1) << signo);
+    }
+}
+
 static void rt_sched_signal_step(void) {
     for (int signo = 0; signo < 32; signo++) {
         if (rt->sigqueue[signo] == 0) {
             continue;
         } else if (rt->sigwatchers[signo] == 0) {
             // The signal is no longer being watched.
-            rt->sigqueue[signo]--;
-            if (rt->sigqueue[signo] == 0) {
-                rt->sigmask &= ~(UINT32_C(1) << signo);
-            }
+            rt_sigqueue_take(signo);
             if (signo != SIGPIPE) {
                 sigexitnow(signo);
             }
@@ -4096,10 +4103,7 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
-                    rt->sigqueue[signo]--;
-                    if (rt->sigqueue[signo] == 0) {
-                        rt->sigmask &= ~(UINT32_C(1) << signo);
-                    }
+                    rt_sigqueue_take(signo);
                     co->done = true;
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
-- 
2.43.0


From 08ed7f9aa713b778e956a9b2fe5a1f43f00d8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 15/32] fix: file event waiters missed hangups, errors, and
 events after one of another kind

EPOLLHUP and EPOLLERR were ignored, and a oneshot event for one kind (read or
write) disabled the other kind for coroutines waiting on the same descriptor.
---
 neco.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index d9cecc1..96c81ab 100644
--- a/neco.c
+++ b/neco.c
@@ -4147,8 +4147,18 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // A hangup or error makes the descriptor ready for both operations.
+        bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
+        // The oneshot event is now disabled for the descriptor. Enable it
+        // again if there are coroutines waiting on the other kind of event.
+        enum evkind other = read ? EVWRITE : EVREAD;
+        if (read != write && evexists(fd, other)) {
+            struct epoll_event ev = { 0 };
+            ev.data.fd = fd;
+            ev.events = (other == EVREAD ? EPOLLIN : EPOLLOUT) | EPOLLONESHOT;
+            (void)epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From ec6bd3bded1bdf4d947d7d56dd1e79e3fe2748c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 16/32] fix: neco_write() did not report the bytes written
 before a timeout or cancelation

This also made neco_stream_flush() send the same bytes again.
---
 neco.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 96c81ab..ebd7340 100644
--- a/neco.c
+++ b/neco.c
@@ -5350,7 +5350,13 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
-            return -1;
+            if (written == 0) {
+                return -1;
+            }
+            // Data has been written. Notify the caller about the amount, and
+            // leave the cancelation pending for the next operation.
+            co->canceled = ret == NECO_CANCELED;
+            return written;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
         // ssize_t n = write2(fd, data, maxnbytes);
-- 
2.43.0


From a7ee1a86d0ee3b20f639b8b0958267a6c7ae10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:42 +0000
Subject: [PATCH 17/32] fix: neco_waitgroup_add() that brings the counter to
 zero did not wake the waiters

Also reject an addition that overflows the counter.
---
 neco.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/neco.c b/neco.c
index ebd7340..8f60ddc 100644
--- a/neco.c
+++ b/neco.c
@@ -7510,17 +7510,42 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Wake up all coroutines that are waiting on the waitgroup.
+static void waitgroup_wake(struct neco_waitgroup *wg) {
+    struct coroutine *co = colist_pop_front(&wg->queue);
+    if (!co) {
+        return;
+    }
+    if (colist_is_empty(&wg->queue)) {
+        // Only one waiter. Do a quick switch.
+        sco_resume(co->id);
+    } else {
+        // Many waiters. Batch them together.
+        do {
+            sched_resume(co);
+            co = colist_pop_front(&wg->queue);  
+        } while (co);
+        yield_for_sched_resume();
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
     if (ret != NECO_OK) {
         return ret;
     }
+    if (delta > 0 && wg->count > INT_MAX - delta) {
+        return NECO_INVAL;
+    }
     int waiters = wg->count + delta;
     if (waiters < 0) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (wg->count == 0) {
+        waitgroup_wake(wg);
+    }
     return NECO_OK;
 }
 
@@ -7541,19 +7566,8 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
+    if (wg->count == 0) {
+        waitgroup_wake(wg);
     }
     return NECO_OK;
 }
-- 
2.43.0


From b0547418531387691884df57458a1112ab4e70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:43 +0000
Subject: [PATCH 18/32] fix: neco_cond_wait() released the mutex before it was
 waiting

A signal in between was lost. Also, a cancelation while relocking made the
coroutine exit without owning the mutex, and a signal received together with a
deadline or cancelation was dropped.
---
 neco.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index 8f60ddc..1cfc37c 100644
--- a/neco.c
+++ b/neco.c
@@ -7371,22 +7371,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Unlock the mutex or hand it over to the next coroutines in the queue, which
+// are scheduled to resume. Returns true if any were scheduled.
+static bool mutex_handoff(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7405,7 +7407,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_handoff(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7699,6 +7707,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->done = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7718,6 +7727,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->done = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7747,7 +7757,9 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
+    // Do not yield between unlocking and waiting, otherwise a signal sent by
+    // the next owner of the lock will be missed.
+    mutex_handoff(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
     colist_push_back(&cvar->queue, co);
@@ -7755,9 +7767,14 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    ret = checkwait(co);
+    // Must relock. A cancelation that arrives in the meantime is left pending
+    // for the next operation.
+    bool canceled = false;
+    while (mutex_lock_dl(co, mu, INT64_MAX) != NECO_OK) {
+        canceled = true;
+    }
+    co->canceled = co->canceled || canceled;
     return ret;
 }
 
-- 
2.43.0


From 0b2be20e5fd34242d85d67cd459a3902e80a943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 19/32] fix: neco_lasterr() not updated by failed neco_mutex_*
 and neco_gen_yield calls

---
 neco.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 1cfc37c..ecb1f0c 100644
--- a/neco.c
+++ b/neco.c
@@ -7291,6 +7291,7 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_trylock(co, mu, true, 0);
@@ -7303,6 +7304,7 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, true, 0);
@@ -7340,6 +7342,7 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_lock_dl(co, mu, deadline);
@@ -7356,6 +7359,7 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, false, deadline);
@@ -8761,11 +8765,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret != NECO_OK) {
+        error_guard(ret);
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From c6acbabb2f04f057c7c7fdcaed52bb2568cb8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 20/32] fix: neco_getaddrinfo() leaked the result when canceled
 asynchronously

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index ecb1f0c..07cbae4 100644
--- a/neco.c
+++ b/neco.c
@@ -6802,11 +6802,13 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        // Yield before taking the result. If the coroutine is canceled then
+        // the result is freed by the thread.
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From adccbff5d412cdd5ae582da583a283a1ce025a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:46 +0000
Subject: [PATCH 21/32] fix: canceled neco_dial() continued with the next
 address

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 07cbae4..20e5fa7 100644
--- a/neco.c
+++ b/neco.c
@@ -7022,7 +7022,7 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From 49681f178a369e24bb74191e97cdbf8d4a926739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 22/32] fix: neco_serve() silently truncated a unix socket path
 that is too long

---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 20e5fa7..72603ff 100644
--- a/neco.c
+++ b/neco.c
@@ -7129,11 +7129,14 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
     memset(&unaddr, 0, sizeof(struct sockaddr_un));
     unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
-- 
2.43.0


From af222903b79c9f4b70d083416bbe4b76065c54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:49 +0000
Subject: [PATCH 23/32] fix: neco_stream_read_byte() swallowed a cancelation or
 timeout

---
 neco.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 72603ff..1db86e3 100644
--- a/neco.c
+++ b/neco.c
@@ -8320,9 +8320,14 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
+        int ret = checkdl(coself(), deadline);
+        async_error_guard(ret);
+        if (ret != NECO_OK) {
+            return ret;
+        }
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
-- 
2.43.0


From 42e7ad6cc7569534b11db30c0675762e6cae6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 24/32] fix: integer overflow for channel buffers larger than 2
 GB

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 1db86e3..b80bfc9 100644
--- a/neco.c
+++ b/neco.c
@@ -5837,7 +5837,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
-- 
2.43.0


From 5bf81d9757940516b2b468e8d12bb9b560c81b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:51 +0000
Subject: [PATCH 25/32] fix: neco_resume() reported success more than once for
 a single suspend

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index b80bfc9..96f99e7 100644
--- a/neco.c
+++ b/neco.c
@@ -8841,7 +8841,7 @@ static int suspend_dl(int64_t deadline) {
     rt->nsuspended--;
     co->suspended = false;
 
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_suspend() but with a deadline parameter. 
@@ -8872,6 +8872,8 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
+    co->suspended = false;
+    co->done = true;
     sco_resume(co->id);
     return NECO_OK;
 }
-- 
2.43.0


From 63492d4e491ceb6fc1c95e9b094e82a29874be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 26/32] fix: neco_strerror() did not know NECO_EOF

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 96f99e7..0e79948 100644
--- a/neco.c
+++ b/neco.c
@@ -5669,6 +5669,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_PERM";
     case NECO_NOMEM:
         return "NECO_NOMEM";
+    case NECO_EOF:
+        return "NECO_EOF";
     case NECO_NOTFOUND:
         return "NECO_NOTFOUND";
     case NECO_NOSIGWATCH:
@@ -5714,6 +5716,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From cac23c17e29f11ebcb50ed40ff08a4b5834aa2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:01 +0000
Subject: [PATCH 27/32] fix: byte read before the end of a stream could not be
 unread

---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 0e79948..9468b12 100644
--- a/neco.c
+++ b/neco.c
@@ -8245,6 +8245,9 @@ static ssize_t stream_read_dl(neco_stream *stream, void *data, size_t nbytes,
             deadline);
         if (n == -1) {
             return neco_errconv_from_sys();
+        } else if (n == 0) {
+            // End of file. The last byte read can still be unread.
+            return 0;
         }
         stream->rd.len = (size_t)n;
         stream->rd.pos = 0;
-- 
2.43.0


From 2fb46f3460926227b0646036e2523f4ea5868fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 28/32] fix: neco_gai_lasterr() was not set by
 neco_getaddrinfo()

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 9468b12..077d2cb 100644
--- a/neco.c
+++ b/neco.c
@@ -6829,6 +6829,7 @@ int neco_getaddrinfo_dl(const char *node, const char *service,
     } else if (ret == EAI_SYSTEM) {
         err = NECO_ERROR;
     } else {
+        neco_gai_errno = ret;
         err = NECO_GAIERROR;
     }
     async_error_guard(err);
-- 
2.43.0


From ef0d7359e8251bfab6e1a24be5ee41da9075bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 29/32] fix: flush buffered output when neco_main returns

---
 neco.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neco.c b/neco.c
index 077d2cb..82414fb 100644
--- a/neco.c
+++ b/neco.c
@@ -3817,6 +3817,8 @@ static void cleanup(void *stack, size_t stack_size, void *udata) {
     (void)stack; (void)stack_size;
 #ifndef NECO_TESTING
     if (immediate_exit) {
+        // Like a return from main(), do not lose buffered output.
+        fflush(NULL);
         _Exit(immediate_exit_code);
     }
 #endif
-- 
2.43.0


From 0122871305aba55041247afe8ccd5eeb5a1e9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:06 +0000
Subject: [PATCH 30/32] fix: an event queue with descriptor 0 was taken for
 none, losing its waiters

---
 neco.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 82414fb..ec691d6 100644
--- a/neco.c
+++ b/neco.c
@@ -4300,13 +4300,13 @@ static void rt_sched_paused_step(void) {
 // Resource collection step
 static void rt_rc_step(void) {
     int64_t now = getnow();
-    if (rt->nevwaiters == 0 && rt->qfd > 0) {
+    if (rt->nevwaiters == 0 && rt->qfd != -1) {
         if (now - rt->qfdcreated > NECO_MILLISECOND * 100) {
             // Close the event queue file descriptor if it's no longer needed.
             // When the queue goes unused for more than 100 ms it will
             // automatically be closed.
             close(rt->qfd);
-            rt->qfd = 0;
+            rt->qfd = -1;
         }
     }
     // Deal with coroutine pools.
@@ -4343,7 +4343,7 @@ static int rt_scheduler(void) {
         sco_resume(0);
     }
     // Cleanup extra resources
-    if (rt->qfd) {
+    if (rt->qfd != -1) {
         close(rt->qfd);
     }
     struct coroutine *co = colist_pop_front(&rt->pool);
@@ -4407,6 +4407,7 @@ static int run(void(*coroutine)(int, void**), int nargs, va_list *args,
     }
     *rt = RUNTIME_DEFAULTS;
     rt->mainthread = is_main_thread();
+    rt->qfd = -1;
     rt->id = atomic_fetch_add(&next_runtime_id, 1);
 
 
@@ -4988,7 +4989,7 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
 
     sco_yield();
 #else
-    if (rt->qfd == 0) {
+    if (rt->qfd == -1) {
         // The scheduler currently does not have an event queue for handling
         // file events. Create one now. This new queue will be shared for the 
         // entirety of the scheduler. It will be automatically freed when it's
@@ -4998,7 +4999,6 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
             // Error creating the event queue. This is usually due to a system
             // that is low on resources or is limiting the number of file
             // descriptors allowed by a program, e.g. ulimit. 
-            rt->qfd = 0;
             return -1;
         }
         // The queue was successfully created.
-- 
2.43.0


From 319a3bf47951a9011328d24baf540f71924ec62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 31/32] fix: descriptor 0 was not closed after a name lookup

---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index ec691d6..f07f22e 100644
--- a/neco.c
+++ b/neco.c
@@ -6622,10 +6622,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6645,6 +6645,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
-- 
2.43.0


From 1178783fcbd785f13fc4bda9a3ef3e609d29a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:58 +0000
Subject: [PATCH 32/32] fix: a canceler used the freed target when it was let
 go as the target ended

A coroutine that waits in neco_cancel for a target with cancelation disabled
decremented a counter in the target after being resumed. The target may have
enabled cancelation and ended before that, in which case its memory is
already freed (with NECO_NOPOOL) or reused (with the pool). The counter is
read nowhere, so remove it.
---
 neco.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neco.c b/neco.c
index f07f22e..704eaf1 100644
--- a/neco.c
+++ b/neco.c
@@ -3363,7 +3363,6 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
     int njoinlist;                // number of waiting coroutines
@@ -4740,10 +4739,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
     }
 }
 
-- 
2.43.0

