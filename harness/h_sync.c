// Mutexes (exclusive and shared), condition variables, wait groups: random
// programs + checks over the recorded history. Modes: mutex, rw, cond, wg, mix.
#include "vh.h"
#include <limits.h>

enum { LOCK, RDLOCK, TRYLOCK, TRYRDLOCK, UNLOCK, CWAIT, CSIGNAL, CBCAST, WADD, WDONE, WWAIT, CANCEL, SLEEP, YIELD, BUSY, CSTATE, QUIESCE, EXIT, RET, NOPS };
static const char *const names[] = {"lock","rdlock","trylock","tryrdlock","unlock","cwait","csignal","cbcast","wadd","wdone","wwait","cancel","sleep","yield","busy","cstate","QUIESCE","exit","ret"};

#define MAXCO 70
#define MAXOBJ 3
#define MAXREC 24000
struct rec {
    int kind, co, obj, obj2; int call, ret, res; int64_t dl, tcall; int cend; bool precancel;
    int rel;          // lock-like: event of the release (unlock call), or INT32_MAX
    bool rd, fuzzy;   // shared; acquisition inside of a condition wait
    int val; int ny; int bind;
    bool imm, owed;
};
struct cos { int64_t id; bool async, alive, started; int cur; int cflight, creturned; int script; bool disabled; int held[MAXOBJ]; int lastc; bool owed; };
static struct rec recs[MAXREC]; static int nrec;
static struct cos co[MAXCO]; static int nco, ndone; static bool stop; static int qidx;
static neco_mutex mu[MAXOBJ]; static neco_cond cv[MAXOBJ]; static neco_waitgroup wg[MAXOBJ]; static int wgcount[MAXOBJ];
static int nmu, ncv, nwg; static int wt[16]; static bool use_dl, use_cancel;
static struct { int idx; int co; } cancels[MAXREC]; static int ncancels;
static bool initobj;

static int pendc(int me) { return co[me].cflight + co[me].creturned; }
static void consumec(int me) { if (co[me].creturned > 0) co[me].creturned = 0; }
static struct rec *begin(int me, int kind, int obj, int64_t dl) {
    if (nrec >= MAXREC) vh_error("too many records");
    struct rec *r = &recs[nrec++]; memset(r, 0, sizeof *r);
    r->kind = kind; r->co = me; r->obj = obj; r->dl = dl; r->ret = -1; r->res = 12345; r->rel = INT32_MAX; r->bind = -1;
    r->tcall = vh_time(); r->precancel = pendc(me) > 0; r->owed = co[me].owed;
    r->call = vh_log(me, kind, obj, 0, 0); co[me].cur = (int)(r - recs); vh_pend[me] = kind == CWAIT ? INT64_MAX : dl;
    return r;
}
static void end(int me, struct rec *r, int res) {
    r->res = res; r->ret = vh_log(me, RET, r->obj, r->kind, res); r->imm = r->ret == r->call + 1;
    co[me].cur = -1; vh_pend[me] = INT64_MAX;
    // A cancelation that was accepted before the call, and that no operation has reported yet, is reported by this one.
    if (r->owed && (r->kind == LOCK || r->kind == RDLOCK || r->kind == CWAIT || r->kind == WWAIT || r->kind == SLEEP)) {
        if (r->kind == SLEEP && res == NECO_OK && r->imm) { } // its time had already come
        else if (res != NECO_CANCELED) VIOL("co %d: %s at event %d returned %d although a cancelation was pending", me, names[r->kind], r->call, res);
        vh_count("owed_cancels", 1);
    }
    if (res == NECO_CANCELED) {
        co[me].owed = false; co[me].lastc = r->ret;
        if (pendc(me) == 0) VIOL("co %d: %s returned CANCELED without a cancelation", me, names[r->kind]);
        // A condition wait consumes one at the wake-up; another may arrive while it relocks.
        if (r->kind == CWAIT && co[me].creturned > 1) co[me].creturned--; else consumec(me);
    }
    if (r->dl < r->tcall && (r->kind == LOCK || r->kind == RDLOCK || r->kind == WWAIT) && res != NECO_TIMEDOUT && res != NECO_CANCELED) VIOL("co %d: %s with a deadline in the past returned %d", me, names[r->kind], res);
    if (res == NECO_TIMEDOUT) {
        if (r->dl == INT64_MAX) VIOL("co %d: %s returned TIMEDOUT without a deadline", me, names[r->kind]);
        else if (vh_time() < r->dl) VIOL("co %d: %s returned TIMEDOUT before its deadline", me, names[r->kind]);
    }
    vh_count(names[r->kind], 1);
}
static int64_t rdl(void) {
    if (!use_dl || vh_chance(1, 3)) return INT64_MAX;
    switch (vh_rn(5)) {
    case 0: return vh_time() + vh_range(0, 3000);
    case 1: return vh_time() - 5;
    default: return vh_time() + vh_range(1, 4000) * 1000;
    }
}
static bool okres(int r) { return r == NECO_OK || r == NECO_TIMEDOUT || r == NECO_CANCELED; }
// The exclusion monitor, online: who is inside of the critical section.
static int writers[MAXOBJ], readers[MAXOBJ];
static void enter(int me, int m, bool rd) {
    if (rd) readers[m]++; else writers[m]++;
    if (writers[m] > 1 || (writers[m] && readers[m])) VIOL("mutex %d: co %d entered (%s) with %d writers and %d readers inside", m, me, rd ? "shared" : "exclusive", writers[m], readers[m]);
}
static void leave(int m, bool rd) { if (rd) readers[m]--; else writers[m]--; }

static void do_lock(int me, int m, int kind) {
    if (co[me].held[m] >= 0) return;
    int64_t dl = kind == LOCK || kind == RDLOCK ? rdl() : INT64_MAX;
    struct rec *r = begin(me, kind, m, dl); r->rd = kind == RDLOCK || kind == TRYRDLOCK;
    int ret = kind == LOCK ? (dl == INT64_MAX ? neco_mutex_lock(&mu[m]) : neco_mutex_lock_dl(&mu[m], dl)) :
              kind == RDLOCK ? (dl == INT64_MAX ? neco_mutex_rdlock(&mu[m]) : neco_mutex_rdlock_dl(&mu[m], dl)) :
              kind == TRYLOCK ? neco_mutex_trylock(&mu[m]) : neco_mutex_tryrdlock(&mu[m]);
    end(me, r, ret);
    if (ret == NECO_OK) { co[me].held[m] = (int)(r - recs); enter(me, m, r->rd); }
    else if (!okres(ret) && !(ret == NECO_BUSY && (kind == TRYLOCK || kind == TRYRDLOCK))) VIOL("%s returned %d", names[kind], ret);
    else if ((kind == TRYLOCK || kind == TRYRDLOCK) && ret != NECO_BUSY) VIOL("%s returned %d", names[kind], ret);
    if (ret == NECO_BUSY) vh_count("busy_results", 1);
}
static void do_unlock(int me, int m) {
    int h = co[me].held[m]; if (h < 0) return;
    co[me].held[m] = -1;
    leave(m, recs[h].rd);
    struct rec *r = begin(me, UNLOCK, m, INT64_MAX);
    recs[h].rel = r->call;
    if (vh_chance(1, 6)) { int d = neco_mutex_destroy(&mu[m]); if (d != NECO_BUSY) VIOL("destroying a mutex that is held returned %d", d); }
    int ret = neco_mutex_unlock(&mu[m]);
    end(me, r, ret);
    if (ret != NECO_OK) VIOL("unlock returned %d", ret);
}
static void do_cwait(int me, int c) {
    int m = c % nmu;
    if (co[me].held[m] >= 0 && recs[co[me].held[m]].rd) do_unlock(me, m);
    if (co[me].held[m] < 0) do_lock(me, m, LOCK);
    int h = co[me].held[m]; if (h < 0) return;
    int64_t dl = rdl();
    struct rec *r = begin(me, CWAIT, c, dl); r->obj2 = m;
    recs[h].rel = r->call; co[me].held[m] = -1; leave(m, false);
    int ret = dl == INT64_MAX ? neco_cond_wait(&cv[c], &mu[m]) : neco_cond_wait_dl(&cv[c], &mu[m], dl);
    end(me, r, ret); r->fuzzy = true;
    co[me].held[m] = (int)(r - recs); enter(me, m, false);
    if (!okres(ret)) VIOL("cond_wait returned %d", ret);
    // The mutex has to be locked on every return.
    if (neco_mutex_trylock(&mu[m]) == NECO_OK) VIOL("cond_wait returned %d without holding the mutex", ret);
    if (vh_chance(3, 4)) do_unlock(me, m);
}
static void do_wwait(int me, int w) {
    int64_t dl = rdl();
    struct rec *r = begin(me, WWAIT, w, dl); r->val = wgcount[w];
    int ret = dl == INT64_MAX ? neco_waitgroup_wait(&wg[w]) : neco_waitgroup_wait_dl(&wg[w], dl);
    end(me, r, ret);
    if (!okres(ret)) VIOL("waitgroup_wait returned %d", ret);
}
static void do_wadd(int me, int w, int delta) {
    struct rec *r = begin(me, WADD, w, INT64_MAX);
    int before = wgcount[w];
    if (before + delta >= 0) wgcount[w] += delta;
    r->val = wgcount[w]; r->ny = before;
    bool neg = before + delta < 0;
    int ret = neco_waitgroup_add(&wg[w], delta);
    end(me, r, ret);
    if (ret != (neg ? NECO_NEGWAITGRP : NECO_OK)) VIOL("waitgroup_add(%d) at %d returned %d", delta, before, ret);
}
static void do_wdone(int me, int w) {
    struct rec *r = begin(me, WDONE, w, INT64_MAX);
    int before = wgcount[w];
    if (before > 0) wgcount[w]--;
    r->val = wgcount[w]; r->ny = before;
    int ret = neco_waitgroup_done(&wg[w]);
    end(me, r, ret);
    if (ret != (before == 0 ? NECO_NEGWAITGRP : NECO_OK)) VIOL("waitgroup_done at %d returned %d", before, ret);
}
static void do_cancel(int me, int t) {
    if (t == me || !co[t].started || !co[t].alive) return;
    struct rec *r = begin(me, CANCEL, t, vh_time() + 500 * US);
    cancels[ncancels].idx = r->call; cancels[ncancels++].co = t;
    co[t].cflight++;
    int ret = neco_cancel_dl(co[t].id, r->dl);
    co[t].cflight--;
    if (ret == NECO_OK) co[t].creturned++;
    if (ret == NECO_OK && co[t].lastc < r->call) co[t].owed = true;
    end(me, r, ret);
}
static void on_exit_co(void *arg) {
    int me = (int)(intptr_t)arg; vh_pend[me] = INT64_MAX;
    if (co[me].cur >= 0) {
        struct rec *r = &recs[co[me].cur];
        if (r->kind == CANCEL) { co[r->obj].cflight--; co[r->obj].creturned++; }
        if (pendc(me) == 0) VIOL("co %d exited without a cancelation in %s", me, names[r->kind]);
        if (r->kind == YIELD) r->ny = 0;
        bool fails = r->kind == LOCK || r->kind == RDLOCK || r->kind == CWAIT || r->kind == WWAIT;
        r->res = fails ? NECO_CANCELED : NECO_OK;
        r->ret = vh_log(me, RET, r->obj, r->kind, r->res); r->imm = r->ret == r->call + 1;
        co[me].cur = -1;
        if (r->kind == CWAIT) { // as with pthreads, the cleanup runs with the mutex locked
            r->fuzzy = true; co[me].held[r->obj2] = (int)(r - recs); enter(me, r->obj2, false);
            if (neco_mutex_trylock(&mu[r->obj2]) == NECO_OK) VIOL("canceled cond_wait exited without holding the mutex");
        }
    }
    vh_count("async_exit", 1);
    for (int m = 0; m < nmu; m++) do_unlock(me, m);
    vh_log(me, EXIT, 0, 1, 0); co[me].alive = false; ndone++;
}
static int focus; // the favourite target of cancelations, or none
static int pickop(void) {
    int sum = 0; for (int i = 0; i < 16; i++) sum += wt[i];
    int v = (int)vh_rn((uint32_t)sum);
    for (int i = 0; i < 16; i++) { v -= wt[i]; if (v < 0) return i; }
    return YIELD;
}
static void do_yield(int me, int n) {
    struct rec *r = begin(me, YIELD, 0, INT64_MAX); r->ny = n;
    for (int i = 0; i < n; i++) neco_yield();
    end(me, r, NECO_OK);
}
static void body(int me) {
    for (int k = 0; k < co[me].script && !stop; k++) {
        int op = pickop(); int m = (int)vh_rn((uint32_t)nmu), c = (int)vh_rn((uint32_t)ncv), w = (int)vh_rn((uint32_t)nwg);
        switch (op) {
        case LOCK: case RDLOCK: case TRYLOCK: case TRYRDLOCK:
            // lock order by object, against deadlocks of the program itself
            for (int i = m; i < nmu; i++) if (co[me].held[i] >= 0) do_unlock(me, i);
            do_lock(me, m, op);
            if (co[me].held[m] >= 0) {
                if (vh_chance(1, 2)) do_yield(me, vh_range(1, 3));
                else if (vh_chance(1, 2)) { struct rec *r = begin(me, SLEEP, 0, INT64_MAX); int ret = neco_sleep(vh_range(1, 1500) * US * (nco > 9 && vh_chance(1, 3) ? 25 : 1)); end(me, r, ret == NECO_TIMEDOUT ? NECO_OK : ret); }
                if (vh_chance(2, 3)) do_unlock(me, m);
            }
            break;
        case UNLOCK: for (int i = 0; i < nmu; i++) do_unlock(me, i); break;
        case CWAIT: for (int i = 0; i < nmu; i++) if (i != c % nmu) do_unlock(me, i);
            do_cwait(me, c); break;
        case CSIGNAL: case CBCAST: {
            if (vh_chance(1, 2)) { for (int i = 0; i < nmu; i++) do_unlock(me, i); do_lock(me, c % nmu, LOCK); }
            struct rec *r = begin(me, op, c, INT64_MAX);
            int ret = op == CSIGNAL ? neco_cond_signal(&cv[c]) : neco_cond_broadcast(&cv[c]);
            end(me, r, ret);
            if (ret != NECO_OK) VIOL("%s returned %d", names[op], ret);
            if (vh_chance(3, 4)) for (int i = 0; i < nmu; i++) do_unlock(me, i);
            break; }
        case WADD: do_wadd(me, w, vh_chance(1, 6) ? -vh_range(1, 3) : vh_chance(1, 12) ? 0 : vh_range(1, 3)); break;
        case WDONE: do_wdone(me, w); break;
        case WWAIT: for (int i = 0; i < nmu; i++) do_unlock(me, i);
            do_wwait(me, w); break;
        case CANCEL: if (use_cancel) do_cancel(me, focus >= 0 && vh_chance(2, 3) ? focus : (int)vh_rn((uint32_t)nco)); break;
        case SLEEP: { struct rec *r = begin(me, SLEEP, 0, INT64_MAX); int ret = neco_sleep(vh_range(1, 2500) * US); end(me, r, ret == NECO_TIMEDOUT ? NECO_OK : ret); break; }
        case YIELD: do_yield(me, vh_range(1, 5)); break;
        case BUSY: vh_now += vh_range(1, 3000) * US; vh_log(me, BUSY, 0, 0, 0); break;
        case CSTATE: if (use_cancel) { co[me].disabled = !co[me].disabled; neco_setcancelstate(co[me].disabled ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, 0); } break;
        }
    }
}
static void entry(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    co[me].id = neco_getid(); co[me].alive = true; co[me].started = true; co[me].cur = -1;
    neco_setcanceltype(co[me].async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    neco_cleanup_push(on_exit_co, (void*)(intptr_t)me);
    body(me);
    neco_cleanup_pop(0);
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int m = 0; m < nmu; m++) do_unlock(me, m);
    vh_log(me, EXIT, 0, 0, 0); co[me].alive = false; ndone++;
}
#define MAINCO (MAXCO-1)
static void mainco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    co[MAINCO].cur = -1;
    for (int i = 0; i < MAXOBJ; i++) {
        memset(&mu[i], 0, sizeof mu[i]); memset(&cv[i], 0, sizeof cv[i]); memset(&wg[i], 0, sizeof wg[i]); wgcount[i] = 0;
        if (initobj) { neco_mutex_init(&mu[i]); neco_cond_init(&cv[i]); neco_waitgroup_init(&wg[i]); }
    }
    for (int me = 0; me < nco; me++) if (neco_start(entry, 1, (void*)(intptr_t)me) != NECO_OK) vh_fatal("start failed");
    int64_t tend = vh_time() + 3 * NECO_SECOND;
    while (vh_time() < tend) neco_sleep_dl(tend);
    qidx = vh_log(MAINCO, QUIESCE, 0, 0, 0);
    stop = true;
    for (int round = 0; ndone < nco; round++) {
        if (round > 200) {
            for (int i = 0; i < nco; i++) if (co[i].alive || !co[i].started) {
                vh_fatal("coroutine %d is stuck in %s on object %d although nothing holds it back (holders: %d writers, %d readers)", i,
                    co[i].cur >= 0 ? names[recs[co[i].cur].kind] : "nothing", co[i].cur >= 0 ? recs[co[i].cur].obj : -1, writers[0], readers[0]);
            }
        }
        for (int i = 0; i < ncv; i++) { struct rec *r = begin(MAINCO, CBCAST, i, INT64_MAX); end(MAINCO, r, neco_cond_broadcast(&cv[i])); }
        for (int i = 0; i < nwg; i++) { int n = 0; while (wgcount[i] > 0 && n++ < 50) do_wdone(MAINCO, i); }
        neco_sleep(1 * MS);
    }
    for (int i = 0; i < nmu; i++) {
        int ret = neco_mutex_trylock(&mu[i]);
        if (ret != NECO_OK) VIOL("mutex %d is still locked (%d) after every holder released it", i, ret);
    }
}

// ------------------------------------------------------------------ checker
static int first_time(int from, int64_t t) { for (int i = from; i < vh_nev; i++) if (vh_evs[i].t >= t) return i; return vh_nev; }
static bool iswait(struct rec *r) { return r->kind == LOCK || r->kind == RDLOCK; }
static bool isacq(struct rec *r) { return r->kind == LOCK || r->kind == RDLOCK || ((r->kind == TRYLOCK || r->kind == TRYRDLOCK) ); }
// Is a holder of mutex m inside at event t? (fuzzy: inside of a condition wait it may or may not be)
static bool holds(struct rec *r, int m, int t) {
    if (r->kind == CWAIT) return r->obj2 == m && r->ret < t && t < r->rel;
    return isacq(r) && r->obj == m && r->res == NECO_OK && r->ret < t && t < r->rel;
}
static void check_mutex(int m) {
    for (int i = 0; i < nrec; i++) {
        struct rec *a = &recs[i];
        if (!isacq(a) || a->obj != m) continue;
        bool hw = false, hr = false, okpend = false, anypend = false, certpend = false, fz = false;
        int t = a->call;
        for (int k = 0; k < nrec; k++) {
            struct rec *b = &recs[k]; if (b == a) continue;
            if (holds(b, m, t)) { if (b->kind == CWAIT || !b->rd) hw = true; else hr = true; }
            if (b->kind == CWAIT && b->obj2 == m && b->call < t && t < b->ret) fz = true;
            if (iswait(b) && b->obj == m && b->call < t && t < b->ret) {
                anypend = true;
                if (b->res == NECO_OK) okpend = true;
                bool granted = false; // an unlock since it began to wait
                for (int q = 0; q < nrec; q++) if (((recs[q].kind == UNLOCK && recs[q].obj == m) || (recs[q].kind == CWAIT && recs[q].obj2 == m)) && recs[q].call > b->call && recs[q].call < t) granted = true;
                bool certain = b->res == NECO_OK || t < b->cend;
                if (certain && !b->rd) certpend = true;
                if (certain && b->rd && !granted) certpend = true;
                if (a->imm && a->res == NECO_OK && !a->rd && certain) VIOL("mutex %d: co %d acquired it at event %d ahead of co %d waiting since event %d", m, a->co, a->call, b->co, b->call);
            }
        }
        if (a->imm && a->res == NECO_OK && a->rd && certpend) VIOL("mutex %d: reader co %d acquired it at event %d ahead of a waiting coroutine", m, a->co, a->call);
        if (a->res == NECO_BUSY) {
            if (!a->rd && !hw && !hr && !okpend && !fz) VIOL("mutex %d: trylock at event %d returned BUSY although the mutex was free", m, t);
            if (a->rd && !hw && !anypend && !fz) VIOL("mutex %d: tryrdlock at event %d returned BUSY although no writer held or waited", m, t);
        }
        if (iswait(a) && !a->imm) { // it had to wait: was there a reason?
            if (!hw && !hr && !okpend && !fz) { if (!(a->res != NECO_OK && a->precancel)) VIOL("mutex %d: co %d had to wait at event %d although the mutex was free", m, a->co, t); }
            if (a->rd && !hw && !anypend && !fz && !(a->res != NECO_OK && a->precancel)) VIOL("mutex %d: reader co %d had to wait at event %d although no writer held or waited", m, a->co, t);
        }
        if (iswait(a) && a->imm && a->res != NECO_OK) { // failed immediately
            bool dlpast = a->dl < INT64_MAX && vh_evs[a->ret].t >= a->dl;
            if (!a->precancel && !dlpast) VIOL("mutex %d: %s at event %d returned %d at once", m, names[a->kind], t, a->res);
        }
        // A certain waiter never sees the mutex free.
        if (iswait(a) && !a->imm && a->res != NECO_OK) {
            for (int u = 0; u < nrec; u++) if (((recs[u].kind == UNLOCK && recs[u].obj == m) || (recs[u].kind == CWAIT && recs[u].obj2 == m)) && recs[u].call > a->call && recs[u].call + 1 < a->cend) {
                int t2 = recs[u].call + 1; bool busy = false;
                for (int k = 0; k < nrec; k++) {
                    struct rec *b = &recs[k]; if (b == a) continue;
                    if (holds(b, m, t2) || (b->ret == t2 && isacq(b) && b->obj == m && b->res == NECO_OK)) busy = true;
                    if (iswait(b) && b->obj == m && b->res == NECO_OK && b->call < t2 && t2 <= b->ret) busy = true;
                    if (b->kind == CWAIT && b->obj2 == m && b->call < t2 && t2 <= b->ret) busy = true;
                }
                if (!busy) VIOL("mutex %d: released at event %d, but co %d waiting since event %d did not get it (result %d)", m, recs[u].call, a->co, a->call, a->res);
            }
        }
    }
    // first come, first served
    for (int i = 0; i < nrec; i++) {
        struct rec *a = &recs[i];
        if (!iswait(a) || a->obj != m || a->res != NECO_OK || a->imm) continue;
        for (int k = i + 1; k < nrec; k++) {
            struct rec *b = &recs[k];
            if (!iswait(b) || b->obj != m || b->res != NECO_OK || b->imm || b->call > a->ret) continue;
            if (a->rd && b->rd) continue;
            if (b->ret < a->ret) VIOL("mutex %d: co %d (waiting since event %d) got it before co %d (waiting since event %d)", m, b->co, b->call, a->co, a->call);
        }
    }
    // neighbouring readers are granted together: a reader does not stay behind while the one before it has gone on
    for (int i = 0; i < nrec; i++) {
        struct rec *a = &recs[i];
        if (a->kind != RDLOCK || a->obj != m || a->res != NECO_OK || a->imm) continue;
        int first = INT_MAX, barrier = INT_MAX, seen = INT_MAX; // the first release since, the first writer behind it, proof that everybody runnable has run
        for (int k = 0; k < nrec; k++) {
            struct rec *q = &recs[k];
            if (((q->kind == UNLOCK && q->obj == m) || (q->kind == CWAIT && q->obj2 == m)) && q->call > a->call && q->call < first) first = q->call;
            if (q->kind == LOCK && q->obj == m && q->call > a->call && q->call < barrier) barrier = q->call;
            if (q->kind == CWAIT && q->obj2 == m && q->ret > a->call) barrier = 0;
            if (q->call > a->ret && q->ret > 0 && q->ret < seen && q->res == NECO_OK && ((q->kind == YIELD && q->ny >= 4) || (q->kind == SLEEP && !q->imm))) seen = q->ret;
        }
        for (int k = i + 1; k < nrec && seen < INT_MAX; k++) {
            struct rec *b = &recs[k];
            if (b->kind != RDLOCK || b->obj != m || b->imm || b->call < a->call || b->call >= first || b->call >= barrier) continue;
            vh_count("reader_pairs", 1);
            if (b->ret > seen && b->cend > seen) VIOL("mutex %d: reader co %d (waiting since event %d) stayed behind when reader co %d before it got the lock at event %d", m, b->co, b->call, a->co, a->ret);
        }
    }
}
static void check_cond(int c) {
    // replay: signals assign the first waiter
    for (int i = 0; i < nrec; i++) {
        struct rec *s = &recs[i];
        if ((s->kind != CSIGNAL && s->kind != CBCAST) || s->obj != c) continue;
        for (int k = 0; k < nrec; k++) {
            struct rec *w = &recs[k];
            if (w->kind != CWAIT || w->obj != c || w->bind >= 0) continue;
            if (!(w->call < s->call && s->call < w->ret)) continue;
            if (w->res != NECO_OK) {
                if (s->call < w->cend) { VIOL("condition %d: the %s at event %d did not wake co %d, first in line since event %d (it returned %d)", c, names[s->kind], s->call, w->co, w->call, w->res); return; }
                continue;
            }
            w->bind = s->call; vh_count("cond_wakeups", 1);
            if (s->kind == CSIGNAL) break;
        }
    }
    for (int k = 0; k < nrec; k++) {
        struct rec *w = &recs[k];
        if (w->kind == CWAIT && w->obj == c && w->res == NECO_OK && w->bind < 0) VIOL("condition %d: the wait of co %d at event %d returned OK without a signal for it", c, w->co, w->call);
    }
    // Waiters woken by different calls, or by one broadcast, leave in order:
    // they queue for the mutex in that order.
}
static void check_wg(int g) {
    for (int i = 0; i < nrec; i++) {
        struct rec *w = &recs[i]; if (w->kind != WWAIT || w->obj != g) continue;
        int z = -1; // first event at which the counter reached zero while waiting
        for (int k = 0; k < nrec && z < 0; k++) {
            struct rec *d = &recs[k];
            if ((d->kind == WADD || d->kind == WDONE) && d->obj == g && d->call > w->call && d->call < w->ret && d->val == 0 && d->res == NECO_OK) z = d->call;
        }
        if (w->res == NECO_OK && w->val > 0 && z < 0) VIOL("waitgroup %d: wait at event %d returned OK although the counter (%d) never reached zero", g, w->call, w->val);
        if (w->val == 0 && w->res != NECO_OK && !w->precancel && !(w->dl < INT64_MAX && vh_evs[w->ret].t >= w->dl) && w->imm) VIOL("waitgroup %d: wait on a zero counter returned %d", g, w->res);
        // the waiter runs within a few scheduler rounds after the counter reached zero
        int from = w->val == 0 ? w->call : z;
        if (from >= 0) {
            int lim = w->res == NECO_OK ? w->ret : w->cend;
            for (int k = 0; k < nrec; k++) {
                struct rec *y = &recs[k];
                if (y->kind == YIELD && y->ny >= 4 && y->call > from && y->ret >= 0 && y->ret < lim) VIOL("waitgroup %d: co %d was not woken for at least %d scheduler rounds after the counter reached zero at event %d", g, w->co, y->ny, from);
            }
            if (from < qidx && qidx < w->ret) VIOL("waitgroup %d: co %d stayed blocked although the counter reached zero at event %d", g, w->co, from);
            vh_count("wg_released", 1);
        }
    }
}
static void check(void) {
    for (int i = 0; i < nrec; i++) {
        struct rec *r = &recs[i];
        r->cend = r->ret;
        if (r->precancel) r->cend = r->call;
        for (int k = 0; k < ncancels; k++) if (cancels[k].co == r->co && cancels[k].idx >= r->call && cancels[k].idx < r->cend) r->cend = cancels[k].idx;
        if (r->dl < INT64_MAX) { int e = first_time(r->call, r->dl); if (e < r->cend) r->cend = e; }
        if (r->cend < r->call) r->cend = r->call;
    }
    for (int m = 0; m < nmu; m++) check_mutex(m);
    for (int c = 0; c < ncv; c++) check_cond(c);
    for (int g = 0; g < nwg; g++) check_wg(g);
}
static void setw(int l, int rl, int tl, int trl, int u, int cw, int cs, int cb, int wa, int wd, int ww, int cx, int sl, int y, int bu, int st) {
    int w[] = {l,rl,tl,trl,u,cw,cs,cb,wa,wd,ww,cx,sl,y,bu,st}; memcpy(wt, w, sizeof w);
}
static void one(uint64_t seed) {
    (void)seed; vh_opnames(names, NOPS);
    nrec = 0; ncancels = 0; ndone = 0; stop = false; qidx = 0;
    memset(co, 0, sizeof co); memset(writers, 0, sizeof writers); memset(readers, 0, sizeof readers);
    const char *m = vh_mode;
    nmu = vh_chance(2, 3) ? 1 : 2; ncv = vh_range(1, 2); nwg = vh_range(1, 2); nco = vh_range(2, 9);
    if (vh_chance(1, 60)) { nco = vh_range(10, 60); vh_count("big_cases", 1); }
    use_dl = vh_chance(2, 3); use_cancel = vh_chance(1, 2); initobj = vh_chance(1, 2);
    if (vh_chance(1, 3)) { vh_jitter = vh_range(3, 40); vh_jitter_max = vh_range(1, 800) * US; }
    if (!strcmp(m, "mutex")) setw(40,0,8,0,12,0,0,0,0,0,0,4,4,8,4,2);
    else if (!strcmp(m, "rw")) setw(16,28,5,6,10,0,0,0,0,0,0,4,4,8,4,2);
    else if (!strcmp(m, "cond")) setw(6,0,2,0,3,30,20,7,0,0,0,5,4,8,4,2);
    else if (!strcmp(m, "wg")) setw(0,0,0,0,0,0,0,0,16,20,26,5,4,14,4,2);
    else setw(10,8,2,2,6,12,10,3,6,8,8,4,4,8,4,2);
    vh_swarm(wt, 16, 1, nco > 9 ? 2 : 5); focus = vh_chance(1, 5) ? (int)vh_rn((uint32_t)nco) : -1;
    for (int i = 0; i < MAXCO; i++) { co[i].cur = -1; for (int k = 0; k < MAXOBJ; k++) co[i].held[k] = -1; }
    for (int i = 0; i < nco; i++) { co[i].async = use_cancel && vh_chance(1, 4); co[i].script = vh_range(2, 16); }
    long live0 = vh_track_live();
    int ret = vh_start(VH_NZ_EV|VH_NZ_SIG, mainco, 0);
    if (ret != NECO_OK) vh_fatal("neco_start %d", ret);
    if (vh_track_live() != live0) VIOL("%ld blocks leaked by the case", vh_track_live() - live0);
    check();
    int waits = 0;
    for (int i = 0; i < nrec; i++) {
        if (recs[i].ret > recs[i].call + 1 && (iswait(&recs[i]) || recs[i].kind == CWAIT || recs[i].kind == WWAIT)) { waits++; vh_count(recs[i].res == NECO_OK ? "contended_ok" : "contended_failed", 1); }
        if (recs[i].res == NECO_TIMEDOUT) vh_count("timedout", 1);
        if (recs[i].res == NECO_CANCELED) vh_count("canceled", 1);
    }
    if (waits < 1) vh_trivial();
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
