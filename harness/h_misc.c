// Scheduler fairness and wake-up promptness, runtime statistics, execution
// context (registers, stacks), random bytes, error reporting.
// Modes: fair, stats, ctx, rand, api.
#include "vh.h"
#include <signal.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/wait.h>
#include <pthread.h>

enum { TURN, WAKE, READY, PARK, UNPARK, STAT, CALL, SWITCH, RND, NOPS };
static const char *const names[] = {"turn","wake","ready","park","unpark","stats","call","switch","rand"};
#define MAXCO 64

// ------------------------------------------------------------------ fair
#define NW 10
static int ny = 0, nw, yturns[MAXCO], ydone; static bool ylive[MAXCO];
static struct { int kind; bool waiting; int64_t id; int pfd[2]; neco_chan *ch; neco_mutex mu; neco_cond cv; neco_waitgroup wg; bool ready; int readyev; bool fin; int64_t dl; } w[NW];
static bool fstop;
enum { W_SLEEP, W_READ, W_WAIT, W_SUSP, W_RECV, W_SEND, W_LOCK, W_COND, W_WG, W_JOIN, W_SELECT, W_CANCEL, W_NKIND };
static const char *const wname[] = {"sleep","read","wait","suspend","recv","send","lock","cond","waitgroup","join","select","canceled"};
// make a waiter ready
static void wakeone(bool yielder) {
    int k = (int)vh_rn((uint32_t)nw);
    if (!w[k].waiting || w[k].ready) return;
    bool fdk = w[k].kind == W_READ || w[k].kind == W_WAIT;
    if (fdk != yielder || w[k].kind == W_SLEEP || w[k].kind == W_JOIN) return;
    int ret = 0, v = 7;
    w[k].ready = true; w[k].readyev = vh_log(k, READY, 0, w[k].kind, 0);
    switch (w[k].kind) {
    case W_READ: case W_WAIT: if (write(w[k].pfd[1], "x", 1) != 1) vh_error("pipe"); break;
    case W_SUSP: ret = neco_resume(w[k].id); break;
    case W_CANCEL: ret = neco_cancel(w[k].id); break;
    case W_LOCK: ret = neco_mutex_unlock(&w[k].mu); break;
    case W_COND: ret = neco_cond_signal(&w[k].cv); break;
    case W_WG: ret = neco_waitgroup_done(&w[k].wg); break;
    case W_RECV: case W_SELECT: ret = neco_chan_send(w[k].ch, &v); break;
    case W_SEND: ret = neco_chan_recv(w[k].ch, &v); break;
    }
    if (ret != NECO_OK) VIOL("waking a waiter (%s) returned %d", wname[w[k].kind], ret);
}
static void fy(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; int n = yturns[me]; ylive[me] = true;
    for (int i = 0; i < n; i++) {
        vh_log(me, TURN, 0, i, 0);
        if (vh_chance(1, 3)) vh_now += vh_range(0, 60) * US;
        if (vh_chance(1, 6)) wakeone(true);
        // a coroutine that only yields takes exactly one turn per round
        if (i + 1 < n) neco_yield();
    }
    ylive[me] = false; ydone++;
}
static void fwaker(int argc, void *argv[]) {
    (void)argc; (void)argv;
    while (ydone < ny) { wakeone(false); if (vh_chance(1, 4)) neco_sleep(vh_range(1, 200) * US); else neco_yield(); }
}
static void fjoinee(int argc, void *argv[]) { (void)argc; int k = (int)(intptr_t)argv[0]; neco_sleep(vh_range(1, 400) * US); w[k].ready = true; w[k].readyev = vh_log(k, READY, 0, W_JOIN, 0); }
static void fw(int argc, void *argv[]) {
    (void)argc; int k = (int)(intptr_t)argv[0]; w[k].id = neco_getid();
    int rounds = vh_range(1, 6); neco_setcanceltype(NECO_CANCEL_INLINE, 0); int kind = w[k].kind;
    for (int i = 0; i < rounds && !fstop; i++) {
        int ret = 0; w[k].ready = false; w[k].waiting = true; int v = 0; int64_t jid = 0;
        if (kind == W_JOIN) { neco_start(fjoinee, 1, (void*)(intptr_t)k); jid = neco_lastid(); }
        w[k].dl = kind == W_SLEEP ? vh_time() + vh_range(1, 900) * US : INT64_MAX;
        switch (kind) {
        case W_SLEEP: ret = neco_sleep_dl(w[k].dl); break;
        case W_READ: { char c; ret = neco_read(w[k].pfd[0], &c, 1) == 1 ? 0 : -1; break; }
        case W_WAIT: { char c; ret = neco_wait(w[k].pfd[0], NECO_WAIT_READ); if (read(w[k].pfd[0], &c, 1) != 1) VIOL("wait returned but nothing to read"); break; }
        case W_SUSP: ret = neco_suspend(); break;
        case W_CANCEL: ret = neco_suspend(); if (ret != NECO_CANCELED) VIOL("canceled suspend returned %d", ret); else ret = 0; break;
        case W_LOCK: ret = neco_mutex_lock(&w[k].mu); break;
        case W_COND: { neco_mutex m = NECO_MUTEX_INITIALIZER; neco_mutex_lock(&m); ret = neco_cond_wait(&w[k].cv, &m); neco_mutex_unlock(&m); break; }
        case W_WG: neco_waitgroup_add(&w[k].wg, 1); ret = neco_waitgroup_wait(&w[k].wg); break;
        case W_JOIN: ret = neco_join(jid); break;
        case W_RECV: ret = neco_chan_recv(w[k].ch, &v); break;
        case W_SEND: ret = neco_chan_send(w[k].ch, &v); break;
        case W_SELECT: ret = neco_chan_select(1, w[k].ch); if (ret == 0) ret = neco_chan_case(w[k].ch, &v); else VIOL("select returned %d", ret); break;
        }
        w[k].waiting = false;
        vh_log(k, WAKE, 0, kind, ret);
        if (ret != NECO_OK) VIOL("waiter (%s) got %d", wname[kind], ret);
        vh_count("wakeups", 1);
        if (vh_chance(1, 2)) neco_yield();
        // the waiter holds the mutex now; the next wait blocks on itself until unlocked
    }
    w[k].fin = true; w[k].waiting = false;
}
static void fmain(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < nw; k++) {
        if (vh_pipe(w[k].pfd)) vh_error("pipe");
        neco_chan_make(&w[k].ch, sizeof(int), 0); neco_mutex_init(&w[k].mu); neco_cond_init(&w[k].cv); neco_waitgroup_init(&w[k].wg);
        if (w[k].kind == W_LOCK) neco_mutex_lock(&w[k].mu);
        neco_start(fw, 1, (void*)(intptr_t)k);
    }
    neco_start(fwaker, 0);
    for (int i = 0; i < ny; i++) { neco_start(fy, 1, (void*)(intptr_t)i); if (vh_chance(1, 3)) neco_sleep(vh_range(1, 100) * US); }
    fstop = true;
    // release what is still blocked
    while (ydone < ny) neco_sleep(1 * MS);
    for (int k = 0; k < nw; k++) while (!w[k].fin) {
        int v = 3;
        if (w[k].waiting) switch (w[k].kind) {
        case W_READ: case W_WAIT: if (!w[k].ready) { if (write(w[k].pfd[1], "x", 1) != 1) vh_error("pipe"); w[k].ready = true; } break;
        case W_SUSP: neco_resume(w[k].id); break;
        case W_CANCEL: if (!w[k].ready) { w[k].ready = true; neco_cancel(w[k].id); } break;
        case W_LOCK: if (!w[k].ready) { w[k].ready = true; neco_mutex_unlock(&w[k].mu); } break;
        case W_COND: neco_cond_signal(&w[k].cv); break;
        case W_WG: if (!w[k].ready) { w[k].ready = true; neco_waitgroup_done(&w[k].wg); } break;
        case W_RECV: case W_SELECT: if (!w[k].ready) neco_chan_send_dl(w[k].ch, &v, neco_now() + MS); break;
        case W_SEND: if (!w[k].ready) neco_chan_recv_dl(w[k].ch, &v, neco_now() + MS); break;
        }
        neco_sleep(1 * MS);
    }
    for (int k = 0; k < nw; k++) { close(w[k].pfd[0]); close(w[k].pfd[1]); neco_chan_release(w[k].ch); }
}
static void one_fair(void) {
    memset(w, 0, sizeof w); fstop = false; ydone = 0; memset(ylive, 0, sizeof ylive);
    ny = vh_range(2, 8); nw = (int)vh_rn(NW);
    if (nw == 0) nw = 1;
    for (int i = 0; i < ny; i++) yturns[i] = vh_range(3, 40);
    for (int k = 0; k < nw; k++) w[k].kind = (int)vh_rn(W_NKIND);
    int ret = vh_start(VH_NZ_SIG, fmain, 0);
    if (ret) vh_fatal("neco_start %d", ret);
    // offline
    int first[MAXCO], last[MAXCO]; for (int i = 0; i < MAXCO; i++) first[i] = last[i] = -1;
    for (int e = 0; e < vh_nev; e++) if (vh_evs[e].op == TURN && vh_evs[e].obj == 0) { int c = vh_evs[e].co; if (first[c] < 0) first[c] = e; last[c] = e; }
    {
        int prev[MAXCO], cnt[MAXCO][MAXCO]; memset(cnt, 0, sizeof cnt); for (int i = 0; i < MAXCO; i++) prev[i] = -1;
        long pairs = 0;
        for (int e = 0; e < vh_nev; e++) {
            if (vh_evs[e].op != TURN || vh_evs[e].obj) continue;
            int a = vh_evs[e].co;
            for (int b = 0; b < ny; b++) if (b != a && prev[a] >= 0 && first[b] < prev[a] && last[b] > e) {
                pairs++;
                if (cnt[a][b] != 1) VIOL("yielder %d took %d turns between two consecutive turns of yielder %d", b, cnt[a][b], a);
            }
            for (int b = 0; b < ny; b++) { cnt[a][b] = 0; if (b != a) cnt[b][a]++; }
            prev[a] = e;
        }
        vh_count("fair_pairs", pairs);
        if (pairs < 4) vh_trivial();
    }
    // a waiter that became ready (or whose deadline passed) runs within three rounds
    for (int e = 0; e < vh_nev; e++) if (vh_evs[e].op == WAKE) {
        int k = vh_evs[e].co, from = -1;
        for (int q = e - 1; q >= 0; q--) {
            if (vh_evs[q].op == WAKE && vh_evs[q].co == k) break;
            if (vh_evs[q].op == READY && vh_evs[q].co == k) { from = q; break; }
        }
        if (from < 0) continue;
        int t[MAXCO] = {0};
        for (int q = from; q < e; q++) if (vh_evs[q].op == TURN && vh_evs[q].obj == 0) t[vh_evs[q].co]++;
        for (int i = 0; i < ny; i++) if (t[i] > 3) VIOL("waiter (%s) that became ready at event %d ran after %d turns of a yielder", wname[w[k].kind], from, t[i]);
        vh_count("prompt_checked", 1);
    }
}
// many sleepers and timed operations among yielders: each returns within three
// rounds of its deadline, however many deadlines pass at once; and so does each
// of the many waiters that one call (a broadcast, close, count of zero, unlock
// of a write lock) makes ready at once
#define NSL 200
static int64_t sl_dl[NSL]; static int nsl, nsy; static bool sstop; static int64_t scluster; static int sdone, skind, sready; static int64_t sreadyt;
static neco_chan *sch, *sch2; static neco_mutex smu, scmu; static neco_cond scv; static neco_waitgroup swg; static int spfd[2];
static void sy(int argc, void *argv[]) { (void)argc; int me = (int)(intptr_t)argv[0]; while (!sstop) { vh_log(me, TURN, 0, 0, 0); vh_now += vh_range(0, 30) * US; neco_yield(); } }
static void slate(int e, int64_t from, const char *what, int kind) {
    int t[4] = {0};
    for (int q = e - 1; q >= 0 && vh_evs[q].t > from; q--) if (vh_evs[q].op == TURN) t[vh_evs[q].co]++;
    for (int k = 0; k < 4; k++) if (t[k] > 3) VIOL("%s (kind %d) returned after %d turns of a yielder past its time", what, kind, t[k]);
}
static void ssl(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int n = nsl > 30 ? 2 : 4;
    for (int i = 0; i < n; i++) {
        int v, k = (int)vh_rn(9);
        sl_dl[me] = vh_time() + vh_range(1, 700) * US;
        if (scluster) { int64_t c = (vh_time() / scluster + 1) * scluster; sl_dl[me] = vh_chance(1, 2) ? c : c + vh_range(0, 2000); }
        int64_t dl = sl_dl[me]; int ret, want = NECO_TIMEDOUT; char c;
        switch (k) {
        case 0: ret = neco_chan_recv_dl(sch, &v, dl); break;
        case 1: ret = neco_mutex_lock_dl(&smu, dl); break;
        case 2: ret = neco_waitgroup_wait_dl(&swg, dl); break;
        case 3: ret = neco_mutex_lock(&scmu); if (ret) VIOL("lock"); ret = neco_cond_wait_dl(&scv, &scmu, dl); neco_mutex_unlock(&scmu); break;
        case 4: ret = neco_suspend_dl(dl); break;
        case 5: ret = neco_chan_select_dl(dl, 2, sch, sch2); break;
        case 6: ret = (int)neco_read_dl(spfd[0], &c, 1, dl); if (ret != -1) VIOL("read %d", ret); ret = neco_lasterr(); break;
        default: ret = neco_sleep_dl(dl); want = NECO_OK; break;
        }
        int e = vh_log(me % MAXCO, WAKE, 1, k, ret);
        if (ret != want) VIOL("timed operation of kind %d returned %d", k, ret);
        if (k != 3) slate(e, dl, "a timed operation", k); // the wait for a condition has to lock again
        vh_count("sleeps_checked", 1);
    }
    if (++sdone == nsl) sstop = true;
}
// mass wake-up
static void sms(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; int v = 0, ret = 0;
    switch (skind) {
    case 0: ret = neco_chan_recv(sch, &v); break; // broadcast
    case 1: ret = neco_chan_recv(sch, &v); if (ret == NECO_CLOSED) ret = 0; break; // close
    case 2: ret = neco_waitgroup_wait(&swg); break;
    case 3: ret = neco_mutex_rdlock(&smu); break;
    case 4: neco_mutex_lock(&scmu); ret = neco_cond_wait(&scv, &scmu); break;
    case 5: ret = neco_chan_select(2, sch2, sch); if (ret == 1) { ret = neco_chan_case(sch, &v); if (ret == NECO_CLOSED) ret = 0; } break;
    case 6: ret = neco_join(sreadyt); break;
    }
    if (!sready) VIOL("a waiter (kind %d) woke with no reason", skind);
    int e = vh_log(me % MAXCO, WAKE, 2, skind, ret);
    if (ret) VIOL("waiter (kind %d) got %d", skind, ret);
    if (skind != 4) slate(e, vh_evs[sready].t, "a waiter woken with many others", skind); else neco_mutex_unlock(&scmu);
    if (skind == 3) neco_mutex_unlock(&smu);
    vh_count("mass_wakeups", 1);
    if (++sdone == nsl) sstop = true;
}
static void sjoinee(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); sready = vh_log(0, READY, 0, 0, 0); }
static void smain(int argc, void *argv[]) {
    (void)argc; (void)argv; bool mass = argv[0] != 0; int v = 5;
    neco_chan_make(&sch, sizeof(int), 0); neco_chan_make(&sch2, sizeof(int), 0); neco_waitgroup_init(&swg); neco_waitgroup_add(&swg, 1); neco_mutex_init(&smu); neco_mutex_init(&scmu); neco_cond_init(&scv); neco_mutex_lock(&smu);
    if (vh_pipe(spfd)) vh_error("pipe");
    neco_setnonblock(spfd[0], true, 0);
    for (int i = 0; i < nsy; i++) neco_start(sy, 1, (void*)(intptr_t)i);
    if (mass && skind == 6) { neco_start(sjoinee, 0); sreadyt = neco_lastid(); }
    for (int i = 0; i < nsl; i++) neco_start(mass ? sms : ssl, 1, (void*)(intptr_t)i);
    if (mass) {
        int ret = 0; for (int i = vh_range(0, 4); i > 0; i--) neco_yield();
        if (skind != 6) sready = vh_log(0, READY, 0, skind, 0);
        switch (skind) {
        case 0: ret = neco_chan_broadcast(sch, &v); if (ret != nsl) VIOL("broadcast reached %d of %d", ret, nsl); ret = 0; break;
        case 1: case 5: ret = neco_chan_close(sch); break;
        case 2: ret = neco_waitgroup_done(&swg); break;
        case 3: ret = neco_mutex_unlock(&smu); break;
        case 4: ret = neco_cond_broadcast(&scv); break;
        case 6: ret = neco_resume(sreadyt); break;
        }
        if (ret) VIOL("the call that wakes many (kind %d) returned %d", skind, ret);
    }
    while (!sstop) neco_sleep(100 * US);
    neco_chan_release(sch); neco_chan_release(sch2); close(spfd[0]); close(spfd[1]);
}
static void one_fair2(void) {
    bool mass = vh_chance(1, 3); nsl = vh_chance(1, 3) ? vh_range(9, NSL) : vh_range(1, 12); nsy = vh_range(1, 4); sdone = 0; sstop = false; sready = 0; skind = (int)vh_rn(7); scluster = vh_chance(2, 3) ? vh_range(50, 600) * US : 0;
    if (vh_start(VH_NZ_SIG, smain, (void*)(intptr_t)mass)) vh_fatal("start");
    if (sdone != nsl) VIOL("%d of %d waiters ended", sdone, nsl);
}

// ------------------------------------------------------------------ stats
enum { P_SLEEP, P_EV, P_EVW, P_READ, P_SIG, P_SEND, P_RECV, P_SELECT, P_LOCK, P_RDLOCK, P_WG, P_COND, P_SUSP, P_JOIN, P_GEN, P_N };
static const char *const pname[] = {"sleep","wait","waitw","read","signal","send","recv","select","lock","rdlock","waitgroup","cond","suspend","join","gen"};
static struct park { int kind; bool used, parked; int64_t id, dl; int pfd[2]; neco_chan *ch, *ch2; neco_mutex mu; neco_mutex mu2; neco_cond cv; neco_waitgroup wg; int ret; bool canceled; bool sync; } pk[MAXCO];
static int npk; static int64_t mainid;
static void pco(int argc, void *argv[]) {
    (void)argc; struct park *p = argv[0]; p->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0); p->parked = true;
    vh_log((int)(p - pk), PARK, 0, p->kind, 0);
    int ret = 0; char c; int v = 1; int64_t dl = p->dl;
    switch (p->kind) {
    case P_SLEEP: ret = neco_sleep_dl(dl); break;
    case P_EV: ret = neco_wait_dl(p->pfd[0], NECO_WAIT_READ, dl); break;
    case P_EVW: ret = neco_wait_dl(p->pfd[1], NECO_WAIT_WRITE, dl); break;
    case P_READ: { ssize_t n = neco_read_dl(p->pfd[0], &c, 1, dl); ret = n == 1 ? 0 : neco_lasterr(); break; }
    case P_SIG: neco_signal_watch(SIGUSR1); ret = neco_signal_wait_dl(dl); if (ret == SIGUSR1) ret = 0; neco_signal_unwatch(SIGUSR1); break;
    case P_SEND: ret = neco_chan_send_dl(p->ch, &v, dl); break;
    case P_RECV: ret = neco_chan_recv_dl(p->ch, &v, dl); break;
    case P_SELECT: ret = neco_chan_select_dl(dl, 2, p->ch, p->ch2); if (ret >= 0) { ret = 0; neco_chan_case(p->ch, &v); } break;
    case P_LOCK: ret = neco_mutex_lock_dl(&p->mu, dl); if (ret == 0) neco_mutex_unlock(&p->mu); break;
    case P_RDLOCK: ret = neco_mutex_rdlock_dl(&p->mu, dl); if (ret == 0) neco_mutex_unlock(&p->mu); break;
    case P_WG: ret = neco_waitgroup_wait_dl(&p->wg, dl); break;
    case P_COND: neco_mutex_lock(&p->mu2); ret = neco_cond_wait_dl(&p->cv, &p->mu2, dl); neco_mutex_unlock(&p->mu2); break;
    case P_SUSP: ret = neco_suspend_dl(dl); break;
    case P_JOIN: ret = neco_join_dl(mainid, dl); break;
    case P_GEN: ret = neco_chan_recv_dl(p->ch, &v, dl); break;
    }
    p->ret = ret; p->parked = false; vh_log((int)(p - pk), UNPARK, 0, p->kind, ret);
    p->used = false;
}
static void checkstats(const char *when) {
    neco_stats s; memset(&s, 0xEE, sizeof s);
    int ret = neco_getstats(&s);
    if (ret) { VIOL("getstats %d", ret); return; }
    neco_stats x = {0}; x.coroutines = 1;
    for (int i = 0; i < npk; i++) if (pk[i].used) {
        x.coroutines++;
        if (!pk[i].parked) continue;
        switch (pk[i].kind) {
        case P_SLEEP: x.sleepers++; break;
        case P_EV: case P_EVW: case P_READ: x.evwaiters++; break;
        case P_SIG: x.sigwaiters++; break;
        case P_SEND: x.senders++; break;
        case P_RECV: case P_SELECT: case P_GEN: x.receivers++; break;
        case P_LOCK: case P_RDLOCK: x.locked++; break;
        case P_WG: x.waitgroupers++; break;
        case P_COND: x.condwaiters++; break;
        case P_SUSP: x.suspended++; break;
        }
    }
    vh_log(0, STAT, 0, (int64_t)s.coroutines, 0); vh_count("stat_checks", 1);
#define S(f) if (s.f != x.f) VIOL("%s: stats." #f " is %zu, expected %zu", when, s.f, x.f)
    S(coroutines); S(sleepers); S(evwaiters); S(sigwaiters); S(senders); S(receivers); S(locked); S(waitgroupers); S(condwaiters); S(suspended);
#undef S
}
static void unpark(struct park *p) {
    int v = 5; int ret = 0;
    switch (p->kind) {
    case P_EV: case P_READ: if (write(p->pfd[1], "x", 1) != 1) vh_error("pipe"); break;
    case P_EVW: { char buf[4096]; while (read(p->pfd[0], buf, sizeof buf) > 0) { } break; }
    case P_SIG: raise(SIGUSR1); break;
    case P_SEND: ret = neco_chan_recv(p->ch, &v); break;
    case P_RECV: case P_GEN: case P_SELECT: ret = neco_chan_send(p->ch, &v); break;
    case P_LOCK: case P_RDLOCK: ret = neco_mutex_unlock(&p->mu); p->sync = false; break;
    case P_WG: ret = neco_waitgroup_done(&p->wg); p->sync = false; break;
    case P_COND: ret = neco_cond_signal(&p->cv); break;
    case P_SUSP: ret = neco_resume(p->id); break;
    default: ret = neco_cancel(p->id); p->canceled = true; break;
    }
    if (ret) VIOL("waking a %s returned %d", pname[p->kind], ret);
}
// Calls that end at once, one way or another, must leave the counts alone.
static void transient(void) {
    int64_t past = vh_time() - 5; int r = 0, v; neco_chan *c = 0; neco_mutex m = NECO_MUTEX_INITIALIZER; neco_cond cv = NECO_COND_INITIALIZER; neco_waitgroup wg = NECO_WAITGROUP_INITIALIZER; int k = (int)vh_rn(18), want = NECO_TIMEDOUT, w2 = 12345; int fd[2];
    neco_chan_make(&c, sizeof(int), (size_t)vh_rn(2)); v = 1;
    switch (k) {
    case 0: r = neco_wait(vh_chance(1, 2) ? 900 : -1, vh_chance(1, 2) ? NECO_WAIT_READ : NECO_WAIT_WRITE); want = NECO_ERROR; break;
    case 1: if (vh_pipe(fd)) vh_error("pipe"); r = neco_wait_dl(fd[0], NECO_WAIT_READ, past); close(fd[0]); close(fd[1]); break;
    case 2: r = neco_chan_recv_dl(c, &v, past); break;
    case 3: while ((r = neco_chan_send_dl(c, &v, past)) == NECO_OK) { } break;
    case 4: r = neco_chan_select_dl(past, 1, c); break;
    case 5: neco_chan_close(c); r = neco_chan_recv(c, &v); want = NECO_CLOSED; break;
    case 6: neco_chan_close(c); r = neco_chan_send(c, &v); want = NECO_CLOSED; break;
    case 7: neco_mutex_lock(&m); r = neco_mutex_lock_dl(&m, past); neco_mutex_unlock(&m); break;
    case 8: neco_mutex_lock(&m); r = neco_mutex_rdlock_dl(&m, past); neco_mutex_unlock(&m); break;
    case 9: neco_mutex_lock(&m); r = neco_mutex_trylock(&m); neco_mutex_unlock(&m); want = NECO_BUSY; break;
    case 10: neco_waitgroup_add(&wg, 1); r = neco_waitgroup_wait_dl(&wg, past); neco_waitgroup_done(&wg); break;
    case 11: r = neco_waitgroup_wait(&wg); want = NECO_OK; break;
    case 12: neco_mutex_lock(&m); r = neco_cond_wait_dl(&cv, &m, past); neco_mutex_unlock(&m); break;
    case 13: r = neco_suspend_dl(past); break;
    case 14: r = neco_sleep_dl(past); w2 = NECO_OK; break;
    case 15: r = neco_signal_wait_dl(past); want = NECO_NOSIGWATCH; break;
    case 16: r = neco_join_dl(-5, past); w2 = NECO_OK; break;
    case 17: neco_chan_close(c); r = neco_chan_select(1, c); want = 0; break;
    }
    if (r != want && r != w2) VIOL("call %d that ends at once returned %d", k, r);
    neco_chan_release(c); vh_log(0, CALL, k, 0, r); vh_count("immediate_calls", 1);
}
static void pmain(int argc, void *argv[]) {
    (void)argc; (void)argv; mainid = neco_getid();
    int steps = vh_range(10, 60);
    for (int s = 0; s < steps; s++) {
        int op = (int)vh_rn(10);
        if (op < 5 && npk < MAXCO) {
            struct park *p = &pk[npk++]; memset(p, 0, sizeof *p); p->kind = (int)vh_rn(P_N); p->used = true;
            for (int i = 0; i < npk - 1; i++) if (pk[i].kind == P_SIG && pk[i].used && p->kind == P_SIG) { p->kind = P_SUSP; break; }
            p->dl = vh_chance(1, 3) || p->kind == P_SLEEP ? vh_time() + vh_range(1, 60) * MS : INT64_MAX;
            neco_chan_make(&p->ch, sizeof(int), 0); neco_chan_make(&p->ch2, sizeof(int), 0); neco_mutex_init(&p->mu); neco_mutex_init(&p->mu2); neco_cond_init(&p->cv); neco_waitgroup_init(&p->wg);
            if (p->kind == P_LOCK || p->kind == P_RDLOCK) { neco_mutex_lock(&p->mu); p->sync = true; }
            if (p->kind == P_WG) { neco_waitgroup_add(&p->wg, 1); p->sync = true; }
            p->pfd[0] = p->pfd[1] = -1;
            if (p->kind == P_EV || p->kind == P_EVW || p->kind == P_READ) {
                if (vh_pipe(p->pfd)) vh_error("pipe");
                if (p->kind == P_EVW) { static char b[65536]; while (write(p->pfd[1], b, sizeof b) > 0) { } }
            }
            if (neco_start(pco, 1, p)) VIOL("start");
        } else if (op < 7) {
            int i = npk ? (int)vh_rn((uint32_t)npk) : 0;
            if (npk && pk[i].parked) { if (vh_chance(1, 2)) unpark(&pk[i]); else { pk[i].canceled = true; if (neco_cancel(pk[i].id)) VIOL("cancel"); } neco_yield(); neco_yield(); neco_yield(); }
        } else if (op == 7) neco_sleep(vh_range(1, 40) * MS);
        else if (op == 8) transient();
        if (vh_chance(1, 4)) neco_sleep(vh_range(1, 1000) * US); else { neco_yield(); neco_yield(); neco_yield(); }
        // deadlines that are just passing are not settled
        bool amb = false; int64_t now = vh_time();
        for (int i = 0; i < npk; i++) if (pk[i].used && pk[i].parked && pk[i].dl < now + 1000) amb = true;
        if (amb) { neco_sleep(1 * US * 20); continue; }
        checkstats("mid");
    }
    for (int i = 0; i < npk; i++) if (pk[i].used) { neco_cancel(pk[i].id); neco_yield(); neco_yield(); neco_yield(); }
    checkstats("end");
    for (int i = 0; i < npk; i++) {
        if (pk[i].used) VIOL("%s did not end after its cancelation", pname[pk[i].kind]);
        if (pk[i].ret != NECO_OK && pk[i].ret != NECO_CANCELED && pk[i].ret != NECO_TIMEDOUT) VIOL("%s returned %d", pname[pk[i].kind], pk[i].ret);
        if (pk[i].ret == NECO_TIMEDOUT && pk[i].dl == INT64_MAX) VIOL("%s timed out without a deadline", pname[pk[i].kind]);
        neco_chan_release(pk[i].ch); neco_chan_release(pk[i].ch2);
        if (pk[i].pfd[0] >= 0) { close(pk[i].pfd[0]); close(pk[i].pfd[1]); }
    }
}
static void one_stats(void) { npk = 0; memset(pk, 0, sizeof pk); if (neco_start(pmain, 0)) vh_fatal("start"); if (npk < 3) vh_trivial(); }

// ------------------------------------------------------------------ ctx
#if defined(__x86_64__)
long vh_ctx_call(void (*fn)(void), uint64_t pat);
__asm__(
".text\n.globl vh_ctx_call\n.type vh_ctx_call,@function\nvh_ctx_call:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n  subq $24,%rsp\n"
"  movq %rsi,8(%rsp)\n"
"  leaq 1(%rsi),%rbx\n  leaq 2(%rsi),%rbp\n  leaq 3(%rsi),%r12\n  leaq 4(%rsi),%r13\n  leaq 5(%rsi),%r14\n  leaq 6(%rsi),%r15\n"
"  call *%rdi\n"
"  movq 8(%rsp),%rsi\n  xorl %eax,%eax\n"
"  leaq 1(%rsi),%rcx\n  cmpq %rcx,%rbx\n  je 1f\n  orl $1,%eax\n1:\n"
"  leaq 2(%rsi),%rcx\n  cmpq %rcx,%rbp\n  je 1f\n  orl $2,%eax\n1:\n"
"  leaq 3(%rsi),%rcx\n  cmpq %rcx,%r12\n  je 1f\n  orl $4,%eax\n1:\n"
"  leaq 4(%rsi),%rcx\n  cmpq %rcx,%r13\n  je 1f\n  orl $8,%eax\n1:\n"
"  leaq 5(%rsi),%rcx\n  cmpq %rcx,%r14\n  je 1f\n  orl $16,%eax\n1:\n"
"  leaq 6(%rsi),%rcx\n  cmpq %rcx,%r15\n  je 1f\n  orl $32,%eax\n1:\n"
"  addq $24,%rsp\n  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size vh_ctx_call,.-vh_ctx_call\n");
#else
static long vh_ctx_call(void (*fn)(void), uint64_t pat) { (void)pat; fn(); return 0; }
#endif
static int cnlive, cstarted, cmax; static long cbudget; static neco_chan *cch; static neco_mutex cmu;
static void sw_yield(void) { neco_yield(); }
static void sw_sleep(void) { neco_sleep(vh_range(1, 300) * US); }
static void sw_lock(void) { neco_mutex_lock(&cmu); neco_yield(); neco_mutex_unlock(&cmu); }
static void sw_send(void) { int v = 1; neco_chan_send_dl(cch, &v, neco_now() + 100 * US); }
static void sw_recv(void) { int v = 1; neco_chan_recv_dl(cch, &v, neco_now() + 100 * US); }
static void (*const sws[])(void) = { sw_yield, sw_yield, sw_sleep, sw_lock, sw_send, sw_recv };
static void cco(int argc, void *argv[]);
static void sw_start(void) { if (cstarted < cmax) { cstarted++; neco_start(cco, 3, (void*)(intptr_t)(cstarted - 1), (void*)(uintptr_t)0x1111222233334444, (void*)(uintptr_t)0xDEADBEEFCAFEF00D); } else neco_yield(); }
static void doswitch(int me) {
    uint64_t pat = vh_rand() | 0xFFFF000000000000ULL;
    void (*f)(void) = vh_chance(1, 5) ? sw_start : sws[vh_rn(6)];
    int64_t id = neco_getid();
    long bad = vh_ctx_call(f, pat);
    if (bad) VIOL("co %d: callee-saved registers changed across a switch (mask %ld)", me, bad);
    if (neco_getid() != id) VIOL("co %d: identity changed", me);
    vh_log(me, SWITCH, 0, bad, 0); vh_count("switches", 1);
}
static __attribute__((noinline)) uint64_t rec(int me, int depth, size_t sz, uint64_t key) {
    volatile unsigned char buf[sz];
    unsigned char k = (unsigned char)(key >> 13);
    if (sz <= 65536) for (size_t i = 0; i < sz; i++) buf[i] = (unsigned char)(k + i * 31);
    else for (size_t i = 0; i < sz; i += 61) buf[i] = (unsigned char)(k + i * 31);
    if (vh_chance(1, 2)) doswitch(me);
    uint64_t r = key;
    if (depth > 0) r ^= rec(me, depth - 1, sz, key * 6364136223846793005ULL + 99);
    if (vh_chance(1, 2)) doswitch(me);
    if (sz <= 65536) { for (size_t i = 0; i < sz; i++) if (buf[i] != (unsigned char)(k + i * 31)) { VIOL("co %d: stack byte changed at depth %d offset %zu of %zu", me, depth, i, sz); break; } }
    else for (size_t i = 0; i < sz; i += 61) if (buf[i] != (unsigned char)(k + i * 31)) { VIOL("co %d: stack byte changed at depth %d offset %zu of %zu", me, depth, i, sz); break; }
    return r;
}
static __attribute__((noinline)) double fp(int me, double x) { double a = x * 1.5, b = x + 3, c = a * b; doswitch(me); return a + b + c; }
// A coroutine starts with nothing of the one whose memory it got.
static void fresh(int me) {
    int v = -1; neco_stats st;
    if (neco_lastid() != 0) VIOL("co %d: has a last started coroutine at its start", me);
    if (neco_setcancelstate(NECO_CANCEL_ENABLE, &v) || v != NECO_CANCEL_ENABLE) VIOL("co %d: starts with cancelation disabled", me);
    if (neco_setcanceltype(NECO_CANCEL_INLINE, &v) || v != NECO_CANCEL_ASYNC) VIOL("co %d: starts with cancelation type %d", me, v);
    int r = neco_sleep_dl(vh_time() - 1); if (r != NECO_TIMEDOUT && r != NECO_OK) VIOL("co %d: its first operation returned %d", me, r);
#ifndef NECO_NOSIGNALS
    if (neco_signal_wait_dl(vh_time() - 1) != NECO_NOSIGWATCH) VIOL("co %d: starts with a watched signal", me);
#endif
    int64_t t = neco_now(); if (t < vh_time() - 10 * MS) VIOL("co %d: time", me);
    (void)st; vh_count("fresh_starts", 1);
}
static int cdirty; static void cdirt(void *a) { (void)a; cdirty++; }
static void cnothing(int argc, void *argv[]) { (void)argc; (void)argv; }
static void cco(int argc, void *argv[]) {
    int me = (int)(intptr_t)argv[0]; fresh(me);
    if (argc != 3 || argv[1] != (void*)(uintptr_t)0x1111222233334444 || argv[2] != (void*)(uintptr_t)0xDEADBEEFCAFEF00D) VIOL("co %d: wrong arguments", me);
#if defined(__x86_64__)
    if ((uintptr_t)__builtin_frame_address(0) % 16) VIOL("co %d: stack is not aligned", me);
#endif
    cnlive++;
    int reps = vh_range(1, 4);
    for (int i = 0; i < reps; i++) {
        uint64_t key = vh_rand(); int depth = vh_range(0, 12); size_t sz = (size_t)vh_range(16, vh_chance(1, 6) ? 9000 : 700);
        // occasionally most of the advertised stack is used
        if (cbudget > 0 && vh_chance(1, 10)) { depth = 3; sz = (size_t)vh_range(200000, 1500000); cbudget -= (long)sz * 4; }
        uint64_t want = key, kk = key; for (int d = 0; d < depth; d++) { kk = kk * 6364136223846793005ULL + 99; want ^= kk; }
        uint64_t got = rec(me, depth, sz, key);
        if (got != want) VIOL("co %d: computation across switches gave a wrong result", me);
        double x = (double)vh_rn(1000) / 7, f = fp(me, x), wantf = x * 1.5 + (x + 3) + (x * 1.5) * (x + 3);
        if (f != wantf) VIOL("co %d: floating point value changed across a switch", me);
    }
    cnlive--;
    // leave as much behind as possible
    if (vh_chance(1, 3)) neco_start(cnothing, 0);
    if (vh_chance(1, 4)) neco_cancel(neco_getid());
    if (vh_chance(1, 3)) neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
#ifndef NECO_NOSIGNALS
    if (vh_chance(1, 4)) neco_signal_watch(SIGUSR2);
#endif
    if (vh_chance(1, 4)) { int v; neco_chan *c; if (neco_chan_make(&c, sizeof v, 1) == NECO_OK) { v = 1; neco_chan_send(c, &v); neco_chan_select_dl(vh_time() + 5 * US, 1, c); neco_chan_release(c); } }
    if (vh_chance(1, 3)) neco_setcanceltype(NECO_CANCEL_INLINE, 0); else neco_setcanceltype(NECO_CANCEL_ASYNC, 0);
    if (vh_chance(1, 4)) { neco_cleanup_push(cdirt, 0); neco_exit(); neco_cleanup_pop(0); }
}
static void cmain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_chan_make(&cch, sizeof(int), 0); neco_mutex_init(&cmu);
    int n = vh_range(1, 6);
    for (int i = 0; i < n; i++) sw_start();
    for (int i = 0; i < 10; i++) doswitch(MAXCO - 1);
    while (cnlive > 0) neco_sleep(500 * US);
    // churn, also past the time the pool keeps finished coroutines
    if (vh_chance(1, 4)) neco_sleep(300 * MS);
    cmax += 4; sw_start(); sw_start();
    while (cnlive > 0) neco_sleep(500 * US);
    neco_chan_release(cch);
}
static void one_ctx(void) { cnlive = 0; cstarted = 0; cmax = vh_range(3, MAXCO); cbudget = vh_chance(1, 20) ? 12000000 : 0; if (vh_start(VH_NZ_EV|VH_NZ_SIG, cmain, 0)) vh_fatal("start"); vh_count("ctx_coroutines", cstarted); }

// ------------------------------------------------------------------ rand
static unsigned char ra[70000], rb[70000]; static long rturns; static bool rstop;
static void ryield(int argc, void *argv[]) { (void)argc; (void)argv; while (!rstop) { rturns++; neco_yield(); } }
static int64_t rvictim; static int rres; static bool rrunning; static size_t rlen; static int64_t rdl; static int rattr;
static void rco(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0); rvictim = neco_getid(); rrunning = true;
    memset(ra, 0x77, rlen + 16); rres = neco_rand_dl(ra, rlen, rattr, rdl); rrunning = false;
    for (size_t i = rlen; i < rlen + 16; i++) if (ra[i] != 0x77) { VIOL("rand wrote past its buffer"); break; }
}
static size_t rsz(void) { return vh_chance(1, 3) ? (size_t)vh_rn(20) : vh_chance(1, 2) ? (size_t)vh_rn(1500) : (size_t)vh_rn(60000); }
static void rmain(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int it = 0; it < 6; it++) {
        size_t n = rsz(); int64_t seed = (int64_t)vh_rand() >> vh_rn(63), old = 0, old2 = 0; int reps = vh_range(1, 3);
        // the same seed and the same requests give the same bytes, all of them written
        if (neco_rand_setseed(seed, 0)) VIOL("setseed");
        memset(ra, 0x00, n + 8);
        for (int k = 0; k < reps; k++) { if (neco_rand(ra, n, NECO_PRNG)) VIOL("rand"); }
        if (neco_rand_setseed(seed, &old)) VIOL("setseed");
        memset(rb, 0xFF, n + 8);
        for (int k = 0; k < reps; k++) { if (neco_rand(rb, n, NECO_PRNG)) VIOL("rand"); }
        if (memcmp(ra, rb, n)) VIOL("the same seed gave different bytes for %zu bytes (or bytes were not written)", n);
        for (int i = 0; i < 8; i++) if (ra[n+i] != 0 || rb[n+i] != 0xFF) { VIOL("rand wrote past its buffer"); break; }
        neco_rand_setseed(seed + 1, &old2);
        if (old2 != old) VIOL("old seed differs after the same requests");
        neco_rand_setseed(seed, &old2); if (old2 != seed + 1) VIOL("old seed is not the one that was set");
        // the same sequence in pieces of whole words
        neco_rand_setseed(seed, 0); neco_rand(ra, n, NECO_PRNG); neco_rand_setseed(seed, 0);
        for (size_t o = 0; o < n;) { size_t k = 4 * (size_t)(vh_chance(1, 2) ? vh_range(1, 3) : vh_range(1, 400)); if (k > n - o) k = n - o; neco_rand(rb + o, k, NECO_PRNG); o += k; }
        if (memcmp(ra, rb, n)) VIOL("%zu bytes differ from the same bytes taken in pieces", n);
        vh_count("prng_splits", 1);
        // continuing from the old seed continues the sequence
        if (n >= 64) {
            int d = 0; bool seen[256] = {0}; for (size_t i = 0; i < n; i++) if (!seen[ra[i]]) { seen[ra[i]] = true; d++; }
            if (d < 16) VIOL("only %d distinct byte values in %zu random bytes", d, n);
            neco_rand_setseed(seed ^ 0x5555, 0); neco_rand(rb, n, NECO_PRNG); 
            if (!memcmp(ra, rb, n)) VIOL("two seeds gave the same bytes");
            neco_rand(ra, n, NECO_PRNG);
            if (!memcmp(ra, rb, n)) VIOL("consecutive requests gave the same bytes");
        }
        vh_log(0, RND, 0, (int64_t)n, 0); vh_count("prng_bytes", (long)n * reps * 2);
    }
    if (!vh_optb("nocsprng")) {
        size_t n = rsz() % 4000; unsigned char acc[4000]; memset(acc, 0, sizeof acc);
        int64_t s0 = 42; neco_rand_setseed(s0, 0);
        for (int k = 0; k < 10; k++) { memset(ra, 0, n + 8); if (neco_rand(ra, n, NECO_CSPRNG)) VIOL("csprng"); for (size_t i = 0; i < n; i++) acc[i] |= ra[i]; for (int i = 0; i < 8; i++) if (ra[n+i]) { VIOL("rand wrote past its buffer"); break; } }
        for (size_t i = 0; i < n; i++) if (!acc[i]) { VIOL("csprng never wrote byte %zu of %zu", i, n); break; }
        if (n >= 32) {
            neco_rand_setseed(7, 0); neco_rand(ra, n, NECO_CSPRNG); neco_rand_setseed(7, 0); neco_rand(rb, n, NECO_CSPRNG);
            if (!memcmp(ra, rb, n)) VIOL("csprng repeats itself");
        }
        int64_t s1; neco_rand_setseed(0, &s1); if (s1 != 7 && n >= 32) VIOL("csprng changed the prng seed");
        vh_count("csprng_bytes", (long)n * 10);
    }
    // others keep running during a large request; deadline and cancelation end it
    rstop = false; rturns = 0; neco_start(ryield, 0); 
    size_t n = (size_t)vh_range(8192, 60000); long t0 = rturns; memset(ra, 0, 10);
    if (neco_rand(ra, n, NECO_PRNG)) VIOL("rand");
    if (rturns - t0 < (long)(n / 4096)) VIOL("others took %ld turns during a request of %zu random bytes", rturns - t0, n);
    rlen = n; rattr = vh_optb("nocsprng") ? NECO_PRNG : (int)vh_rn(2); rdl = INT64_MAX; neco_start(rco, 0);
    neco_yield(); neco_yield();
    if (!rrunning) VIOL("rand of %zu bytes ended within three turns", n);
    if (vh_chance(1, 2)) { neco_cancel(rvictim); for (int i = 0; i < 4; i++) neco_yield(); if (rrunning || rres != NECO_CANCELED) VIOL("canceled rand: running=%d res=%d", rrunning, rres); }
    else {
        while (rrunning) neco_yield();
        rdl = vh_time() + 1 * MS; neco_start(rco, 0); neco_yield(); vh_now += 2 * MS;
        for (int i = 0; i < 4; i++) neco_yield();
        if (rrunning || rres != NECO_TIMEDOUT) VIOL("rand past its deadline: running=%d res=%d", rrunning, rres);
    }
    if (neco_rand_dl(ra, 10, NECO_PRNG, vh_time() - 5) != NECO_TIMEDOUT) VIOL("rand with a deadline in the past");
    if (neco_rand(ra, 10, 2) != NECO_INVAL || neco_rand(ra, 10, -1) != NECO_INVAL) VIOL("rand with an invalid attribute");
    rstop = true;
}
static void one_rand(void) { if (vh_start(VH_NZ_EV|VH_NZ_SIG, rmain, 0)) vh_fatal("start"); }

// ------------------------------------------------------------------ api
static bool inco; static int ncalls;
void neco_errconv_to_sys(int err); int neco_errconv_from_sys(void);
// want: the expected result
static void T_(const char *what, long r, long want, int line) {
    int le = neco_lasterr(); ncalls++;
    vh_log(inco, CALL, line % 30000, want, r);
    // two things are wrong with an invalid call outside of a coroutine
    if (!inco && want == NECO_INVAL && r == NECO_PERM) want = NECO_PERM;
    if (r != want) { vh_viol("api", line, "%s (%s a coroutine) returned %ld, expected %ld", what, inco ? "inside" : "outside of", r, want); return; }
    int wl = r < 0 ? (int)r : 0;
    if (le != wl) vh_viol("api", line, "after %s (%s a coroutine) = %ld: lasterr is %d, expected %d", what, inco ? "inside" : "outside of", r, le, wl);
}
// the last error before the call is never the expected one
static void poison(long want) { if (want != NECO_INVAL || (!inco && vh_chance(1, 2))) (void)neco_chan_make(0, 1, 1); else if (inco) (void)neco_resume(987654321); else (void)neco_yield(); }
#define T(e, want) do { long want_ = (want); poison(want_); long r_ = (long)(e); T_(#e, r_, want_, __LINE__); } while (0)
// posix style: -1 and errno
#define TE(e, en, wl) do { poison(wl); errno = 0; long r_ = (long)(e); int en_ = errno, le_ = neco_lasterr(); ncalls++; \
    if (r_ != -1 || en_ != (en) || le_ != (wl)) vh_viol("api", __LINE__, "%s (%s a coroutine) = %ld errno %d lasterr %d, expected -1 %d %d", #e, inco ? "inside" : "outside of", r_, en_, le_, (en), (wl)); } while (0)
static int farret; static void farsleep(int argc, void *argv[]) { (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0); farret = neco_sleep(vh_chance(1, 2) ? INT64_MAX : INT64_MAX - 5); }
static void nop(int argc, void *argv[]) { (void)argc; (void)argv; }
static void nopw(void *u) { (*(int*)u)++; }
static void dirty(void) { // leave some error or success behind
    if (vh_chance(1, 2)) (void)neco_chan_make(0, 1, 1); else if (inco) (void)neco_yield();
}
static void invalids(void) {
    int64_t P = INT64_MAX; neco_chan *ch = 0; neco_gen *g = 0; neco_mutex mu = NECO_MUTEX_INITIALIZER; neco_cond cv = NECO_COND_INITIALIZER; neco_waitgroup wg = NECO_WAITGROUP_INITIALIZER;
    neco_stream *st = 0; int x = 0; (void)P; neco_chan *chs[2] = {0, 0}; struct sockaddr sa; memset(&sa, 0, sizeof sa); neco_stats ns;
    long W = inco ? 0 : NECO_PERM; // valid calls
    switch (vh_rn(43)) {
    case 0: if (inco) T(neco_start(0, 0), NECO_INVAL); T(neco_start(0, 0), NECO_INVAL); T(neco_start(nop, -1), NECO_INVAL); T(neco_startv(nop, -1, 0), NECO_INVAL); T(neco_startv(0, 0, 0), NECO_INVAL); break;
    case 1: T(neco_yield(), W); break;
    case 2: T(neco_sleep(1), inco ? 0 : NECO_PERM); if (!inco) T(neco_sleep_dl(5), NECO_PERM); break;
    case 3: T(neco_join(1234567890), W); T(neco_join_dl(1234567890, P), W); break;
    case 4: if (!inco) { T(neco_suspend(), NECO_PERM); T(neco_suspend_dl(1), NECO_PERM); T(neco_getid(), NECO_PERM); T(neco_lastid(), NECO_PERM); T(neco_starterid(), NECO_PERM); T(neco_now(), NECO_PERM); } else { T(neco_getid() > 0, 1); T(neco_lastid() >= 0, 1); T(neco_starterid() >= 0, 1); T(neco_now() > 0, 1); T(neco_is_main_thread(), 1); T(neco_getstats(&ns), 0); } break;
    case 5: T(neco_resume(987654321), inco ? NECO_NOTFOUND : NECO_PERM); break;
    case 6: T(neco_chan_make(0, 4, 4), NECO_INVAL); T(neco_chan_make(&ch, 4, 2), W); if (inco) T(neco_chan_release(ch), 0); break;
    case 7: T(neco_chan_make(&ch, (size_t)INT_MAX + 1, 0), NECO_INVAL); T(neco_chan_make(&ch, 0, (size_t)INT_MAX + 1), NECO_INVAL); break;
    case 8: T(neco_chan_retain(0), NECO_INVAL); T(neco_chan_release(0), NECO_INVAL); T(neco_chan_close(0), NECO_INVAL); break;
    case 9: T(neco_chan_send(0, &x), NECO_INVAL); T(neco_chan_recv(0, &x), NECO_INVAL); T(neco_chan_broadcast(0, &x), NECO_INVAL); T(neco_chan_tryrecv(0, &x), NECO_INVAL); break;
    case 10: T(neco_chan_case(0, &x), NECO_INVAL); T(neco_chan_select(1, (neco_chan*)0), inco ? NECO_INVAL : NECO_PERM); T(neco_chan_selectv(2, chs), inco ? NECO_INVAL : NECO_PERM); T(neco_chan_tryselectv(2, chs), inco ? NECO_INVAL : NECO_PERM); T(neco_chan_selectv(-1, chs), NECO_INVAL); break;
    case 11: if (inco) { int v = 3, o = 0; T(neco_chan_make(&ch, sizeof(int), 1), 0); T(neco_chan_tryrecv(ch, &o), NECO_EMPTY); T(neco_chan_send(ch, &v), 0); T(neco_chan_tryrecv(ch, &o), 0); if (o != 3) VIOL("message");
            T(neco_chan_recv_dl(ch, &o, 1), NECO_TIMEDOUT); T(neco_chan_tryselect(1, ch), NECO_EMPTY); T(neco_chan_close(ch), 0); T(neco_chan_close(ch), NECO_CLOSED); T(neco_chan_send(ch, &v), NECO_CLOSED); T(neco_chan_recv(ch, &o), NECO_CLOSED); T(neco_chan_broadcast(ch, &v), NECO_CLOSED); T(neco_chan_release(ch), 0); } break;
    case 12: T(neco_gen_start(0, 4, nop, 0), NECO_INVAL); T(neco_gen_start(&g, 4, 0, 0), NECO_INVAL); T(neco_gen_start(&g, 4, nop, -1), NECO_INVAL); if (!inco) T(neco_gen_start(&g, 4, nop, 0), NECO_PERM); break;
    case 13: T(neco_gen_retain(0), NECO_INVAL); T(neco_gen_release(0), NECO_INVAL); T(neco_gen_close(0), NECO_INVAL); T(neco_gen_next(0, &x), NECO_INVAL); T(neco_gen_yield(&x), inco ? NECO_NOTGENERATOR : NECO_PERM); break;
    case 14: T(neco_mutex_init(0), NECO_INVAL); T(neco_mutex_lock(0), NECO_INVAL); T(neco_mutex_unlock(0), NECO_INVAL); T(neco_mutex_trylock(0), NECO_INVAL); T(neco_mutex_rdlock(0), NECO_INVAL); T(neco_mutex_tryrdlock(0), NECO_INVAL); break;
    case 15: T(neco_mutex_init(&mu), W); T(neco_mutex_lock(&mu), W); T(neco_mutex_trylock(&mu), inco ? NECO_BUSY : NECO_PERM); T(neco_mutex_tryrdlock(&mu), inco ? NECO_BUSY : NECO_PERM); if (inco) { T(neco_mutex_lock_dl(&mu, 1), NECO_TIMEDOUT); T(neco_mutex_rdlock_dl(&mu, 1), NECO_TIMEDOUT); } T(neco_mutex_unlock(&mu), W); T(neco_mutex_tryrdlock(&mu), W); T(neco_mutex_unlock(&mu), W); break;
    case 16: T(neco_waitgroup_init(0), NECO_INVAL); T(neco_waitgroup_add(0, 1), NECO_INVAL); T(neco_waitgroup_done(0), NECO_INVAL); T(neco_waitgroup_wait(0), NECO_INVAL); break;
    case 17: T(neco_waitgroup_init(&wg), W); T(neco_waitgroup_add(&wg, 1), W); if (inco) T(neco_waitgroup_wait_dl(&wg, 1), NECO_TIMEDOUT); T(neco_waitgroup_done(&wg), W); T(neco_waitgroup_wait(&wg), W); T(neco_waitgroup_done(&wg), inco ? NECO_NEGWAITGRP : NECO_PERM); T(neco_waitgroup_add(&wg, -1), inco ? NECO_NEGWAITGRP : NECO_PERM); break;
    case 18: T(neco_cond_init(0), NECO_INVAL); T(neco_cond_signal(0), NECO_INVAL); T(neco_cond_broadcast(0), NECO_INVAL); T(neco_cond_wait(0, &mu), NECO_INVAL); T(neco_cond_wait(&cv, 0), NECO_INVAL); break;
    case 19: T(neco_cond_init(&cv), W); T(neco_cond_signal(&cv), W); T(neco_cond_broadcast(&cv), W); if (inco) { neco_mutex_lock(&mu); T(neco_cond_wait_dl(&cv, &mu, 1), NECO_TIMEDOUT); neco_mutex_unlock(&mu); } break;
    case 20: if (inco) { char c; TE(neco_read(-1, &c, 1), EBADF, NECO_ERROR); TE(neco_write(-1, &c, 1), EBADF, NECO_ERROR); TE(neco_accept(-1, 0, 0), EBADF, NECO_ERROR); TE(neco_connect(-1, &sa, sizeof sa), EBADF, NECO_ERROR); }
             else { char c; TE(neco_read(0, &c, 1), EPERM, NECO_PERM); TE(neco_write(1, &c, 1), EPERM, NECO_PERM); TE(neco_accept(0, 0, 0), EPERM, NECO_PERM); TE(neco_connect(0, &sa, sizeof sa), EPERM, NECO_PERM); } break;
    case 21: if (inco) { int p[2]; char c; if (vh_pipe(p)) vh_error("pipe"); TE(neco_read_dl(p[0], &c, 1, 1), ETIMEDOUT, NECO_TIMEDOUT); T(neco_wait_dl(p[0], NECO_WAIT_READ, 1), NECO_TIMEDOUT); T(neco_wait_dl(p[1], NECO_WAIT_WRITE, INT64_MAX), 0); close(p[0]); close(p[1]); } break;
    case 22: T(neco_wait(0, 0), NECO_INVAL); T(neco_wait(0, 3), NECO_INVAL); if (!inco) T(neco_wait(0, NECO_WAIT_READ), NECO_PERM); else TE(neco_wait(99999, NECO_WAIT_READ), EBADF, NECO_ERROR); break;
    case 23: T(neco_serve(0, "x"), NECO_INVAL); T(neco_dial(0, "x"), NECO_INVAL); T(neco_dial("tcp", 0), NECO_INVAL); T(neco_serve("tcp", 0), NECO_INVAL); if (!inco) { T(neco_dial("tcp", "127.0.0.1:1"), NECO_PERM); T(neco_serve("tcp", "127.0.0.1:0"), NECO_PERM); } else { T(neco_dial("nope", "127.0.0.1:1"), NECO_INVAL); T(neco_serve("nope", "127.0.0.1:0"), NECO_INVAL); } break;
    case 24: T(neco_cancel(987654321), inco ? NECO_NOTFOUND : NECO_PERM); T(neco_cancel_dl(987654321, 1), inco ? NECO_NOTFOUND : NECO_PERM); break;
    case 25: T(neco_setcanceltype(0, 0), NECO_INVAL); T(neco_setcanceltype(NECO_CANCEL_ENABLE, 0), NECO_INVAL); T(neco_setcancelstate(NECO_CANCEL_ASYNC, 0), NECO_INVAL); T(neco_setcancelstate(0, 0), NECO_INVAL);
        { int o = -5; T(neco_setcanceltype(NECO_CANCEL_INLINE, &o), W); if (inco && o != NECO_CANCEL_INLINE) VIOL("old cancel type %d", o); o = -5; T(neco_setcancelstate(NECO_CANCEL_ENABLE, &o), W); if (inco && o != NECO_CANCEL_ENABLE) VIOL("old cancel state %d", o); } break;
    case 26: T(neco_rand_setseed(1, 0), W); T(neco_rand(&x, 4, NECO_PRNG), W); T(neco_rand(&x, 4, 9), NECO_INVAL); break;
    case 27: T(neco_signal_watch(-1), NECO_INVAL); T(neco_signal_watch(0), NECO_INVAL); T(neco_signal_watch(32), NECO_INVAL); T(neco_signal_unwatch(0), NECO_INVAL); T(neco_signal_unwatch(32), NECO_INVAL); if (inco) { int sn = (int[]){ 1, 2, 15, 17, 31 }[vh_rn(5)]; T(neco_signal_watch(sn), NECO_OK); T(neco_signal_unwatch(sn), NECO_OK); } T(neco_signal_watch(9999), NECO_INVAL); T(neco_signal_unwatch(-1), NECO_INVAL); if (!inco) { T(neco_signal_watch(SIGUSR1), NECO_PERM); T(neco_signal_unwatch(SIGUSR1), NECO_PERM); T(neco_signal_wait(), NECO_PERM); } else { T(neco_signal_wait(), NECO_NOSIGWATCH); T(neco_signal_watch(SIGUSR2), 0); T(neco_signal_wait_dl(1), NECO_TIMEDOUT); T(neco_signal_unwatch(SIGUSR2), 0); T(neco_signal_wait_dl(1), NECO_NOSIGWATCH); } break;
    case 28: T(neco_work(-1, 0, 0), NECO_INVAL); if (!inco) T(neco_work(-1, nopw, &x), NECO_PERM); break;
    case 29: T(neco_getstats(0), NECO_INVAL); T(neco_getstats(&ns), W); break;
    case 30: T(neco_is_main_thread(), inco ? 1 : NECO_PERM); break;
    case 31: T(neco_stream_make(0, 1), NECO_INVAL); T(neco_stream_make(&st, -1), NECO_INVAL); T(neco_stream_make_buffered(0, 1), NECO_INVAL); T(neco_stream_make_buffered(&st, -1), NECO_INVAL); if (!inco) { T(neco_stream_make(&st, 1), NECO_PERM); T(neco_stream_make_buffered(&st, 1), NECO_PERM); } break;
    case 32: T(neco_stream_read(0, &x, 1), NECO_INVAL); T(neco_stream_write(0, &x, 1), NECO_INVAL); T(neco_stream_readfull(0, &x, 1), NECO_INVAL); T(neco_stream_flush(0), NECO_INVAL); T(neco_stream_close(0), NECO_INVAL); T(neco_stream_read_byte(0), NECO_INVAL); T(neco_stream_unread_byte(0), NECO_INVAL); T(neco_stream_buffered_read_size(0), NECO_INVAL); T(neco_stream_buffered_write_size(0), NECO_INVAL); break;
    case 33: if (inco) { int p[2]; char c; if (vh_pipe(p)) vh_error("pipe"); T(neco_stream_make(&st, p[0]), 0); TE(neco_stream_read_dl(st, &c, 1, 1), ETIMEDOUT, NECO_TIMEDOUT); T(neco_stream_unread_byte(st), NECO_UNREADFAIL); T(neco_stream_buffered_read_size(st), 0); T(neco_stream_buffered_write_size(st), 0); close(p[1]); T(neco_stream_read(st, &c, 1), NECO_EOF); T(neco_stream_readfull(st, &c, 1), NECO_EOF); T(neco_stream_close(st), 0); } break;
    case 34: if (inco) { int p[2]; char c; if (vh_pipe(p)) vh_error("pipe"); T(neco_stream_make_buffered(&st, p[0]), 0); T(neco_stream_unread_byte(st), NECO_UNREADFAIL); T(neco_stream_read_byte_dl(st, 1), NECO_TIMEDOUT); if (write(p[1], "z", 1) != 1) vh_error("pipe"); T(neco_stream_read_byte(st), 'z'); T(neco_stream_unread_byte(st), 0); T(neco_stream_buffered_read_size(st), 1); T(neco_stream_read(st, &c, 1), 1); close(p[1]); T(neco_stream_read_byte(st), NECO_EOF); T(neco_stream_buffered_write_size(st), 0); T(neco_stream_close(st), 0); } break;
    case 35: TE(neco_setnonblock(-1, true, 0), EBADF, NECO_ERROR); { int p[2]; bool o = true; if (pipe(p)) vh_error("pipe"); T(neco_setnonblock(p[0], true, &o), 0); if (o) VIOL("old nonblock"); if (!(fcntl(p[0], F_GETFL) & O_NONBLOCK)) VIOL("nonblock not set"); T(neco_setnonblock(p[0], false, &o), 0); if (!o) VIOL("old nonblock"); if (fcntl(p[0], F_GETFL) & O_NONBLOCK) VIOL("nonblock not cleared");
        if (fcntl(p[1], F_SETFL, O_APPEND)) vh_error("fcntl");
        for (int i = 0, nb = 0; i < 6; i++) { bool want = vh_rn(2); T(neco_setnonblock(p[1], want, i & 1 ? &o : 0), 0); if ((i & 1) && o != !!nb) VIOL("old nonblock"); nb = want; int f = fcntl(p[1], F_GETFL); if (!(f & O_APPEND)) VIOL("another status flag lost"); if (!!(f & O_NONBLOCK) != nb) VIOL("nonblock state differs from the one asked for"); }
        close(p[0]); close(p[1]); } break;
    case 36: { long r = (long)neco_now(); if (inco ? r < 0 : r != NECO_PERM) VIOL("now %ld", r); if (neco_lasterr() != (inco ? 0 : NECO_PERM)) VIOL("lasterr of now"); } break;
    case 37: { errno = ENOENT; static const int all[] = {0,-1,-2,-3,-4,-5,-6,-7,-8,-9,-10,-11,-12,-13,-15,-16,-17,-18};
        for (unsigned i = 0; i < 18; i++) for (unsigned j = 0; j < i; j++) { char a[200], b[200]; snprintf(a, 200, "%s", neco_strerror(all[i])); snprintf(b, 200, "%s", neco_strerror(all[j])); if (!strcmp(a, b)) VIOL("strerror(%d) and strerror(%d) are the same: %s", all[i], all[j], a); if (all[i] != -1 && !strncmp(a, "Undefined", 9)) VIOL("strerror(%d): %s", all[i], a); }
        errno = ENOENT; if (strcmp(neco_strerror(NECO_ERROR), strerror(ENOENT))) VIOL("strerror(NECO_ERROR) is %s", neco_strerror(NECO_ERROR));
        int u = vh_range(-2000000000, -20); if (strncmp(neco_strerror(u), "Undefined error", 15)) VIOL("strerror(%d)", u); } break;
    case 40: { static const int sys[] = {EINVAL, EPERM, ENOMEM, ECANCELED, ETIMEDOUT}, nec[] = {NECO_INVAL, NECO_PERM, NECO_NOMEM, NECO_CANCELED, NECO_TIMEDOUT};
        for (int i = 0; i < 5; i++) { errno = 0; neco_errconv_to_sys(nec[i]); if (errno != sys[i]) VIOL("code %d maps to errno %d", nec[i], errno); if (neco_errconv_from_sys() != nec[i]) VIOL("errno %d maps to %d", sys[i], neco_errconv_from_sys()); }
        int e = vh_range(1, 130); bool sp = false; for (int i = 0; i < 5; i++) if (e == sys[i]) sp = true; errno = e; if (!sp && neco_errconv_from_sys() != NECO_ERROR) VIOL("errno %d maps to %d", e, neco_errconv_from_sys()); errno = e; if (!sp) { neco_errconv_to_sys(NECO_ERROR); if (errno != e) VIOL("the system error %d was lost", e); } errno = 5; neco_errconv_to_sys(NECO_OK); if (errno) VIOL("errno after OK"); } break;
    case 41: if (inco) { T(neco_mutex_lock(&mu), 0); T(neco_mutex_destroy(&mu), NECO_BUSY); T(neco_mutex_trylock(&mu), NECO_BUSY); T(neco_mutex_unlock(&mu), 0); T(neco_mutex_destroy(&mu), 0); T(neco_mutex_rdlock(&mu), 0); T(neco_mutex_destroy(&mu), NECO_BUSY); T(neco_mutex_rdlock(&mu), 0); T(neco_mutex_destroy(&mu), NECO_BUSY); T(neco_mutex_trylock(&mu), NECO_BUSY); T(neco_mutex_unlock(&mu), 0); T(neco_mutex_destroy(&mu), NECO_BUSY); T(neco_mutex_unlock(&mu), 0);
        T(neco_waitgroup_add(&wg, 3), 0); T(neco_waitgroup_destroy(&wg), 0); T(neco_waitgroup_wait_dl(&wg, neco_now() + MS), 0); T(neco_cond_init(&cv), 0); T(neco_cond_destroy(&cv), 0); T(neco_cond_signal(&cv), 0); }
        T(neco_mutex_destroy(0), NECO_INVAL); T(neco_waitgroup_destroy(0), NECO_INVAL); T(neco_cond_destroy(0), NECO_INVAL); break;
    case 42: { static const int in[] = {0, INT_MAX, INT_MIN, 1, -1}; (void)in; if (inco) { // far deadlines and endless sleeps do not overflow
            neco_chan *c; int v = 1, o = 0; T(neco_chan_make(&c, sizeof v, 1), 0); T(neco_chan_send_dl(c, &v, INT64_MAX), 0); T(neco_chan_recv_dl(c, &o, INT64_MAX - 1), 0); T(neco_chan_recv_dl(c, &o, INT64_MIN), NECO_TIMEDOUT); T(neco_chan_release(c), 0);
            T(neco_sleep(-5), NECO_TIMEDOUT); T(neco_sleep(INT64_MIN), NECO_TIMEDOUT); T(neco_sleep_dl(INT64_MIN), NECO_TIMEDOUT);
            farret = 77; T(neco_start(farsleep, 0), 0); int64_t id = neco_lastid(); T(neco_sleep(3 * MS), 0); if (farret != 77) VIOL("an endless sleep returned %d", farret); T(neco_cancel(id), 0); T(neco_join(id), 0); if (farret != NECO_CANCELED) VIOL("a canceled endless sleep returned %d", farret); } } break;
    case 38: T(neco_sleep_dl(1), inco ? NECO_TIMEDOUT : NECO_PERM); break;
    case 39: if (inco) { int p[2]; if (vh_pipe(p)) vh_error("pipe"); static char buf[2000000]; memset(buf, 1, sizeof buf); long r = (long)neco_write_dl(p[1], buf, sizeof buf, neco_now() + MS); int le = neco_lasterr(); if (r <= 0 || r >= (long)sizeof buf || le != NECO_PARTIALWRITE) VIOL("partial write returned %ld, lasterr %d", r, le); close(p[0]); close(p[1]); } break;
    }
}
static void amain(int argc, void *argv[]) { (void)argc; (void)argv; inco = true; neco_setcanceltype(NECO_CANCEL_INLINE, 0); for (int i = 0; i < 25; i++) { dirty(); invalids(); } inco = false; }
static void one_api(void) {
    inco = false; ncalls = 0;
    for (int i = 0; i < 5; i++) { dirty(); invalids(); }
    if (neco_start(amain, 0)) vh_fatal("start");
    inco = false;
    for (int i = 0; i < 5; i++) { dirty(); invalids(); }
    vh_count("api_calls", ncalls);
}
// misuse with panic-on-error ends the program; other errors do not
static int pkind; static bool pnomem;
static void *pmalloc(size_t n) { return pnomem ? NULL : malloc(n); } static void *prealloc(void *p, size_t n) { return pnomem ? NULL : realloc(p, n); } static void pfree(void *p) { free(p); }
enum { PK_INVAL, PK_INVAL2, PK_INVAL3, PK_PERM, PK_NOMEM, PK_PERM2, PK_NOTFOUND, PK_EMPTY, PK_TIMEDOUT, PK_ERROR, PK_CLOSED, PK_BUSY, PK_NEGWG, PK_NOSIG, PK_CANCELED, PK_UNREAD, PK_NOTSUSP, PK_NOTGEN, PK_GAI, PK_EOF, PK_N };
static void pvictim(int argc, void *argv[]) { (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0); if (neco_suspend() != NECO_CANCELED) _exit(24); }
static void panicmain(int argc, void *argv[]) {
    (void)argc; (void)argv; int x = 0, r = 0; neco_chan *ch; neco_stream *st; int p[2]; char c;
    neco_mutex mu = NECO_MUTEX_INITIALIZER; neco_waitgroup wg = NECO_WAITGROUP_INITIALIZER;
    switch (pkind) {
    case PK_INVAL: neco_chan_make(0, 1, 1); break;
    case PK_INVAL2: neco_mutex_lock(0); break;
    case PK_INVAL3: neco_wait(0, 77); break;
    case PK_NOMEM: pnomem = true; neco_chan_make(&ch, 100, 10); break;
    case PK_NOTFOUND: r = neco_resume(99999) != NECO_NOTFOUND; break;
    case PK_EMPTY: neco_chan_make(&ch, 4, 1); r = neco_chan_tryrecv(ch, &x) != NECO_EMPTY; neco_chan_release(ch); break;
    case PK_TIMEDOUT: r = neco_sleep_dl(1) != NECO_TIMEDOUT; break;
    case PK_ERROR: r = neco_read(-1, &c, 1) != -1; break;
    case PK_CLOSED: neco_chan_make(&ch, 4, 1); neco_chan_close(ch); r = neco_chan_send(ch, &x) != NECO_CLOSED; neco_chan_release(ch); break;
    case PK_BUSY: neco_mutex_lock(&mu); r = neco_mutex_trylock(&mu) != NECO_BUSY; break;
    case PK_NEGWG: r = neco_waitgroup_done(&wg) != NECO_NEGWAITGRP; break;
    case PK_NOSIG: r = neco_signal_wait() != NECO_NOSIGWATCH; break;
    case PK_CANCELED: neco_start(pvictim, 0); neco_cancel(neco_lastid()); break;
    case PK_UNREAD: if (pipe(p)) _exit(25); neco_stream_make_buffered(&st, p[0]); r = neco_stream_unread_byte(st) != NECO_UNREADFAIL; break;
    case PK_NOTSUSP: r = neco_resume(neco_getid()) != NECO_NOTSUSPENDED; break;
    case PK_NOTGEN: r = neco_gen_yield(&x) != NECO_NOTGENERATOR; break;
    case PK_GAI: r = neco_dial("tcp4", "not-an-address-256.1.1.1:1x") >= 0; break;
    case PK_EOF: if (pipe(p)) _exit(25); close(p[1]); neco_stream_make_buffered(&st, p[0]); r = neco_stream_read(st, &c, 1) != NECO_EOF; break;
    }
    if (r) _exit(26);
}
static void one_panic(uint64_t seed) {
    pkind = (int)(seed % PK_N); bool on = (seed / PK_N) % 2 == 0; fflush(stdout); // and none does with it off
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); signal(SIGABRT, SIG_DFL); neco_env_setallocator(pmalloc, prealloc, pfree); neco_env_setpaniconerror(on);
        if (pkind == PK_PERM) neco_yield(); else if (pkind == PK_PERM2) neco_chan_make(&(neco_chan*){0}, 1, 1); else neco_start(panicmain, 0);
        _exit(23);
    }
    int st = 0; waitpid(p, &st, 0);
    bool ended = WIFEXITED(st) && WEXITSTATUS(st) == 23;
    vh_log(0, CALL, pkind, ended, 0); vh_count("panics", !ended);
    if (pkind <= PK_PERM2 && on) { if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) VIOL("panic on error is set but misuse %d did not abort the program (status %x)", pkind, st); }
    else if (!ended) VIOL("panic on error %s: error %d ended the program (status %x)", on ? "set" : "not set", pkind, st);
}
static void one(uint64_t seed) {
    (void)seed; vh_opnames(names, NOPS);
    long live0 = vh_track_live();
    if (!strcmp(vh_mode, "fair")) { if (vh_chance(1, 4)) one_fair2(); else one_fair(); }
    else if (!strcmp(vh_mode, "stats")) one_stats();
    else if (!strcmp(vh_mode, "ctx")) one_ctx();
    else if (!strcmp(vh_mode, "rand")) one_rand();
    else if (!strcmp(vh_mode, "panic")) one_panic(seed);
    else one_api();
    if (vh_track_live() != live0) VIOL("%ld blocks leaked by the case", vh_track_live() - live0);
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
