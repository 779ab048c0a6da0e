#include <limits.h>
// Monitor "lone": one coroutine, in a runtime that has nothing else pending, goes
// through waits of every kind with a deadline, one at a time; a helper (which has
// no deadline, and is gone before the next) ends it, cancels it, or lets it time
// out. After each the runtime is idle in some way: a work, input from a thread, a
// sleep. Every result is known in advance, no wait may be early or late, and the
// counts of the statistics come back to zero each time.
#include "vh.h"
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <fcntl.h>
enum { K_RECV, K_SEND, K_SELECT, K_LOCK, K_RDLOCK, K_COND, K_WG, K_JOIN, K_SUSPEND, K_WAIT, K_READ, K_WRITE, K_GEN, K_SLEEP, K_CANCEL, K_SIGNAL, K_ACCEPT, K_FLUSH, NK };
static const char *const names[] = {"recv","send","select","lock","rdlock","cond","wg","join","suspend","wait","read","write","gen","sleep","cancel","signal","accept","flush","work","input","nap"};
enum { O_DONE, O_TIMEOUT, O_CANCEL, O_BOTH };
static int kind, outcome, pre; static int64_t mainid, helperid; static bool acted, release;
static neco_chan *ch[3]; static neco_mutex mu; static neco_cond cv; static neco_waitgroup wg; static int pfd[2], sfd[2]; static neco_gen *gen;
static int lst; static struct sockaddr_storage la; static socklen_t ll; static neco_stream *st;

static void joinee(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); }
static void stubborn(int argc, void *argv[]) { (void)argc; (void)argv; neco_setcancelstate(NECO_CANCEL_DISABLE, 0); neco_suspend(); if (vh_chance(1, 2)) { neco_setcanceltype(NECO_CANCEL_INLINE, 0); neco_setcancelstate(NECO_CANCEL_ENABLE, 0); neco_yield(); neco_yield(); } }
static void generator(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); int v = 77; if (outcome == O_DONE || outcome == O_BOTH) neco_gen_yield(&v); }
static int64_t other;
static void act(void) {
    char b[512]; int v = 77;
    switch (kind) {
    case K_RECV: if (vh_chance(1, 2)) neco_chan_send(ch[0], &v); else { acted = true; neco_chan_broadcast(ch[0], &v); } break;
    case K_SELECT: neco_chan_send(ch[vh_rn(3)], &v); break;
    case K_SEND: if (neco_chan_recv(ch[0], &v) != NECO_OK || v != 55) VIOL("helper received %d", v); break;
    case K_LOCK: case K_RDLOCK: neco_mutex_unlock(&mu); break;
    case K_COND: acted = true; if (vh_chance(1, 2)) neco_cond_signal(&cv); else neco_cond_broadcast(&cv); break;
    case K_WG: neco_waitgroup_done(&wg); break;
    case K_JOIN: case K_GEN: case K_CANCEL: neco_resume(other); break;
    case K_SUSPEND: acted = true; neco_resume(mainid); break;
    case K_WAIT: case K_READ: if (write(pfd[1], "abc", 3) != 3) vh_error("write"); break;
    case K_WRITE: case K_FLUSH: while (read(pfd[0], b, sizeof b) > 0) { } break;
    case K_SIGNAL: pthread_kill(pthread_self(), SIGUSR1); break;
    case K_ACCEPT: { int s = socket(la.ss_family, SOCK_STREAM, 0); if (s < 0 || connect(s, (void*)&la, ll)) vh_error("connect %d", errno); sfd[0] = s; break; }
    }
    acted = true;
}
static void helper(int argc, void *argv[]) {
    (void)argc; (void)argv;
    bool held = (kind == K_LOCK || kind == K_RDLOCK);
    if (held && neco_mutex_lock(&mu) != NECO_OK) VIOL("helper's lock");
    for (int i = 0; i < pre; i++) neco_yield();
    if (outcome == O_DONE) act();
    else if (outcome == O_CANCEL) { acted = true; int r = neco_cancel(mainid); if (r != NECO_OK) VIOL("cancel returned %d", r); }
    else if (outcome == O_BOTH) { act(); acted = true; }
    if (outcome != O_DONE && outcome != O_BOTH && held) { // hold it until the main coroutine is done with it
        if (!release) neco_suspend();
        neco_mutex_unlock(&mu);
    }
}
static void fillpipe(void) { char b[4096]; memset(b, 1, sizeof b); while (write(pfd[1], b, sizeof b) > 0) { } while (write(pfd[1], b, 1) > 0) { } }
static void work(void *u) { struct timespec ts = {0, (long)(intptr_t)u}; extern int __real_nanosleep(const struct timespec*, struct timespec*); __real_nanosleep(&ts, 0); }
static int ifd[2]; static long idelay;
static void *feeder(void *u) { (void)u; work((void*)(intptr_t)idelay); if (write(ifd[1], "i", 1) != 1) vh_error("feed"); return 0; }
static void stats(const char *when) {
    neco_stats s; if (neco_getstats(&s) != NECO_OK) { VIOL("stats"); return; }
    if (s.coroutines != 1 || s.sleepers || s.evwaiters || s.sigwaiters || s.senders || s.receivers || s.locked || s.waitgroupers || s.condwaiters || s.suspended)
        VIOL("%s: a lone running coroutine, but %zu coroutines, %zu sleepers, %zu evwaiters, %zu sigwaiters, %zu senders, %zu receivers, %zu locked, %zu waitgroupers, %zu condwaiters, %zu suspended", when,
             s.coroutines, s.sleepers, s.evwaiters, s.sigwaiters, s.senders, s.receivers, s.locked, s.waitgroupers, s.condwaiters, s.suspended);
    vh_count("stat_checks", 1);
}
static void idle(void) {
    int k = vh_rn(4); vh_log(0, NK + k % 3, 0, 0, 0);
    if (k == 0) {
#if !defined(NECO_NOWORKERS)
        if (neco_work((int64_t)vh_rn(3) - 1, work, (void*)(intptr_t)(vh_rn(4) * 20000)) != NECO_OK) VIOL("work failed");
#endif
    } else if (k == 1) {
        pthread_t th; idelay = (long)vh_rn(4) * 20000; if (pthread_create(&th, 0, feeder, 0)) vh_error("thread");
        char c = 0; ssize_t n = neco_read(ifd[0], &c, 1); if (n != 1 || c != 'i') VIOL("idle read returned %zd", n);
        pthread_join(th, 0);
    } else {
        int64_t d = vh_chance(1, 2) ? vh_range(1, 1000) * US : vh_range(1, 3000) * MS, dl = vh_time() + d; vh_pend[0] = dl;
        int r = neco_sleep_dl(dl); vh_pend[0] = INT64_MAX;
        if (r != NECO_OK && !(r == NECO_TIMEDOUT && d < MS)) VIOL("sleep returned %d", r);
        if (vh_time() < dl) VIOL("sleep returned %lld ns early", (long long)(dl - vh_time()));
    }
}
static int pick(void) {
    static const int chan[] = {K_RECV, K_SEND, K_SELECT, K_GEN}, sync[] = {K_LOCK, K_RDLOCK, K_COND, K_WG}, life[] = {K_JOIN, K_SUSPEND, K_SLEEP, K_CANCEL}, io[] = {K_WAIT, K_READ, K_WRITE, K_ACCEPT, K_FLUSH}, sig[] = {K_SIGNAL, K_SIGNAL, K_READ, K_SLEEP};
    if (!strcmp(vh_mode, "chan")) return chan[vh_rn(4)];
    if (!strcmp(vh_mode, "sync")) return sync[vh_rn(4)];
    if (!strcmp(vh_mode, "life")) return life[vh_rn(4)];
    if (!strcmp(vh_mode, "io")) return io[vh_rn(5)];
    if (!strcmp(vh_mode, "sig")) return sig[vh_rn(4)];
    return (int)vh_rn(NK);
}
static void mainco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    mainid = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int i = 0; i < 3; i++) if (neco_chan_make(&ch[i], 4, 0) != NECO_OK) vh_error("chan");
    neco_mutex_init(&mu); neco_cond_init(&cv); neco_waitgroup_init(&wg);
    if (vh_pipe(pfd) || vh_pipe(ifd)) vh_error("pipe");
    int n = vh_range(2, 14);
    for (int i = 0; i < n; i++) {
        kind = pick(); if (vh_jitter && (kind == K_WRITE || kind == K_FLUSH)) kind = K_READ; // (writes are done by threads, in real time)
        outcome = vh_chance(3, 5) ? O_DONE : vh_chance(1, 2) ? O_TIMEOUT : O_CANCEL; pre = vh_rn(4); acted = release = false;
        if (kind == K_SLEEP && outcome == O_DONE) outcome = O_TIMEOUT;
#ifdef NECO_NOSIGNALS
        if (kind == K_SIGNAL) kind = K_SLEEP, outcome = O_CANCEL;
#endif
        int64_t dl = outcome == O_TIMEOUT ? vh_time() + vh_range(1, vh_chance(1, 2) ? 900 : 900000) * US : vh_chance(1, 6) ? INT64_MAX : vh_time() + (int64_t)vh_range(3, 1000) * 1000 * MS;
        int v = kind == K_SEND ? 55 : 0, ret = 12345; char b[64] = {0}; ssize_t sn = -100; other = 0; sfd[0] = sfd[1] = -1; bool io = false;
        if (kind == K_WG) {
            neco_waitgroup lim; neco_waitgroup_init(&lim); int part = vh_range(0, 3); // the count goes up to the largest int, and not beyond
            int r0 = neco_waitgroup_add(&lim, INT_MAX - part), r1 = neco_waitgroup_add(&lim, part), r2 = neco_waitgroup_add(&lim, vh_range(1, 9)), r3 = neco_waitgroup_add(&lim, -vh_range(1, 9) - INT_MAX / 2), r4 = neco_waitgroup_add(&lim, INT_MIN), r5 = neco_waitgroup_destroy(&lim);
            if (r0 != NECO_OK || r1 != NECO_OK || r2 != NECO_INVAL || r3 != NECO_OK || r4 != NECO_NEGWAITGRP || r5 != NECO_OK) VIOL("waitgroup at its limits: %d %d %d %d %d %d", r0, r1, r2, r3, r4, r5);
            neco_waitgroup_add(&wg, 1);
        }
        if (kind == K_JOIN) { neco_start(joinee, 0); other = neco_lastid(); }
        if (kind == K_CANCEL) { neco_start(stubborn, 0); other = neco_lastid(); }
        if (kind == K_GEN) { if (neco_gen_start(&gen, 4, generator, 0) != NECO_OK) vh_error("gen"); other = neco_lastid(); }
        if (kind == K_WRITE || kind == K_FLUSH) fillpipe();
        if (kind == K_FLUSH) { if (neco_stream_make_buffered(&st, pfd[1]) != NECO_OK) vh_error("stream"); if (neco_stream_write(st, b, 33) != 33) VIOL("stream write"); }
        if (kind == K_SIGNAL) neco_signal_watch(SIGUSR1);
        if (kind == K_ACCEPT) { lst = socket(AF_UNIX, SOCK_STREAM|SOCK_NONBLOCK, 0); struct sockaddr_un_ { sa_family_t f; char p[32]; } ua = { AF_UNIX, {0} }; snprintf(ua.p + 1, 31, "lone%d.%llx", (int)getpid(), (unsigned long long)vh_seed);
            if (bind(lst, (void*)&ua, sizeof ua) || listen(lst, 4)) vh_error("listen %d", errno);
            memcpy(&la, &ua, sizeof ua); ll = sizeof ua; }
        if (kind == K_COND) neco_mutex_lock(&mu);
        neco_start(helper, 0); helperid = neco_lastid();
        if (acted && (kind == K_SUSPEND || kind == K_COND || kind == K_RECV)) { // it ran before the wait: nothing remains of it
            if (outcome == O_DONE) { if (kind == K_COND) neco_mutex_unlock(&mu); if (kind == K_RECV) { if (vh_chance(1, 2)) { } int q; (void)!neco_chan_tryrecv(ch[0], &q); } neco_join(helperid); continue; }
        }
        bool early = acted;
        vh_log(0, kind, outcome, pre, early);
        vh_pend[0] = dl; int64_t t0 = vh_time();
        switch (kind) {
        case K_RECV: ret = neco_chan_recv_dl(ch[0], &v, dl); break;
        case K_SEND: ret = neco_chan_send_dl(ch[0], &v, dl); break;
        case K_SELECT: ret = neco_chan_select_dl(dl, 3, ch[0], ch[1], ch[2]); if (ret >= 0 && ret < 3) { int c = neco_chan_case(ch[ret], &v); if (c != NECO_OK) VIOL("case returned %d", c); ret = NECO_OK; } break;
        case K_LOCK: ret = neco_mutex_lock_dl(&mu, dl); if (ret == NECO_OK) neco_mutex_unlock(&mu); break;
        case K_RDLOCK: ret = neco_mutex_rdlock_dl(&mu, dl); if (ret == NECO_OK) neco_mutex_unlock(&mu); break;
        case K_COND: ret = neco_cond_wait_dl(&cv, &mu, dl); neco_mutex_unlock(&mu); break;
        case K_WG: ret = neco_waitgroup_wait_dl(&wg, dl); break;
        case K_JOIN: ret = neco_join_dl(other, dl); break;
        case K_SUSPEND: ret = neco_suspend_dl(dl); break;
        case K_WAIT: ret = neco_wait_dl(pfd[0], NECO_WAIT_READ, dl); break;
        case K_READ: sn = neco_read_dl(pfd[0], b, 3, dl); io = true; break;
        case K_WRITE: sn = neco_write_dl(pfd[1], b, 3, dl); io = true; break;
        case K_GEN: ret = neco_gen_next_dl(gen, &v, dl); break;
        case K_SLEEP: ret = neco_sleep_dl(dl); if (outcome == O_TIMEOUT && ret == NECO_OK) ret = NECO_TIMEDOUT; break;
        case K_CANCEL: ret = neco_cancel_dl(other, dl); if (ret == NECO_NOTFOUND) ret = NECO_OK; break;
        case K_SIGNAL: ret = neco_signal_wait_dl(dl); if (ret == SIGUSR1) ret = NECO_OK; break;
        case K_ACCEPT: sn = neco_accept_dl(lst, 0, 0, dl); if (sn >= 0) { sfd[1] = (int)sn; sn = 3; } io = true; break;
        case K_FLUSH: ret = neco_stream_flush_dl(st, dl); break;
        }
        vh_pend[0] = INT64_MAX; int64_t t1 = vh_time();
        if (io) { ret = sn == 3 ? NECO_OK : sn == -1 && errno == ETIMEDOUT ? NECO_TIMEDOUT : sn == -1 && errno == ECANCELED ? NECO_CANCELED : 9999; if (sn == -1 && neco_lasterr() != ret) VIOL("%s: last error %d for errno %d", names[kind], neco_lasterr(), errno); }
        int want = outcome == O_DONE ? NECO_OK : outcome == O_TIMEOUT ? NECO_TIMEDOUT : NECO_CANCELED;
        if (ret != want) VIOL("%s returned %d (%zd) instead of %d (waited %lld ns, deadline in %lld ns, peer %s)", names[kind], ret, sn, want, (long long)(t1 - t0), (long long)(dl - t0), early ? "before" : "after");
        if (ret == NECO_OK && (kind == K_RECV || kind == K_SELECT || kind == K_GEN) && v != 77) VIOL("%s got %d", names[kind], v);
        if (ret == NECO_TIMEDOUT && t1 < dl) VIOL("%s timed out %lld ns early", names[kind], (long long)(dl - t1));
        if (want != NECO_TIMEDOUT && t1 - t0 > 400 * MS) VIOL("%s took %lld ns although its peer was there", names[kind], (long long)(t1 - t0));
        vh_count(names[kind], 1); vh_count(outcome == O_DONE ? "done" : outcome == O_TIMEOUT ? "timedout" : "canceled", 1);
        // back to nothing
        if (other) { neco_resume(other); if (kind == K_GEN) neco_gen_close(gen); if (neco_join(other) != NECO_OK) VIOL("join"); if (kind == K_GEN) neco_gen_release(gen); }
        if (outcome != O_DONE && (kind == K_LOCK || kind == K_RDLOCK)) { release = true; neco_resume(helperid); }
        if (neco_join(helperid) != NECO_OK) VIOL("join of the helper");
        if (kind == K_WG && outcome != O_DONE) neco_waitgroup_done(&wg);
        if (kind == K_WAIT || kind == K_READ || kind == K_WRITE || kind == K_FLUSH) { char d[4096]; while (read(pfd[0], d, sizeof d) > 0) { } }
        if (kind == K_FLUSH) neco_stream_release(st);
        if (kind == K_SIGNAL) { neco_signal_unwatch(SIGUSR1); }
        if (kind == K_ACCEPT) { close(lst); if (sfd[0] >= 0) close(sfd[0]); if (sfd[1] >= 0) close(sfd[1]); }
        stats(names[kind]);
        if (neco_mutex_trylock(&mu) != NECO_OK) { VIOL("%s: the mutex is left locked", names[kind]); break; } else neco_mutex_unlock(&mu);
        idle(); stats("idle");
    }
    for (int i = 0; i < 3; i++) neco_chan_release(ch[i]);
    close(pfd[0]); close(pfd[1]); close(ifd[0]); close(ifd[1]);
}
static void one(uint64_t seed) {
    (void)seed; vh_virtual = true; vh_jitter = vh_chance(1, 2) ? 3 : 0; vh_jitter_max = 50 * US;
    for (int i = 0; i < VH_NPEND; i++) vh_pend[i] = INT64_MAX;
    long live0 = vh_track_live(); int ret = neco_start(mainco, 0);
    if (ret != NECO_OK) vh_error("neco_start %d", ret);
    if (vh_track_live() != live0) VIOL("%ld blocks leaked by the case", vh_track_live() - live0);
}
int main(int argc, char **argv) { vh_track_install(); vh_opnames(names, (int)(sizeof names / sizeof *names)); return vh_run(argc, argv, one); }
