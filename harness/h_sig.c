// Signals: every signal sent while watched is delivered to exactly one waiting
// watcher; nothing else ends a wait; unwatched signals end the process; handlers
// are restored. Modes: sig, idle (--realtime), exit (fixed: one case per seed 1..N).
#include "vh.h"
#include <stdatomic.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <time.h>

enum { WATCH, UNWATCH, WAITB, WAITE, SEND, CANC, NOPS };
static const char *const names[] = {"watch","unwatch","wait","waited","send","cancel"};
static const int SIGS[8] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM };
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
static void rsleep(long us) { struct timespec ts = { 0, us * 1000 }; __real_nanosleep(&ts, 0); }

#define NW 6
static int nw, nliveW; static struct { int64_t id; uint32_t watch; bool waiting; int seq; int64_t dl; int cansent, cangot; bool fin; } w[NW];
static int sent[32], got[32]; static int64_t gotat[32]; static bool wstop; static uint32_t syncset, asyncset; static bool rt_async;
static atomic_int asent[32], aack[32]; static atomic_bool astop; static pthread_t athread; static pthread_t mainth; static int adelay; static int akind; static uint32_t aset; static uint64_t aseed;
static uint64_t arand(void) { aseed = aseed * 6364136223846793005ULL + 1442695040888963407ULL; return aseed >> 33; }
// Sends from another thread, one outstanding signal per number: the system
// merges equal pending signals, so more would not be countable.
static void *asender(void *arg) {
    (void)arg;
    while (!atomic_load(&astop)) {
        int s = SIGS[arand() % 8];
        if (!(aset & (1u << s)) || atomic_load(&asent[s]) != atomic_load(&aack[s])) { rsleep(10); continue; }
        atomic_fetch_add(&asent[s], 1);
        int k = akind == 3 ? (int)(arand() % 3) : akind;
        if (k == 0) pthread_kill(mainth, s); else if (k == 1) kill(getpid(), s); else raise(s); // raise: handled on this thread first
        if (adelay) rsleep((long)(arand() % (uint64_t)adelay));
    }
    return 0;
}
static void bgsend(void *arg) { int s = (int)(intptr_t)arg; raise(s); }
static int pend(int s) { return sent[s] + atomic_load(&asent[s]) - got[s]; }
static void account(int me, int r) {
    if (r < 1 || r > 31) { VIOL("signal_wait returned %d", r); return; }
    got[r]++; if (gotat[r] == INT64_MAX) gotat[r] = vh_time();
    if (!(w[me].watch & (1u << r))) VIOL("coroutine %d got signal %d that it does not watch", me, r);
    if (pend(r) < 0) VIOL("signal %d was delivered %d times but sent %d times", r, got[r], sent[r] + atomic_load(&asent[r]));
    if (asyncset & (1u << r)) atomic_fetch_add(&aack[r], 1);
    vh_count("delivered", 1);
}
static void watcher(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; w[me].id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int reps = vh_range(3, 25);
    for (int k = 0; k < reps && !wstop && !vh_nviol; k++) {
        int c = (int)vh_rn(10);
        if (c < 3) {
            int s = SIGS[vh_rn(8)]; int r = neco_signal_watch(s); w[me].watch |= 1u << s; vh_log(me, WATCH, s, 0, r); if (r != NECO_OK) VIOL("watch %d returned %d", s, r);
        } else if (c == 3) {
            int s = SIGS[vh_rn(8)]; int r = neco_signal_unwatch(s); w[me].watch &= ~(1u << s); vh_log(me, UNWATCH, s, 0, r); if (r != NECO_OK) VIOL("unwatch %d returned %d", s, r);
        } else if (c < 9) {
            int64_t dl = vh_chance(1, 3) ? INT64_MAX : vh_time() + vh_range(0, 3000) * US;
            if (!w[me].watch && vh_chance(1, 2)) continue;
            int64_t t0 = vh_time(); (void)t0; w[me].waiting = true; w[me].seq++; w[me].dl = dl; vh_log(me, WAITB, 0, w[me].watch, 0);
            int r = dl == INT64_MAX ? neco_signal_wait() : neco_signal_wait_dl(dl); int le = neco_lasterr();
            w[me].waiting = false; vh_log(me, WAITE, 0, 0, r);
            if (r > 0) account(me, r);
            else {
                if (le != r) VIOL("last error %d after signal_wait returned %d", le, r);
                if (r == NECO_NOSIGWATCH) { if (w[me].watch) VIOL("reported as watching nothing"); }
                else if (!w[me].watch) VIOL("waiting without watching returned %d", r);
                else if (r == NECO_TIMEDOUT) { if (dl == INT64_MAX || vh_time() < dl) VIOL("timed out before the deadline"); vh_count("timedout", 1); }
                else if (r == NECO_CANCELED) { if (w[me].cansent == w[me].cangot) VIOL("canceled without a cancelation"); w[me].cangot = w[me].cansent; vh_count("canceled", 1); }
                else VIOL("signal_wait returned %d", r);
            }
        } else neco_sleep(vh_range(1, 500) * US);
        if (w[me].cansent != w[me].cangot && vh_chance(1, 2)) { if (neco_sleep(1) == NECO_CANCELED) w[me].cangot = w[me].cansent; }
    }
    // ends with its watches in place in half of the cases
    if (vh_chance(1, 2)) for (int i = 0; i < 8; i++) { neco_signal_unwatch(SIGS[i]); }
    w[me].fin = true; w[me].watch = 0; nliveW--;
}
static void quiesce(void) {
    // nothing sent in between: nobody may be left waiting for a pending signal
    int n = 12; for (int j = 0; j < 8; j++) n += 2 * pend(SIGS[j]); // one signal is delivered per turn
    for (int k = 0; k < n; k++) neco_yield();
}
// coroutines that wait for a descriptor meanwhile are not disturbed by signals
static int erd, epfd_[2]; static bool eend;
static void ereader(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0); int r;
    if (vh_chance(1, 2)) { r = neco_wait(epfd_[0], NECO_WAIT_READ); if (r != NECO_OK) VIOL("a descriptor wait returned %d", r); }
    else { char c; r = (int)neco_read(epfd_[0], &c, 1); if (r != 0) VIOL("a read that waited returned %d", r); }
    if (!eend) VIOL("a descriptor wait was ended by a signal");
    vh_count("descriptor_waits", 1);
}
static void sigmain(int argc, void *argv[]) {
    (void)argc; (void)argv; bool can = argv[0] != 0; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int me = NW - 1; w[me].id = neco_getid(); w[me].watch = 0;
    for (int i = 0; i < 8; i++) { if (neco_signal_watch(SIGS[i])) VIOL("watch"); w[me].watch |= 1u << SIGS[i]; }
    erd = vh_chance(1, 2) ? vh_range(1, 3) : 0; eend = false;
    if (erd) { if (vh_pipe(epfd_)) vh_error("pipe"); neco_setnonblock(epfd_[0], true, 0); for (int i = 0; i < erd; i++) neco_start(ereader, 0); }
    nliveW = nw; for (int i = 0; i < nw; i++) neco_start(watcher, 1, (void*)(intptr_t)i);
    if (asyncset) { atomic_store(&astop, false); if (pthread_create(&athread, 0, asender, 0)) vh_error("thread"); }
    int nops = vh_range(20, 120);
    for (int k = 0; k < nops && nliveW > 0 && !vh_nviol; k++) {
        int c = (int)vh_rn(12); int s = SIGS[vh_rn(8)];
        if (c < 6 && (syncset & (1u << s))) {
            int n = vh_chance(1, 6) ? vh_range(2, 40) : 1;
            for (int j = 0; j < n; j++) { sent[s]++; vh_log(99, SEND, s, 0, 0); raise(s); vh_count("sent", 1); }
        } else if (c == 6 && (asyncset & (1u << s)) && vh_chance(1, 3) && rt_async) {
            if (atomic_load(&asent[s]) == atomic_load(&aack[s])) { atomic_fetch_add(&asent[s], 1); vh_log(98, SEND, s, 0, 0); neco_work(-1, bgsend, (void*)(intptr_t)s); vh_count("sent_from_worker", 1); }
        } else if (c == 7 && can) { int v = (int)vh_rn((uint32_t)nw); if (!w[v].fin) { w[v].cansent++; vh_log(v, CANC, 0, 0, 0); neco_cancel(w[v].id); } }
        else if (c == 8) neco_yield();
        else if (c == 9 && !asyncset && (syncset & (1u << s)) && pend(s) == 0) { // the scheduler has nothing else to do: it does not sleep on a pending signal
            int n = 0; int64_t t = vh_time(); gotat[s] = INT64_MAX;
            for (int i = 0; i < nw; i++) if (w[i].waiting && w[i].dl == INT64_MAX && (w[i].watch & (1u << s)) && w[i].cansent == w[i].cangot) n++;
            for (int i = 0; i < 8; i++) if (pend(SIGS[i])) n = 0; // the waiter might take that one
            if (!n) { neco_yield(); continue; }
            sent[s]++; vh_log(99, SEND, s, 0, 0); raise(s); vh_count("sent", 1); neco_sleep(60 * MS);
            if (gotat[s] > t + 30 * MS) VIOL("signal %d was sent to a waiting coroutine, and not delivered within 30 ms of an idle scheduler", s);
            vh_count("idle_signals", 1);
        }
        else { neco_sleep(vh_range(1, 400) * US); if (asyncset) rsleep(20); }
        if (vh_chance(1, 4) && !asyncset) {
            int q[NW]; for (int i = 0; i < nw; i++) q[i] = w[i].waiting ? w[i].seq : -1;
            quiesce();
            for (int i = 0; i < nw; i++) if (w[i].waiting && w[i].seq == q[i] && w[i].cansent == w[i].cangot) for (int j = 0; j < 8; j++) if ((w[i].watch & (1u << SIGS[j])) && pend(SIGS[j]) > 0) { VIOL("coroutine %d is still waiting although signal %d is pending (%d)", i, SIGS[j], pend(SIGS[j])); break; }
            vh_count("quiescent_checks", 1);
        }
    }
    wstop = true;
    if (asyncset) { int64_t t0 = vh_realtime(); (void)t0; atomic_store(&astop, true); pthread_join(athread, 0); }
    // the watchers that still wait are ended by cancelation
    for (int r = 0; r < 40 && nliveW > 0; r++) { for (int i = 0; i < nw; i++) if (!w[i].fin) { w[i].cansent++; neco_cancel(w[i].id); } neco_sleep(500 * US); }
    if (nliveW) vh_fatal("%d watchers did not end", nliveW);
    // drain
    int64_t t0 = vh_realtime();
    while (!vh_nviol) {
        int tot = 0; for (int j = 0; j < 8; j++) tot += pend(SIGS[j]);
        int r = neco_signal_wait_dl(vh_time() + 300 * US);
        if (r > 0) { account(me, r); continue; }
        if (r != NECO_TIMEDOUT) VIOL("drain: signal_wait returned %d", r);
        if (tot <= 0) break;
        rsleep(200);
        if (vh_realtime() - t0 > 3 * NECO_SECOND) { for (int j = 0; j < 8; j++) if (pend(SIGS[j])) VIOL("signal %d sent %d times but delivered %d times", SIGS[j], sent[SIGS[j]] + atomic_load(&asent[SIGS[j]]), got[SIGS[j]]); break; }
    }
    for (int i = 0; i < 8; i++) { neco_signal_unwatch(SIGS[i]); }
    if (erd) { eend = true; close(epfd_[1]); neco_sleep(1 * MS); close(epfd_[0]); }
}
static atomic_int own; static void ownh(int s) { atomic_fetch_add(&own, s); }
static void one_sig(void) {
    memset(w, 0, sizeof w); memset(sent, 0, sizeof sent); memset(got, 0, sizeof got); for (int i = 0; i < 32; i++) { atomic_store(&asent[i], 0); atomic_store(&aack[i], 0); }
    nw = vh_range(1, NW - 1); wstop = false; asyncset = 0; syncset = 0; mainth = pthread_self();
    bool async = vh_chance(1, 4); vh_jitter = vh_range(2, 8); vh_jitter_max = vh_range(3, 60) * US; // pending signals make the scheduler spin
    for (int i = 0; i < 8; i++) { if (async && vh_chance(1, 2) && SIGS[i] != SIGPIPE) asyncset |= 1u << SIGS[i]; else if (vh_chance(3, 4)) syncset |= 1u << SIGS[i]; }
    adelay = vh_chance(1, 2) ? 0 : vh_range(1, 200); akind = (int)vh_rn(4); aseed = vh_rand(); rt_async = vh_chance(1, 2); aset = asyncset;
    if (rt_async) for (int i = 0; i < 8; i++) if ((asyncset & (1u << SIGS[i])) && vh_chance(1, 2)) aset &= ~(1u << SIGS[i]); // those are sent by workers only
    if (rt_async) asyncset = asyncset; else aset = asyncset;
    // the worker and the thread never share a number
    struct sigaction sa = { .sa_handler = ownh }, old[8]; for (int i = 0; i < 8; i++) sigaction(SIGS[i], &sa, &old[i]);
    stack_t ss0, ss1; sigaltstack(0, &ss0); atomic_store(&own, 0);
    int r = vh_start(VH_NZ_EV, sigmain, (void*)(intptr_t)vh_chance(1, 2));
    if (r) vh_fatal("start %d", r);
    sigaltstack(0, &ss1);
    if (ss0.ss_sp != ss1.ss_sp || ss0.ss_flags != ss1.ss_flags) VIOL("the alternate signal stack was not restored");
    for (int i = 0; i < 8; i++) {
        struct sigaction cur; sigaction(SIGS[i], 0, &cur);
        if (cur.sa_handler != ownh) VIOL("the handler of signal %d was not restored", SIGS[i]);
        else { if (own) VIOL("the previous handler ran while the runtime was active"); raise(SIGS[i]); if (own != SIGS[i]) VIOL("the previous handler did not run"); own = 0; }
        sigaction(SIGS[i], &old[i], 0);
    }
    int tot = 0; for (int i = 0; i < 32; i++) tot += got[i];
    if (tot < 1) vh_trivial();
}
// -------------------------------------------------------------- idle
// in real time: the signal interrupts the idle scheduler
static int ik, is_, isends; static int ipfd[2]; static bool idone; static int64_t isl;
static void *ithread(void *a) { (void)a; for (int i = 0; i < isends; i++) { rsleep(i % 2 ? 300 : 2500); atomic_fetch_add(&asent[is_], 1); if (ik & 1) pthread_kill(mainth, is_); else kill(getpid(), is_); while (atomic_load(&aack[is_]) != atomic_load(&asent[is_])) rsleep(50); } return 0; }
static void isleeper(int argc, void *argv[]) { (void)argc; (void)argv; int64_t t = neco_now(); int r = neco_sleep(isl); if (r != NECO_OK) VIOL("sleep returned %d", r); if (neco_now() - t < isl) VIOL("a sleep was cut short by a signal"); }
static void ireader(int argc, void *argv[]) { (void)argc; (void)argv; char c; int r = neco_wait(ipfd[0], NECO_WAIT_READ); if (r != NECO_OK) VIOL("wait returned %d", r); if (read(ipfd[0], &c, 1) != 1) VIOL("a descriptor wait was ended by a signal"); if (!idone) VIOL("the wait ended too early"); }
static void imain(int argc, void *argv[]) {
    (void)argc; (void)argv; pthread_t t; neco_signal_watch(is_);
    if (ik & 2) neco_start(isleeper, 0);
    if (ik & 4) neco_start(ireader, 0);
    if (pthread_create(&t, 0, ithread, 0)) vh_error("thread");
    for (int i = 0; i < isends; i++) {
        int64_t t0 = vh_realtime(); int r = ik & 8 ? neco_signal_wait_dl(neco_now() + 100 * NECO_SECOND) : neco_signal_wait();
        vh_log(0, WAITE, is_, 0, r); if (r != is_) VIOL("signal_wait returned %d", r);
        if (vh_realtime() - t0 > 10 * NECO_SECOND) VIOL("the signal was delivered after %lld ms", (long long)((vh_realtime() - t0) / MS));
        atomic_fetch_add(&aack[is_], 1); vh_count("delivered_idle", 1);
    }
    pthread_join(t, 0); idone = true;
    if (ik & 4 && write(ipfd[1], "x", 1) != 1) vh_error("pipe");
}
static void one_idle(void) {
    ik = (int)vh_rn(16); is_ = SIGS[vh_rn(8)]; if (is_ == SIGPIPE) is_ = SIGALRM; isends = vh_range(1, 4); mainth = pthread_self(); idone = false; isl = vh_range(1, 12) * MS; atomic_store(&asent[is_], 0); atomic_store(&aack[is_], 0);
    if (vh_pipe(ipfd)) vh_error("pipe");
    if (neco_start(imain, 0)) vh_fatal("start");
    close(ipfd[0]); close(ipfd[1]);
}
// -------------------------------------------------------------- exit
// child programs; the expected ending of each is known
enum { X_UNWATCHED, X_UNWATCH, X_WENDED, X_WEXIT, X_WCANCEL, X_PENDUNWATCH, X_THREAD, X_WORKER, X_OTHERWATCH, X_WATCHED, X_TWOWATCH, X_NONMAIN, X_SLEEPING, X_TWICE, X_IGNORED, NX };
static int xk, xs;
static void xw(int argc, void *argv[]) { (void)argc; (void)argv; neco_signal_watch(xs); if (xk == X_WEXIT) neco_exit(); if (xk == X_WCANCEL) neco_sleep(NECO_SECOND); if (xk == X_TWOWATCH) { neco_sleep(20 * MS); } }
static void *xth(void *a) { (void)a; raise(xs); return 0; }
static void xmain(int argc, void *argv[]) {
    (void)argc; (void)argv; int o = xs == SIGUSR1 ? SIGUSR2 : SIGUSR1; pthread_t t;
    switch (xk) {
    case X_UNWATCHED: raise(xs); neco_sleep(MS); break;
    case X_UNWATCH: neco_signal_watch(xs); neco_signal_watch(xs); neco_signal_unwatch(xs); raise(xs); neco_sleep(MS); break;
    case X_WENDED: case X_WEXIT: neco_start(xw, 0); neco_sleep(MS); raise(xs); neco_sleep(MS); break;
    case X_WCANCEL: neco_start(xw, 0); neco_sleep(MS); neco_cancel(neco_lastid()); neco_sleep(MS); raise(xs); neco_sleep(MS); break;
    case X_PENDUNWATCH: neco_signal_watch(xs); raise(xs); neco_signal_unwatch(xs); neco_sleep(5 * MS); break;
    case X_THREAD: pthread_create(&t, 0, xth, 0); pthread_join(t, 0); rsleep(2000); neco_sleep(MS); break;
    case X_WORKER: neco_work(-1, bgsend, (void*)(intptr_t)xs); rsleep(2000); neco_sleep(MS); break;
    case X_OTHERWATCH: neco_signal_watch(o); raise(xs); neco_sleep(MS); break;
    case X_WATCHED: case X_TWICE: neco_signal_watch(xs); for (int i = 0; i <= (xk == X_TWICE); i++) { raise(xs); } for (int i = 0; i <= (xk == X_TWICE); i++) if (neco_signal_wait() != xs) _exit(60); if (neco_signal_wait_dl(vh_time() + MS) != NECO_TIMEDOUT) _exit(61); break;
    case X_TWOWATCH: neco_signal_watch(xs); neco_start(xw, 0); neco_signal_unwatch(xs); raise(xs); neco_sleep(5 * MS); neco_signal_watch(xs); if (neco_signal_wait_dl(vh_time() + MS) != xs) _exit(62); break; // the other coroutine still watched it
    case X_SLEEPING: neco_signal_watch(xs); { int64_t t0 = vh_time(); raise(xs); if (neco_sleep(3 * MS) != NECO_OK || vh_time() - t0 < 3 * MS) _exit(63); } if (neco_signal_wait() != xs) _exit(60); break;
    default: break;
    }
}
static void xnm(int argc, void *argv[]) { (void)argc; (void)argv; if (neco_signal_watch(xs) != NECO_PERM) _exit(64); if (neco_signal_unwatch(xs) != NECO_PERM) _exit(65); if (neco_signal_wait() != NECO_PERM) _exit(66); int bad[] = { 0, -1, 32, 33, 1000 }; for (int i = 0; i < 5; i++) if (neco_signal_watch(bad[i]) != NECO_INVAL || neco_signal_unwatch(bad[i]) != NECO_INVAL) _exit(67); }
static void *xnmt(void *a) { (void)a; struct sigaction c0, c1; sigaction(xs, 0, &c0); neco_start(xnm, 0); sigaction(xs, 0, &c1); if (c0.sa_handler != c1.sa_handler) _exit(68); return 0; }
static void one_exit(uint64_t seed) {
    uint64_t k = (seed - 1) % (NX * 8); xk = (int)(k / 8); xs = SIGS[k % 8];
    fflush(stdout); vh_log(xk, SEND, xs, 0, 0); vh_count("exit_programs", 1);
    pid_t p = fork(); if (p < 0) vh_error("fork");
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY); dup2(n, 2);
        vh_jitter = 4; vh_jitter_max = 20 * US;
        if (xk == X_NONMAIN) { pthread_t t; pthread_create(&t, 0, xnmt, 0); pthread_join(t, 0); _exit(0); }
        if (xk == X_IGNORED) { signal(xs, SIG_IGN); neco_start(xmain, 0); raise(xs); _exit(0); }
        neco_start(xmain, 0); _exit(0);
    }
    int st = 0; pid_t q; int64_t t0 = vh_realtime();
    while ((q = waitpid(p, &st, WNOHANG)) == 0) { rsleep(200); if (vh_realtime() - t0 > 15 * NECO_SECOND) { kill(p, SIGKILL); waitpid(p, &st, 0); VIOL("program %d with signal %d did not end", xk, xs); return; } }
    bool quiet = xk == X_WATCHED || xk == X_TWOWATCH || xk == X_NONMAIN || xk == X_SLEEPING || xk == X_TWICE || xk == X_IGNORED;
    int want = quiet || xs == SIGPIPE ? 0 : 128 + xs;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != want) VIOL("program %d with signal %d: expected exit status %d, got %s %d", xk, xs, want, WIFEXITED(st) ? "exit status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
}
static void one(uint64_t seed) {
    vh_opnames(names, NOPS); long l0 = vh_track_live(); int f0 = vh_nfds();
    if (!strcmp(vh_mode, "exit")) one_exit(seed); else if (!strcmp(vh_mode, "idle")) one_idle(); else one_sig();
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    if (vh_nfds() != f0) VIOL("%d descriptors leaked by the case", vh_nfds() - f0);
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
