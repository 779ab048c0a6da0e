// Several threads, each with a runtime of its own, in real time. Every thread's
// coroutines behave as if alone; identifiers are unique in the process; objects
// and coroutines of another runtime are refused without effect; what threads
// exchange through descriptors arrives. Modes: mt.
#include "vh.h"
#include <stdatomic.h>
#include <pthread.h>
#include <signal.h>
#include <sched.h>
#include <time.h>

enum { STARTED, ENDED, NOPS };
static const char *const names[] = {"started","ended"};
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
static void rsleep(long us) { struct timespec ts = { 0, us * 1000 }; __real_nanosleep(&ts, 0); }
#define NT 6
#define MAXIDS 4096
struct obj { neco_chan *ch; neco_gen *gen; neco_mutex *mu; neco_waitgroup *wg; neco_cond *cv; neco_stream *st; int64_t id; };
struct T {
    int me, runs, nco; uint64_t rng; char err[300]; int64_t *ids; int nids; long counts[12];
    // per runtime
    neco_chan *ch, *res; neco_mutex mu; neco_waitgroup wg; long sum, inmu, muvalue; int live; long worked; _Atomic long wsum; bool stop; int gone; int slept; uint64_t expected;
    struct obj pub; int64_t parked; int parkres; bool foreign; int lasterrbad;
    uint64_t randref[8], randgot[8]; int64_t rseed;
};
static struct T th[NT]; static int nt; static _Atomic(struct obj*) slot[NT]; static atomic_int users[NT]; static int pfd[NT][2]; static long pipebytes[NT]; static bool usepipes;
static atomic_int go;
static uint64_t tr(struct T *t) { t->rng = t->rng * 6364136223846793005ULL + 1442695040888963407ULL; uint64_t x = t->rng >> 11; return x ^ (x >> 29); }
static int trr(struct T *t, int lo, int hi) { return lo + (int)(tr(t) % (uint64_t)(hi - lo + 1)); }
#define BAD(t, ...) do { if (!(t)->err[0]) snprintf((t)->err, sizeof (t)->err, __VA_ARGS__); } while (0)
static void note(struct T *t) { if (t->nids < MAXIDS) t->ids[t->nids++] = neco_getid(); }
static void wfn(void *a) { struct T *t = a; atomic_fetch_add_explicit(&t->wsum, 1, memory_order_relaxed); }
static void genco(int argc, void *argv[]) { struct T *t = argv[0]; (void)argc; note(t); for (int i = 0; i < 5; i++) { int v = t->me * 100 + i; if (neco_gen_yield(&v)) return; } }
// refused: objects of another runtime
static void foreign(struct T *t, neco_chan *own, neco_mutex *mine, neco_cond *mycv, bool inrt) {
    int u = trr(t, 0, nt - 1); if (u == t->me) return;
    atomic_fetch_add(&users[u], 1); struct obj *o = atomic_load(&slot[u]);
    if (o) {
        uint64_t m = 0xBAD; int r; neco_chan *cs[2] = { own, o->ch }, *sc[2] = { o->ch, own }; int64_t D = trr(t, 0, 1) ? INT64_MAX : 1; int NF = inrt ? NECO_NOTFOUND : NECO_PERM;
#define P(x, want) do { r = (int)(x); if (r != (want)) BAD(t, "%s on an object of another runtime returned %d", #x, r); else t->counts[0]++; if (neco_lasterr() != r) BAD(t, #x ": last error %d", neco_lasterr()); } while (0)
        switch (trr(t, 0, 33)) {
        case 0: P(neco_chan_send(o->ch, &m), NECO_PERM); break;
        case 1: P(neco_chan_recv(o->ch, &m), NECO_PERM); break;
        case 2: P(neco_chan_tryrecv(o->ch, &m), NECO_PERM); break;
        case 3: P(neco_chan_close(o->ch), NECO_PERM); break;
        case 4: P(neco_chan_broadcast(o->ch, &m), NECO_PERM); break;
        case 5: P(neco_chan_retain(o->ch), NECO_PERM); P(neco_chan_release(o->ch), NECO_PERM); break;
        case 6: P(neco_chan_tryselectv(2, cs), NECO_PERM); break;
        case 7: P(neco_chan_case(o->ch, &m), NECO_PERM); break;
        case 8: P(neco_mutex_lock(o->mu), NECO_PERM); break;
        case 9: P(neco_mutex_trylock(o->mu), NECO_PERM); P(neco_mutex_tryrdlock(o->mu), NECO_PERM); break;
        case 10: P(neco_mutex_unlock(o->mu), NECO_PERM); P(neco_mutex_rdlock(o->mu), NECO_PERM); break;
        case 11: P(neco_waitgroup_add(o->wg, 1), NECO_PERM); P(neco_waitgroup_done(o->wg), NECO_PERM); break;
        case 12: P(neco_waitgroup_wait(o->wg), NECO_PERM); break;
        case 13: P(neco_cond_signal(o->cv), NECO_PERM); P(neco_cond_broadcast(o->cv), NECO_PERM); break;
        case 14: P(neco_cond_wait(o->cv, mine), NECO_PERM); P(neco_cond_wait(mycv, o->mu), NECO_PERM); break;
        case 15: P(neco_stream_read(o->st, &m, 8), NECO_PERM); P(neco_stream_write(o->st, &m, 8), NECO_PERM); break;
        case 16: P(neco_stream_close(o->st), NECO_PERM); P(neco_stream_flush(o->st), NECO_PERM); break;
        case 17: P(neco_stream_read_byte(o->st), NECO_PERM); P(neco_stream_unread_byte(o->st), NECO_PERM); P(neco_stream_readfull(o->st, &m, 8), NECO_PERM); break;
        case 18: P(neco_stream_buffered_read_size(o->st), NECO_PERM); P(neco_stream_buffered_write_size(o->st), NECO_PERM); break;
        case 19: P(neco_resume(o->id), NF); break;
        case 20: P(neco_cancel(o->id), NF); break;
        case 21: P(neco_join(o->id), inrt ? NECO_OK : NECO_PERM); break;
        case 22: { neco_gen *g = o->gen; P(neco_gen_next(g, &m), NECO_PERM); P(neco_gen_close(g), NECO_PERM); break; }
        case 24: P(neco_chan_send_dl(o->ch, &m, D), NECO_PERM); P(neco_chan_recv_dl(o->ch, &m, D), NECO_PERM); break;
        case 25: P(neco_chan_selectv(2, sc), NECO_PERM); P(neco_chan_selectv_dl(2, cs, D), NECO_PERM); break;
        case 26: P(neco_chan_select(2, own, o->ch), NECO_PERM); P(neco_chan_tryselect(1, o->ch), NECO_PERM); P(neco_chan_select_dl(D, 1, o->ch), NECO_PERM); break;
        case 27: P(neco_mutex_lock_dl(o->mu, D), NECO_PERM); P(neco_mutex_rdlock_dl(o->mu, D), NECO_PERM); break;
        case 28: P(neco_waitgroup_wait_dl(o->wg, D), NECO_PERM); P(neco_waitgroup_add(o->wg, -1), NECO_PERM); break;
        case 29: P(neco_cond_wait_dl(o->cv, mine, D), NECO_PERM); P(neco_cond_wait_dl(mycv, o->mu, D), NECO_PERM); break;
        case 30: P(neco_stream_read_dl(o->st, &m, 8, D), NECO_PERM); P(neco_stream_write_dl(o->st, &m, 8, D), NECO_PERM); P(neco_stream_readfull_dl(o->st, &m, 8, D), NECO_PERM); break;
        case 31: P(neco_stream_close_dl(o->st, D), NECO_PERM); P(neco_stream_flush_dl(o->st, D), NECO_PERM); P(neco_stream_read_byte_dl(o->st, D), NECO_PERM); break;
        case 32: P(neco_gen_next_dl(o->gen, &m, D), NECO_PERM); break;
        case 33: P(neco_cancel_dl(o->id, D), NF); P(neco_join_dl(o->id, D), inrt ? NECO_OK : NECO_PERM); break;
        case 23: { neco_gen *g = o->gen; P(neco_gen_retain(g), NECO_PERM); P(neco_gen_release(g), NECO_PERM); break; }
        }
    }
    atomic_fetch_sub(&users[u], 1);
}
// the same from a thread without a runtime
struct outside { struct T x; neco_chan *ch; };
static void outwork(void *a) { struct outside *q = a; neco_mutex mu; neco_cond cv; memset(&mu, 0, sizeof mu); memset(&cv, 0, sizeof cv); for (int i = 0; i < 4; i++) foreign(&q->x, q->ch, &mu, &cv, false); }
static neco_cond cvs[NT];
static void co(int argc, void *argv[]) {
    (void)argc; struct T *t = argv[0]; int k = (int)(intptr_t)argv[1]; note(t); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if (argv[2] != (void*)(intptr_t)(t->me * 1000 + k)) BAD(t, "wrong arguments");
    int n = trr(t, 2, 12);
    for (int i = 0; i < n; i++) {
        uint64_t m; int r;
        switch (trr(t, 0, 9)) {
        case 0: case 1: m = (uint64_t)trr(t, 1, 1000); t->expected += m; if ((r = neco_chan_send(t->ch, &m))) BAD(t, "send returned %d", r); t->counts[1]++; break;
        case 2: if ((r = neco_mutex_lock(&t->mu))) BAD(t, "lock returned %d", r); if (t->inmu) BAD(t, "mutex held twice"); t->inmu = 1; neco_yield(); t->muvalue++; if (!t->inmu) BAD(t, "mutex lost"); t->inmu = 0; if ((r = neco_mutex_unlock(&t->mu))) BAD(t, "unlock returned %d", r); t->counts[2]++; break;
        case 3: { int64_t t0 = neco_now(), d = trr(t, 1, 300) * US; r = neco_sleep(d); if (r && r != NECO_TIMEDOUT) BAD(t, "sleep returned %d", r); if (neco_now() - t0 < d) BAD(t, "slept too short"); t->counts[3]++; break; }
        case 4: t->worked++; if ((r = neco_work(trr(t, -1, 3), wfn, t))) BAD(t, "work returned %d", r); t->counts[4]++; break;
        case 5: { neco_gen *g; if ((r = neco_gen_start(&g, sizeof(int), genco, 1, t))) { BAD(t, "gen_start returned %d", r); break; } int v; for (int q = 0; q < 5; q++) { v = -1; if ((r = neco_gen_next(g, &v)) || v != t->me * 100 + q) BAD(t, "gen_next returned %d, value %d", r, v); } if (neco_gen_next(g, &v) != NECO_CLOSED) BAD(t, "gen end"); neco_gen_release(g); t->counts[5]++; break; }
        case 6: r = neco_chan_recv(0, 0); neco_yield(); if (trr(t, 0, 1)) { if (neco_lasterr() != NECO_OK) t->lasterrbad++; } else if (r != NECO_INVAL) BAD(t, "recv(NULL) returned %d", r); break;
        case 7:
#ifdef NECO_NOWORKERS
            if (1)
#else
            if (trr(t, 0, 3))
#endif
                foreign(t, t->ch, &t->mu, &cvs[t->me], true); else {
            struct outside *q = calloc(1, sizeof *q); q->x.me = trr(t, 0, 1) ? t->me : -1; q->x.rng = tr(t); q->ch = t->ch; t->counts[5]++;
            if ((r = neco_work(-1, outwork, q))) BAD(t, "work returned %d", r);
            if (q->x.err[0]) BAD(t, "without a runtime: %.200s", q->x.err);
            t->counts[0] += q->x.counts[0]; free(q); } break;
        case 8: if (usepipes) { int u = (t->me + 1) % nt; char b[300]; int l = trr(t, 1, 300); memset(b, 'a' + t->me, sizeof b); if (neco_write(pfd[u][1], b, (size_t)l) != l) BAD(t, "write to the pipe failed"); pipebytes[u] += l; t->counts[6]++; } break;
        default: if ((r = neco_yield())) BAD(t, "yield returned %d", r);
        }
    }
    if ((neco_waitgroup_done(&t->wg))) BAD(t, "done");
    t->gone++;
}
static void drain(int argc, void *argv[]) { (void)argc; struct T *t = argv[0]; note(t); uint64_t m; int r; while (!(r = neco_chan_recv(t->ch, &m))) { t->sum += (long)m; } if (r != NECO_CLOSED) BAD(t, "recv returned %d", r); }
static void parked(int argc, void *argv[]) { (void)argc; struct T *t = argv[0]; note(t); t->pub.id = neco_getid(); t->parkres = 99; neco_setcanceltype(NECO_CANCEL_INLINE, 0); t->parkres = neco_suspend(); }
static void idlegen(int argc, void *argv[]) { (void)argc; (void)argv; uint64_t v = 5; neco_gen_yield(&v); }
static void randco(int argc, void *argv[]) { (void)argc; struct T *t = argv[0]; note(t); for (int i = 0; i < 8; i++) { neco_rand(&t->randgot[i], 8, NECO_PRNG); neco_yield(); } }
static void rtmain(int argc, void *argv[]) {
    (void)argc; struct T *t = argv[0]; int r; note(t); t->sum = 0; t->expected = 0; t->gone = 0; t->worked = 0; atomic_store_explicit(&t->wsum, 0, memory_order_relaxed); t->inmu = 0; int sp[2];
    if ((r = neco_chan_make(&t->ch, 8, (size_t)trr(t, 0, 3)))) BAD(t, "chan_make %d", r); if (neco_mutex_init(&t->mu) || neco_waitgroup_init(&t->wg) || neco_cond_init(&cvs[t->me])) BAD(t, "init");
    if (neco_waitgroup_add(&t->wg, t->nco)) BAD(t, "add");
    // same seed: same numbers, whatever the other threads draw
    neco_rand_setseed(t->rseed, 0); for (int i = 0; i < 8; i++) neco_rand(&t->randref[i], 8, NECO_PRNG);
    neco_rand_setseed(t->rseed, 0); neco_start(randco, 1, t); int64_t rid = neco_lastid();
    neco_start(drain, 1, t); int64_t did = neco_lastid();
    if (vh_spair(sp)) vh_error("socketpair"); neco_stream *st = 0; neco_gen *g = 0; if (neco_stream_make_buffered(&st, sp[0]) || neco_gen_start(&g, 8, idlegen, 0)) BAD(t, "stream or generator"); if (neco_stream_write(st, "12345", 5) != 5) BAD(t, "stream_write");
    neco_start(parked, 1, t);
    t->pub.ch = t->ch; t->pub.gen = g; t->pub.mu = &t->mu; t->pub.wg = &t->wg; t->pub.cv = &cvs[t->me]; t->pub.st = st; atomic_store(&slot[t->me], &t->pub);
    for (int i = 0; i < t->nco; i++) if ((r = neco_start(co, 3, t, (void*)(intptr_t)i, (void*)(intptr_t)(t->me * 1000 + i)))) BAD(t, "start %d", r);
    if ((r = neco_waitgroup_wait(&t->wg))) BAD(t, "waitgroup %d", r);
    if (t->gone < t->nco - 1) BAD(t, "waitgroup released too early");
    atomic_store(&slot[t->me], NULL); while (atomic_load(&users[t->me])) neco_sleep(50 * US);
    if (t->parkres != 99) BAD(t, "the suspended coroutine was woken by another thread: %d", t->parkres);
    if ((r = neco_resume(t->pub.id))) BAD(t, "resume returned %d", r);
    uint64_t v = 0; if (neco_gen_next(g, &v) || v != 5) BAD(t, "the generator was changed by another thread"); neco_gen_release(g);
    if (neco_stream_buffered_write_size(st) != 5) BAD(t, "the stream was changed by another thread"); neco_stream_close(st); char b[8]; if (read(sp[1], b, 8) != 5) BAD(t, "stream bytes"); close(sp[1]);
    if ((r = neco_join(rid)) && r != NECO_NOTFOUND) BAD(t, "join %d", r);
    if (memcmp(t->randref, t->randgot, sizeof t->randref)) BAD(t, "the random sequence was disturbed by another thread");
    if ((r = neco_chan_close(t->ch))) BAD(t, "close %d", r); if ((r = neco_join(did)) && r != NECO_NOTFOUND) BAD(t, "join %d", r);
    if (t->sum != (long)t->expected) BAD(t, "sent a sum of %ld, received %ld", (long)t->expected, t->sum);
    if (atomic_load_explicit(&t->wsum, memory_order_relaxed) != t->worked) BAD(t, "%ld works of %ld ran", atomic_load_explicit(&t->wsum, memory_order_relaxed), t->worked);
    neco_chan_release(t->ch);
    if (neco_signal_watch(SIGUSR1) != NECO_PERM) BAD(t, "signals on another thread were not refused");
}
static void preader(int argc, void *argv[]) { // takes what the other threads write, until they have ended
    (void)argc; struct T *t = argv[0]; note(t); neco_setcanceltype(NECO_CANCEL_INLINE, 0); char b[257]; int from = (t->me + nt - 1) % nt;
    while (1) { ssize_t n = neco_read(pfd[t->me][0], b, sizeof b); if (n == 0) break; if (n < 0) { BAD(t, "reading the pipe: last error %d", neco_lasterr()); break; } for (ssize_t i = 0; i < n; i++) if (b[i] != 'a' + from) { BAD(t, "wrong byte in the pipe"); break; } t->counts[7] += n; }
}
static void *thread(void *arg) {
    struct T *t = arg; while (!atomic_load_explicit(&go, memory_order_relaxed)) sched_yield();
    if (neco_getid() != NECO_PERM) BAD(t, "a thread has the runtime of another one");
    for (int i = 0; i < t->runs; i++) { t->rseed = (int64_t)tr(t); int r = neco_start(rtmain, 1, t); if (r) BAD(t, "start returned %d", r); if (neco_getid() != NECO_PERM || neco_yield() != NECO_PERM) BAD(t, "a runtime is left"); }
    if (usepipes) { close(pfd[(t->me + 1) % nt][1]); int r = neco_start(preader, 1, t); if (r) BAD(t, "start returned %d", r); }
    return 0;
}
static int cmp(const void *a, const void *b) { int64_t x = *(const int64_t*)a, y = *(const int64_t*)b; return x < y ? -1 : x > y; }
static void one(uint64_t seed) {
    vh_virtual = false; (void)seed; vh_opnames(names, NOPS); long l0 = vh_track_live(); int f0 = vh_nfds(), th0 = vh_nthreads();
    nt = vh_range(2, NT); usepipes = vh_chance(1, 2); atomic_store(&go, 0); pthread_t pt[NT]; static int64_t idbuf[NT][MAXIDS], all[NT * MAXIDS]; static bool mainrt; mainrt = vh_chance(1, 2);
    for (int i = 0; i < nt; i++) { struct T *t = &th[i]; memset((void*)t, 0, sizeof *t); t->me = i; t->runs = vh_range(1, 4); t->nco = vh_range(1, 12); t->rng = vh_rand(); t->ids = idbuf[i]; atomic_store(&slot[i], NULL); atomic_store(&users[i], 0); pipebytes[i] = 0; if (usepipes && vh_pipe(pfd[i])) vh_error("pipe"); vh_log(i, STARTED, t->runs, t->nco, 0); }
    for (int i = 0; i < nt; i++) if (pthread_create(&pt[i], 0, thread, &th[i])) vh_error("thread");
    atomic_store(&go, 1);
    for (int i = 0; i < nt; i++) pthread_join(pt[i], 0);
    int n = 0;
    for (int i = 0; i < nt; i++) {
        struct T *t = &th[i]; if (t->err[0]) VIOL("thread %d: %s", i, t->err); if (usepipes) { close(pfd[i][0]); if (t->counts[7] != pipebytes[i]) VIOL("%ld bytes written to the pipe, %ld read", pipebytes[i], t->counts[7]); }
        memcpy(all + n, t->ids, (size_t)t->nids * 8); n += t->nids; vh_count("runtimes", t->runs); vh_count("refused_foreign", t->counts[0]); vh_count("messages", t->counts[1]); vh_count("locks", t->counts[2]); vh_count("works", t->counts[4]); vh_count("pipe_bytes", t->counts[7]); vh_hash((uint64_t)t->rng);
        for (int k = 0; k < t->nids; k++) if (t->ids[k] <= 0) VIOL("identifier %lld", (long long)t->ids[k]);
    }
    qsort(all, (size_t)n, 8, cmp); for (int i = 1; i < n; i++) if (all[i] == all[i-1]) { VIOL("two coroutines had the identifier %lld", (long long)all[i]); break; }
    vh_count("ids", n);
    int k2 = 0; for (int k = 0; k < 5000 && (k2 = vh_nthreads()) > th0; k++) rsleep(1000);
    if (k2 > th0) VIOL("%d threads are left", k2 - th0);
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    int f1 = vh_nfds(); if (f1 != f0) VIOL("%d descriptors leaked by the case", f1 - f0);
}
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); vh_track_install(); return vh_run(argc, argv, one); }
