// Background work: every submitted work runs exactly once, off the scheduler's
// thread, outside of any coroutine, completely before neco_work returns; it
// cannot be canceled; work with one pin never overlaps; a thread that cannot be
// created does not lose it. Modes: work.
#include "vh.h"
#include <stdatomic.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <time.h>

enum { SUB, RUN, DONE, CANC, TICK, NOPS };
static const char *const names[] = {"submit","ran","done","cancel","tick"};
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v);
static int failcreate, createfails; static __thread bool casethr;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v) {
    if (casethr) {
        if (failcreate > 0) { failcreate--; createfails++; return EAGAIN; }
    }
    return __real_pthread_create(t, a, f, v);
}
// the worker threads' patience while there is nothing to do is shortened to
// idleus microseconds (-1: as it is), so that they end and start again often
static atomic_long idleus = -1, idleends;
int __real_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    long us = atomic_load_explicit(&idleus, memory_order_relaxed);
    if (casethr || us < 0) return __real_pthread_cond_timedwait(c, m, ts);
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += us * 1000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    int ret = __real_pthread_cond_timedwait(c, m, t.tv_sec < ts->tv_sec || (t.tv_sec == ts->tv_sec && t.tv_nsec < ts->tv_nsec) ? &t : ts);
    if (ret == ETIMEDOUT) atomic_fetch_add_explicit(&idleends, 1, memory_order_relaxed);
    return ret;
}
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
static void rsleep(long us) { struct timespec ts = { 0, us * 1000 }; __real_nanosleep(&ts, 0); }

#define MAGIC 0x5AFE5AFEu
struct item {
    uint32_t magic; atomic_int runs; atomic_bool finished; int ctx[6]; long tid; long spin; bool gate; int64_t pin; int me;
    unsigned char in[64], out[64]; int seq, ranseq;
};
static atomic_int ran[64];
static atomic_int inpin[64], overlap, badmagic, running, maxrunning; static atomic_bool gateopen; static long maintid; static _Atomic int64_t someid;
static int nlive, totalworks; static int ticks;
static void work(void *udata) {
    struct item *it = udata;
    if (it->magic != MAGIC) { atomic_fetch_add_explicit(&badmagic, 1, memory_order_relaxed); return; }
    atomic_fetch_add_explicit(&it->runs, 1, memory_order_relaxed);
    int r = atomic_fetch_add_explicit(&running, 1, memory_order_relaxed) + 1; int m = atomic_load_explicit(&maxrunning, memory_order_relaxed); while (r > m && !atomic_compare_exchange_weak_explicit(&maxrunning, &m, r, memory_order_relaxed, memory_order_relaxed)) { }
    if (it->pin >= 0 && it->pin < 64 && atomic_fetch_add_explicit(&inpin[it->pin], 1, memory_order_relaxed) != 0) atomic_fetch_add_explicit(&overlap, 1, memory_order_relaxed);
    if (it->pin >= 0 && it->pin < 64) it->ranseq = atomic_fetch_add_explicit(&ran[it->pin], 1, memory_order_relaxed);
    it->tid = syscall(SYS_gettid);
    // no runtime here
    int64_t someid_ = atomic_load_explicit(&someid, memory_order_relaxed); it->ctx[0] = neco_yield(); it->ctx[1] = (int)neco_getid(); it->ctx[2] = neco_resume(someid_); it->ctx[3] = neco_cancel(someid_); it->ctx[4] = neco_sleep(1); it->ctx[5] = neco_join(someid_);
    if (it->gate) while (!atomic_load_explicit(&gateopen, memory_order_relaxed)) rsleep(20);
    if (it->spin > 0) { if (it->spin % 2) rsleep(it->spin); else for (volatile long i = 0; i < it->spin * 50; i++) { } if (it->spin % 3 == 0) sched_yield(); }
    for (int i = 0; i < 64; i++) it->out[i] = (unsigned char)(it->in[i] ^ (0x5A + i));
    if (it->pin >= 0 && it->pin < 64) atomic_fetch_sub_explicit(&inpin[it->pin], 1, memory_order_relaxed);
    atomic_fetch_sub_explicit(&running, 1, memory_order_relaxed);
    atomic_store_explicit(&it->finished, true, memory_order_relaxed);
}
#define NCO 48
static int64_t ids[NCO]; static int cansent[NCO], cangot[NCO]; static bool chaosstop; static bool asyncw[NCO]; static int handler[NCO];
static int nworks[NCO], npins; static bool stopticks, fifo;
static int nsub[64];
static int ngated;
static void onexit_(void *arg) { int me = (int)(intptr_t)arg; handler[me]++; }
static void wco(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; ids[me] = neco_getid(); atomic_store_explicit(&someid, ids[me], memory_order_relaxed);
    neco_setcanceltype(asyncw[me] ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    neco_cleanup_push(onexit_, (void*)(intptr_t)me);
    for (int k = 0; k < nworks[me]; k++) {
        struct item it; memset((void*)&it, 0, sizeof it); it.magic = MAGIC; it.me = me;
        for (int i = 0; i < 64; i++) it.in[i] = (unsigned char)vh_rand();
        it.spin = vh_chance(1, 3) ? 0 : vh_chance(1, 20) ? vh_range(1, 1500) : vh_range(1, 150); it.gate = vh_chance(1, 25);
        it.pin = vh_chance(1, 3) ? -1 : vh_chance(1, 8) ? (int64_t)vh_rand() : (int64_t)vh_rn((uint32_t)npins);
        if (it.pin > 63 && vh_chance(1, 2)) it.pin = -it.pin;
        if (it.gate) ngated++;
        it.seq = it.pin >= 0 && it.pin < 64 ? nsub[it.pin]++ : 0;
        vh_log(me, SUB, 0, it.pin < 64 ? it.pin : 64, it.gate); totalworks++;
        int ret = neco_work(it.pin, work, (void*)&it); int le = neco_lasterr();
        vh_log(me, DONE, 0, 0, ret);
        if (ret != NECO_OK || le != NECO_OK) VIOL("work returned %d, last error %d", ret, le);
        int runs = atomic_load_explicit(&it.runs, memory_order_relaxed); bool fin = atomic_load_explicit(&it.finished, memory_order_relaxed);
        if (!fin) vh_fatal("work returned before the work function had finished (runs %d)", runs);
        if (runs != 1) vh_fatal("work ran %d times", runs);
        for (int i = 0; i < 64; i++) if (it.out[i] != (unsigned char)(it.in[i] ^ (0x5A + i))) { VIOL("the result of the work is not complete"); break; }
        if (it.tid == maintid) VIOL("the work ran on the thread of the scheduler");
        static const char *const cn[] = {"yield","getid","resume","cancel","sleep","join"};
        for (int i = 0; i < 6; i++) if (it.ctx[i] != NECO_PERM) VIOL("neco_%s inside the work function returned %d", cn[i], it.ctx[i]);
        if (it.gate) { ngated--; }
if (fifo && it.pin >= 0 && it.pin < 64) { vh_count("pin_order_checked", 1); if (it.seq != it.ranseq) VIOL("work %d for pin %d ran as number %d", it.seq, (int)it.pin, it.ranseq); }
        it.magic = 0xDEAD;
        if (vh_chance(1, 10)) rsleep(vh_range(1, 400));
        if (vh_chance(1, 3)) {
            // the cancelations sent meanwhile are pending: the next cancelable operation reports it
            int pend = cansent[me] - cangot[me];
            int r = neco_sleep(vh_range(1, 50) * US);
            if (r == NECO_CANCELED) { if (cansent[me] == cangot[me]) VIOL("canceled without a cancelation"); cangot[me] = cansent[me]; vh_count("cancels_after_work", 1); }
            else if (pend > 0) { VIOL("a cancelation sent during the work was lost: sleep returned %d", r); cangot[me] = cansent[me]; }
        }
    }
    neco_cleanup_pop(0);
    handler[me] = 100; ids[me] = 0; nlive--;
}
static void chaos(int argc, void *argv[]) {
    (void)argc; int n = (int)(intptr_t)argv[0]; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    while (!chaosstop) {
        if (vh_chance(1, 2)) neco_sleep(vh_range(1, 400) * US); else neco_yield();
        if (vh_chance(1, 4)) rsleep(20);
        int v = (int)vh_rn((uint32_t)n);
        if (ids[v] && handler[v] == 0 && !chaosstop) { cansent[v]++; vh_log(v, CANC, 0, 0, 0); int r = neco_cancel(ids[v]); if (r != NECO_OK && r != NECO_NOTFOUND) VIOL("cancel returned %d", r); vh_count("cancels", 1); }
    }
}
static void ticker(int argc, void *argv[]) {
    (void)argc; (void)argv;
    // keeps running while works are in progress; opens the gate only from here
    while (!stopticks) {
        ticks++;
        if (ngated > 0 && ticks % 3 == 0) { atomic_store_explicit(&gateopen, true, memory_order_relaxed); } else if (ngated == 0) atomic_store_explicit(&gateopen, false, memory_order_relaxed);
        if (vh_chance(1, 2)) neco_yield(); else neco_sleep(vh_range(1, 100) * US);
    }
}
static void wmain(int argc, void *argv[]) {
    (void)argc; (void)argv; void **av = argv[0]; int n = (int)(intptr_t)av[0]; bool can = av[1] != 0;
    neco_start(ticker, 0);
    nlive = n;
    for (int i = 0; i < n; i++) { neco_start(wco, 1, (void*)(intptr_t)i); if (vh_chance(1, 3)) neco_yield(); }
    if (can) neco_start(chaos, 1, (void*)(intptr_t)n);
    int64_t t0 = vh_realtime();
    while (1) {
        int live = 0; for (int i = 0; i < n; i++) if (handler[i] == 0) live++;
        if (!live) break;
        neco_sleep(500 * US); rsleep(20);
        if (vh_realtime() - t0 > 15 * NECO_SECOND) vh_fatal("%d coroutines are still waiting for background work after 15 s", live);
    }
    chaosstop = true; stopticks = true; atomic_store_explicit(&gateopen, true, memory_order_relaxed);
    for (int i = 0; i < n; i++) if (handler[i] != 100 && !(asyncw[i] && handler[i] == 1)) VIOL("coroutine %d ended with handler count %d", i, handler[i]);
}
// Works without a pin take turns on the threads: a few given at once run at once.
static atomic_int met; static int nmeet; static atomic_bool missed;
static void meetwork(void *u) {
    (void)u; atomic_fetch_add_explicit(&met, 1, memory_order_relaxed);
    for (int k = 0; atomic_load_explicit(&met, memory_order_relaxed) < nmeet; k++) { if (k > 60000) { atomic_store_explicit(&missed, true, memory_order_relaxed); return; } rsleep(100); }
}
static void nowork(void *u) { (void)u; }
static void meetco(int argc, void *argv[]) { (void)argc; (void)argv; if (neco_work(-1 - (int64_t)vh_rn(3), meetwork, 0) != NECO_OK) VIOL("work failed"); }
static void pinco(int argc, void *argv[]) { (void)argc; if (neco_work(*(int64_t*)argv[0], nowork, 0) != NECO_OK) VIOL("work failed"); }
static void meetmain(int argc, void *argv[]) {
    (void)argc; (void)argv; int64_t id[8];
    for (int r = vh_range(1, 3); r > 0; r--) {
        for (int k = vh_rn(5); k > 0; k--) if (neco_work(vh_chance(1, 2) ? -1 : (int64_t)vh_rn(100), nowork, 0) != NECO_OK) VIOL("work failed");
        nmeet = vh_range(2, 4); atomic_store_explicit(&met, 0, memory_order_relaxed);
        int64_t pin = vh_rn(64); bool mixed = vh_chance(1, 2); int np = 0; int64_t pid[16];
        for (int i = 0; i < nmeet; i++) {
            if (mixed) for (int k = vh_rn(4); k > 0; k--) { neco_start(pinco, 1, &pin); pid[np++] = neco_lastid(); }
            neco_start(meetco, 0); id[i] = neco_lastid();
        }
        for (int i = 0; i < np; i++) neco_join(pid[i]);
        for (int i = 0; i < nmeet; i++) neco_join(id[i]);
        vh_log(0, SUB, 1, nmeet, 0); vh_count("meetings", 1);
        if (atomic_load_explicit(&missed, memory_order_relaxed)) vh_fatal("%d works without a pin did not run at the same time", nmeet);
    }
}
static void one(uint64_t seed) {
    if (seed % 16 == 3) { long lv = vh_track_live(); atomic_store_explicit(&idleus, -1, memory_order_relaxed); vh_opnames(names, NOPS); maintid = syscall(SYS_gettid); casethr = true; failcreate = 0; if (neco_start(meetmain, 0)) vh_fatal("start"); if (vh_track_live() != lv) VIOL("blocks leaked"); return; }
    (void)seed; vh_opnames(names, NOPS); long l0 = vh_track_live(); int f0 = vh_nfds(), th0 = vh_nthreads(); casethr = true; maintid = syscall(SYS_gettid);
    int n = vh_chance(1, 6) ? vh_range(33, NCO) : vh_range(1, 12); bool can = vh_chance(1, 2); npins = vh_range(1, 6); 
    for (int i = 0; i < NCO; i++) { ids[i] = 0; cansent[i] = cangot[i] = 0; handler[i] = 0; asyncw[i] = can && vh_chance(1, 3); nworks[i] = n > 20 ? vh_range(1, 3) : vh_range(1, 8); }
    for (int i = 0; i < 64; i++) { atomic_store_explicit(&ran[i], 0, memory_order_relaxed); nsub[i] = 0; atomic_store_explicit(&inpin[i], 0, memory_order_relaxed); }
    chaosstop = stopticks = false; ngated = 0; totalworks = 0; ticks = 0; atomic_store_explicit(&gateopen, false, memory_order_relaxed);
    failcreate = vh_chance(1, 3) ? vh_range(1, 6) : 0; int cf0 = createfails;
    int idle = vh_range(0, 3); long ie0 = atomic_load_explicit(&idleends, memory_order_relaxed);
    atomic_store_explicit(&idleus, idle == 0 ? -1 : idle == 1 ? vh_range(0, 20) : idle == 2 ? vh_range(0, 300) : vh_range(0, 3000), memory_order_relaxed);
    // no full queue and no failing thread: works for one pin run in the order of their submission
    fifo = n <= 12 && failcreate == 0;
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, wmain, (void*[]){ (void*)(intptr_t)n, (void*)(intptr_t)can })) vh_fatal("start failed");
    failcreate = 0;
    if (atomic_load_explicit(&overlap, memory_order_relaxed)) vh_fatal("works with the same pin ran at the same time");
    if (atomic_load_explicit(&badmagic, memory_order_relaxed)) vh_fatal("a work function ran with dead data");
    if (atomic_load_explicit(&running, memory_order_relaxed)) vh_fatal("a work function is still running after the runtime ended");
    int nt = 0; for (int k = 0; k < 5000 && (nt = vh_nthreads()) > th0; k++) rsleep(1000);
    if (nt > th0) VIOL("%d threads are left after the runtime ended", nt - th0);
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    if (vh_nfds() != f0) VIOL("%d descriptors leaked by the case", vh_nfds() - f0);
    vh_count("idle_ends", atomic_load_explicit(&idleends, memory_order_relaxed) - ie0); vh_count("works", totalworks); vh_count("create_failures", createfails - cf0);
    if (totalworks < 2) vh_trivial();
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
