#include "vh.h"
#include <time.h>
#include <pthread.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <dirent.h>
#include <sched.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <malloc.h>
#include <sys/syscall.h>

// ---------------------------------------------------------------- random
static uint64_t rs;
static uint64_t sm(uint64_t *s) {
    uint64_t z = (*s += UINT64_C(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
    return z ^ (z >> 31);
}
uint64_t vh_rand(void) { return sm(&rs); }
uint32_t vh_rn(uint32_t n) { return n ? (uint32_t)((vh_rand() >> 11) % n) : 0; }

static uint64_t jrs;
uint64_t vh_rng_get(void) { return rs; }
void vh_rng_set(uint64_t v) { rs = v; jrs = vh_seed ^ UINT64_C(0xABCDEF0123456789); }
// ---------------------------------------------------------------- state
bool vh_virtual = true;
int64_t vh_now;
int vh_jitter;
int64_t vh_jitter_max = 1000000;
static long clockcalls, clockcalls_max = 200L*1000*1000;
int vh_nev; struct vh_ev *vh_evs; static int evcap;
int vh_nviol; uint64_t vh_seed; const char *vh_mode = "";
static uint64_t chash; static bool ctrivial;
static const char *const *opnames; static int nopnames;
static int gargc; static char **gargv;
static char *progress;
static long totevents, totcases, totclock;
static const char *dumpdir;
static int maxviol = 5;
static __thread bool is_case_thread;

struct ctr { const char *name; long n; };
static struct ctr ctrs[512]; static int nctrs;
static pthread_mutex_t ctrmu = PTHREAD_MUTEX_INITIALIZER;
void vh_count(const char *name, long n) {
    pthread_mutex_lock(&ctrmu);
    int i = 0;
    for (; i < nctrs; i++) if (ctrs[i].name == name || !strcmp(ctrs[i].name, name)) break;
    if (i == nctrs && nctrs < 512) { ctrs[nctrs].name = strdup(name); ctrs[nctrs].n = 0; nctrs++; }
    if (i < 512) ctrs[i].n += n;
    pthread_mutex_unlock(&ctrmu);
}
static char *samples[4]; static int nsamples;
void vh_sample(const char *fmt, ...) {
    if (nsamples >= 4) return;
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    samples[nsamples++] = strdup(buf);
}

// ---------------------------------------------------------------- real fns
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
int __real_epoll_wait(int epfd, struct epoll_event *evs, int n, int timeout);

int64_t vh_realtime(void) {
    struct timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * INT64_C(1000000000) + ts.tv_nsec;
}
int64_t vh_time(void) { return vh_virtual ? vh_now : vh_realtime(); }

static _Atomic int64_t case_started_; static int64_t caselimit = INT64_C(20000000000);
#define case_started_set(v) atomic_store_explicit(&case_started_, (v), memory_order_relaxed)
static void out(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    fflush(stdout);
    if (write(1, buf, (size_t)n) < 0) { }
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if (!vh_virtual || id != CLOCK_MONOTONIC || !is_case_thread) return __real_clock_gettime(id, ts);
    clockcalls++;
    if (clockcalls > clockcalls_max) {
        out("HANG seed=%llu livelock: %ld clock reads\n", (unsigned long long)vh_seed, clockcalls);
        _exit(41);
    }
    vh_now += 1;
    if (vh_jitter && sm(&jrs) % (uint64_t)vh_jitter == 0) vh_now += (int64_t)(sm(&jrs) % (uint64_t)vh_jitter_max);
    ts->tv_sec = vh_now / 1000000000; ts->tv_nsec = vh_now % 1000000000;
    return 0;
}
int64_t vh_pend[VH_NPEND]; static long pendchecks;
static void idle(int64_t d) { // the runtime sleeps for d
    int64_t tol = 2 * MS + (vh_jitter ? 8 * vh_jitter_max : 0);
    for (int k = 0; k < VH_NPEND; k++) if (vh_pend[k] != INT64_MAX) {
        pendchecks++;
        if (vh_pend[k] < vh_now - tol) { VIOL("the runtime sleeps, but coroutine %d is still in an operation whose deadline passed %lld ns ago", k, (long long)(vh_now - vh_pend[k])); vh_pend[k] = INT64_MAX; }
        else if (vh_pend[k] >= vh_now && vh_now + d > vh_pend[k] + tol) { VIOL("the runtime sleeps %lld ns past the deadline of coroutine %d", (long long)(vh_now + d - vh_pend[k]), k); vh_pend[k] = INT64_MAX; }
    }
    vh_now += d;
}
int __wrap_nanosleep(const struct timespec *req, struct timespec *rem) {
    if (!vh_virtual || !is_case_thread) return __real_nanosleep(req, rem);
    idle(req->tv_sec * INT64_C(1000000000) + req->tv_nsec);
    return 0;
}
int __real_clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem);
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (!vh_virtual || !is_case_thread) return __real_clock_nanosleep(id, flags, req, rem);
    int64_t t = req->tv_sec * INT64_C(1000000000) + req->tv_nsec;
    if (flags & TIMER_ABSTIME) t = t > vh_now ? t - vh_now : 0;
    idle(t); return 0;
}
int __wrap_usleep(useconds_t us) {
    struct timespec ts = { us / 1000000, (long)(us % 1000000) * 1000 };
    return __wrap_nanosleep(&ts, 0);
}
int __wrap_epoll_wait(int epfd, struct epoll_event *evs, int n, int timeout) {
    if (!vh_virtual || !is_case_thread) return __real_epoll_wait(epfd, evs, n, timeout);
    int r = __real_epoll_wait(epfd, evs, n, 0);
    if (r == 0) {
        if (timeout > 0) idle((int64_t)timeout * 1000000);
        else vh_now += 1000; // sub-millisecond spin
    }
    return r;
}
int __real_epoll_pwait(int epfd, struct epoll_event *evs, int n, int timeout, const sigset_t *m);
int __wrap_epoll_pwait(int epfd, struct epoll_event *evs, int n, int timeout, const sigset_t *m) {
    if (m || !vh_virtual || !is_case_thread) return __real_epoll_pwait(epfd, evs, n, timeout, m);
    return __wrap_epoll_wait(epfd, evs, n, timeout);
}

// ---------------------------------------------------------------- events
void vh_opnames(const char *const *names, int n) { opnames = names; nopnames = n; }
void vh_hash(uint64_t v) { chash = (chash ^ v) * UINT64_C(0x100000001b3); chash ^= chash >> 29; }
int vh_log(int co, int op, int obj, int64_t a, int64_t r) {
    if (vh_nev == evcap) {
        evcap = evcap ? evcap * 2 : 4096;
        vh_evs = realloc(vh_evs, sizeof(struct vh_ev) * (size_t)evcap);
    }
    vh_evs[vh_nev] = (struct vh_ev){ vh_time(), co, (int16_t)op, (int16_t)obj, a, r };
    vh_hash((uint64_t)((co+1) * 1000003 + op * 1009 + obj * 31) ^ ((uint64_t)(a) << 20) ^ ((uint64_t)(r+64) << 40));
    return vh_nev++;
}
void vh_trivial(void) { ctrivial = true; }

static void dump_events(FILE *f, int last) {
    int from = vh_nev > last ? vh_nev - last : 0;
    for (int i = from; i < vh_nev; i++) {
        struct vh_ev *e = &vh_evs[i];
        fprintf(f, "%6d t=%lld co=%d %s obj=%d a=%lld r=%lld\n", i, (long long)e->t, e->co,
            e->op >= 0 && e->op < nopnames ? opnames[e->op] : "?", e->obj, (long long)e->a, (long long)e->r);
    }
}
static void dump_case(void) {
    if (!dumpdir) return;
    char path[512]; snprintf(path, sizeof path, "%s.events", dumpdir);
    FILE *f = fopen(path, "a");
    if (f) { fprintf(f, "# seed %llu\n", (unsigned long long)vh_seed); dump_events(f, 400); fclose(f); }
}
void vh_viol(const char *fn, int line, const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    out("VIOL seed=%llu at=%s:%d ev=%d t=%lld :: %s\n", (unsigned long long)vh_seed, fn, line, vh_nev, (long long)vh_time(), buf);
    if (vh_nviol == 0) dump_case();
    vh_nviol++;
    if (vh_nviol >= maxviol) { out("TOOMANY\n"); _exit(1); }
}
void vh_fatal(const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    out("VIOL seed=%llu at=fatal:0 ev=%d t=%lld :: %s\n", (unsigned long long)vh_seed, vh_nev, (long long)vh_time(), buf);
    dump_case();
    _exit(1);
}
void vh_error(const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    out("HARNESS-ERROR seed=%llu %s\n", (unsigned long long)vh_seed, buf);
    _exit(77);
}

// ---------------------------------------------------------------- options
bool vh_optb(const char *name) {
    for (int i = 1; i < gargc; i++) if (!strncmp(gargv[i], "--", 2) && !strcmp(gargv[i]+2, name)) return true;
    return false;
}
long vh_opti(const char *name, long def) {
    for (int i = 1; i + 1 < gargc; i++) if (!strncmp(gargv[i], "--", 2) && !strcmp(gargv[i]+2, name)) return strtol(gargv[i+1], 0, 0);
    return def;
}
static const char *opts(const char *name, const char *def) {
    for (int i = 1; i + 1 < gargc; i++) if (!strncmp(gargv[i], "--", 2) && !strcmp(gargv[i]+2, name)) return gargv[i+1];
    return def;
}

// ---------------------------------------------------------------- watchdog
void vh_pet(void) { case_started_set(vh_realtime()); }
static void *watchdog(void *arg) {
    (void)arg;
    while (1) {
        struct timespec ts = { 0, 200000000 };
        __real_nanosleep(&ts, 0);
        int64_t s = atomic_load_explicit(&case_started_, memory_order_relaxed);
        if (s && vh_realtime() - s > caselimit) {
            out("HANG seed=%llu no progress for %lld s\n", (unsigned long long)vh_seed, (long long)(caselimit/1000000000));
            _exit(40);
        }
    }
    return 0;
}

// ---------------------------------------------------------------- allocator
// Every block is registered in an open addressing set: catches double and wild
// frees, and counts live blocks.
static pthread_mutex_t tmu = PTHREAD_MUTEX_INITIALIZER;
static void **tset; static size_t tcap, tcount, tused; static long ttotal;
long vh_fail_at; bool vh_fail_sticky; long vh_alloc_seen;
#define TOMB ((void*)-1)
static size_t th(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; return (size_t)(sm(&x)); }
static void tins(void *p) {
    if ((tused + 1) * 2 > tcap) {
        size_t ncap = tcap ? (tcount * 4 > tcap ? tcap * 2 : tcap) : 1024; void **ns = calloc(ncap, sizeof(void*));
        for (size_t i = 0; i < tcap; i++) if (tset[i] && tset[i] != TOMB) {
            size_t j = th(tset[i]) & (ncap-1); while (ns[j]) j = (j+1) & (ncap-1); ns[j] = tset[i];
        }
        free(tset); tset = ns; tcap = ncap; tused = tcount;
    }
    size_t j = th(p) & (tcap-1);
    while (tset[j] && tset[j] != TOMB) j = (j+1) & (tcap-1);
    if (!tset[j]) tused++;
    tset[j] = p; tcount++; ttotal++;
}
static bool tdel(void *p) {
    if (!tcap) return false;
    size_t j = th(p) & (tcap-1);
    while (tset[j]) { if (tset[j] == p) { tset[j] = TOMB; tcount--; return true; } j = (j+1) & (tcap-1); }
    return false;
}
static bool tfail(void) {
    vh_alloc_seen++;
    if (vh_fail_at > 0 && --vh_fail_at == 0) {
        if (vh_fail_sticky) vh_fail_at = 1;
        return true;
    }
    return false;
}
static void *tmalloc(size_t n) {
    pthread_mutex_lock(&tmu);
    void *p = tfail() ? NULL : malloc(n);
    if (p) { if (n > 0 && n < 100000) memset(p, 0xA5, n); tins(p); }
    pthread_mutex_unlock(&tmu);
    return p;
}
static void tfree(void *p) {
    if (!p) return;
    pthread_mutex_lock(&tmu);
    bool ok = tdel(p);
    pthread_mutex_unlock(&tmu);
    if (!ok) vh_fatal("free of %p which is not a live block of the runtime (double or wild free)", p);
    size_t n = malloc_usable_size(p); memset(p, 0xDD, n < 4096 ? n : 4096); // a use after this shows
    free(p);
}
static void *trealloc(void *p, size_t n) {
    pthread_mutex_lock(&tmu);
    void *q = NULL;
    if (!tfail()) {
        if (p && !tdel(p)) { pthread_mutex_unlock(&tmu); vh_fatal("realloc of %p which is not a live block", p); }
        q = realloc(p, n);
        tins(q ? q : p);
    }
    pthread_mutex_unlock(&tmu);
    return q;
}
// (not with the thread sanitizer: the lock of the tracker would order the threads)
#ifdef VH_TSAN
void vh_track_install(void) { }
#else
void vh_track_install(void) { neco_env_setallocator(tmalloc, trealloc, tfree); }
#endif
long vh_track_live(void) { return (long)tcount; }
long vh_track_total(void) { return ttotal; }
void vh_track_reset(void) { vh_alloc_seen = 0; vh_fail_at = 0; vh_fail_sticky = false; }

// ---------------------------------------------------------------- mappings
// Every mapping the library makes is released when its runtime ends, releases
// cover what was mapped, and fixed mappings and protections stay inside.
bool (*vh_mmap_fail)(void);
#ifdef VH_TSAN
#define MAPS_OFF 1
#else
#define MAPS_OFF 0
#endif
static pthread_mutex_t mapmu = PTHREAD_MUTEX_INITIALIZER;
static struct { char *p; size_t n; } maps[20000]; static int nmaps; static long mapped; static long totmaps;
static bool inmap(char *a, size_t l) { for (int i = 0; i < nmaps; i++) if (a >= maps[i].p && a + l <= maps[i].p + maps[i].n) return true; return false; }
static size_t pageup(size_t l) { return (l + 4095) & ~(size_t)4095; }
void *__real_mmap(void *a, size_t l, int p, int f, int fd, off_t o);
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (MAPS_OFF || !(f & MAP_ANONYMOUS)) return __real_mmap(a, l, p, f, fd, o);
    if (f & MAP_FIXED) {
        pthread_mutex_lock(&mapmu); bool ok = inmap(a, l); pthread_mutex_unlock(&mapmu);
        if (!ok) vh_fatal("fixed mapping of %zu bytes at %p outside of the stacks", l, a);
        return __real_mmap(a, l, p, f, fd, o);
    }
    if (vh_mmap_fail && vh_mmap_fail()) { errno = ENOMEM; return MAP_FAILED; }
    char *r = __real_mmap(a, l, p, f, fd, o);
    if (r != MAP_FAILED) {
        pthread_mutex_lock(&mapmu); if (nmaps >= 19998) vh_fatal("%d mappings are live", nmaps); maps[nmaps].p = r; maps[nmaps++].n = pageup(l); mapped += (long)pageup(l); totmaps++; pthread_mutex_unlock(&mapmu);
    }
    return r;
}
int __real_munmap(void *a, size_t l);
int __wrap_munmap(void *a, size_t l) {
    char *q = a; size_t n = pageup(l); if (MAPS_OFF) return __real_munmap(a, l);
    pthread_mutex_lock(&mapmu);
    int i = 0; while (i < nmaps && !(q >= maps[i].p && q + n <= maps[i].p + maps[i].n)) i++;
    bool ok = i < nmaps;
    if (ok) { // possibly a part only
        char *p0 = maps[i].p; size_t n0 = maps[i].n; mapped -= (long)n; maps[i] = maps[--nmaps];
        if (q > p0) { maps[nmaps].p = p0; maps[nmaps++].n = (size_t)(q - p0); }
        if (q + n < p0 + n0) { maps[nmaps].p = q + n; maps[nmaps++].n = (size_t)(p0 + n0 - (q + n)); }
    }
    pthread_mutex_unlock(&mapmu);
    if (!ok) vh_fatal("unmapping of %zu bytes at %p that are not mapped", l, a);
    return __real_munmap(a, l);
}
long vh_mapped(void) { pthread_mutex_lock(&mapmu); long n = mapped; pthread_mutex_unlock(&mapmu); return n; }

// Descriptor 0 is an ordinary descriptor for a program that closed its standard
// input: in some cases it is free when the case starts, or at the moment the
// library creates a descriptor of a certain kind.
static int fd0_plan; static bool fd0_freed;
void vh_fd0(int kind) { if (is_case_thread && fd0_plan == kind) { fd0_plan = 0; fd0_freed = true; close(0); vh_count("descriptor0", 1); } }
int __real_epoll_create1(int f);
// Descriptor numbers have no limit but that of the process.
static int highbase; static bool highused;
int vh_high(int fd) {
    if (!highbase || fd < 1) return fd;
    int r = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, highbase); if (r < 0) return fd; // not an interposed call
    dup3(fd, r, O_CLOEXEC); // (a call the race detector knows, which carries over what it knows of the descriptor)
    close(fd); __atomic_store_n(&highused, true, __ATOMIC_RELAXED); return r;
}
__attribute__((weak)) int __wrap_epoll_create1(int f) { vh_fd0(2); return vh_high(__real_epoll_create1(f)); }
int vh_pipe(int fds[2]) { int r = pipe2(fds, O_NONBLOCK|O_CLOEXEC); if (!r) { fds[0] = vh_high(fds[0]); fds[1] = vh_high(fds[1]); } return r; }
int vh_spair(int fds[2]) { int r = socketpair(AF_UNIX, SOCK_STREAM|SOCK_NONBLOCK|SOCK_CLOEXEC, 0, fds); if (!r) { fds[0] = vh_high(fds[0]); fds[1] = vh_high(fds[1]); } return r; }
int vh_nfds(void) {
    int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n - 3 + fd0_freed; // ., .., and the directory itself
}
// from the status file: reading a directory that changes meanwhile may skip entries
int vh_nthreads(void) {
    char b[4096]; int fd = open("/proc/self/status", O_RDONLY|O_CLOEXEC); if (fd < 0) vh_error("no /proc/self/status");
    ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) vh_error("cannot read /proc/self/status");
    b[n] = 0; char *p = strstr(b, "Threads:"); if (!p) vh_error("no thread count in /proc/self/status");
    return atoi(p + 8);
}

// ---------------------------------------------------------------- main loop
static uint64_t *hset; static size_t hcap, hcount;
static bool hadd(uint64_t h) {
    if (!h) h = 1;
    if ((hcount + 1) * 2 > hcap) {
        size_t nc = hcap ? hcap * 2 : 4096; uint64_t *ns = calloc(nc, 8);
        for (size_t i = 0; i < hcap; i++) if (hset[i]) { size_t j = hset[i] & (nc-1); while (ns[j]) j = (j+1)&(nc-1); ns[j] = hset[i]; }
        free(hset); hset = ns; hcap = nc;
    }
    size_t j = h & (hcap-1);
    while (hset[j]) { if (hset[j] == h) return false; j = (j+1)&(hcap-1); }
    hset[j] = h; hcount++;
    return true;
}
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); else fputc(' ', f); }
    fputc('"', f);
}
int vh_run(int argc, char **argv, void (*one)(uint64_t seed)) {
    gargc = argc; gargv = argv; is_case_thread = true;
    setvbuf(stdout, 0, _IOLBF, 0);
    uint64_t seed0 = strtoull(opts("seed0", "1"), 0, 0);
    long cases = vh_opti("cases", 1);
    vh_mode = opts("mode", "");
    dumpdir = opts("dump", 0);
    caselimit = vh_opti("caselimit", 20) * INT64_C(1000000000);
    clockcalls_max = vh_opti("maxclock", 200) * 1000000L;
    const char *prog = opts("progress", 0);
    const char *hashout = opts("hashes", 0);
    if (prog) {
        int fd = open(prog, O_RDWR|O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 64) == 0) progress = __real_mmap(0, 64, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
        if (progress == MAP_FAILED) progress = 0;
        if (fd >= 0) close(fd);
    }
    // The watchdog thread must not take signals.
    sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, &old);
    pthread_t th0; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&th0, &at, watchdog, 0)) vh_error("no watchdog thread");
    pthread_sigmask(SIG_SETMASK, &old, 0);
    FILE *hf = hashout ? fopen(hashout, "w") : 0;
    long distinct = 0; int64_t t0 = vh_realtime(); int fd0_saved = fcntl(0, F_DUPFD_CLOEXEC, 300);
    for (long i = 0; i < cases; i++) {
        uint64_t seed = seed0 + (uint64_t)i;
        vh_seed = seed; rs = seed * UINT64_C(0xD1342543DE82EF95) + 12345; jrs = seed ^ UINT64_C(0xABCDEF0123456789);
        (void)vh_rand();
        vh_now = INT64_C(1000000000000); vh_nev = 0; chash = UINT64_C(1469598103934665603); ctrivial = false;
        for (int k = 0; k < VH_NPEND; k++) vh_pend[k] = INT64_MAX;
        clockcalls = 0; vh_jitter = 0; vh_virtual = !vh_optb("realtime");
        if (progress) snprintf(progress, 63, "%llu", (unsigned long long)seed);
        case_started_set(vh_realtime());
        fd0_freed = false; fd0_plan = fd0_saved >= 0 ? (int)(seed % 7) : 0; vh_fd0(1); highused = false; highbase = seed % 9 == 4 ? 256 + (int)(seed / 9 % 4) * 768 + (int)(seed % 300) : 0;
        long map0 = vh_mapped(), tm0 = totmaps; pendchecks = 0; one(seed); if (pendchecks) vh_count("deadline_idle_checks", pendchecks);
        if (vh_mapped() != map0) VIOL("%ld bytes of mappings are left after the case", vh_mapped() - map0);
        if (totmaps > tm0) vh_count("stack_mappings", totmaps - tm0);
        if (fd0_freed) { if (fcntl(0, F_GETFD) != -1) VIOL("descriptor 0 is left open after the case"); dup2(fd0_saved, 0); fd0_freed = false; }
        case_started_set(0); if (highused) vh_count("high_descriptors", 1);
        totcases++; totevents += vh_nev; totclock += clockcalls;
        bool fresh = hadd(chash);
        if (fresh && !ctrivial) distinct++;
        if (hf && !ctrivial) fprintf(hf, "%llu %016llx\n", (unsigned long long)seed, (unsigned long long)chash);
        if (i == 0 && vh_nev > 0 && nsamples < 1) {
            char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n);
            fprintf(m, "seed %llu: ", (unsigned long long)seed);
            for (int k = 0; k < vh_nev && k < 24; k++) {
                struct vh_ev *e = &vh_evs[k];
                fprintf(m, "co%d.%s(%d,%lld)=%lld; ", e->co, e->op >= 0 && e->op < nopnames ? opnames[e->op] : "?", e->obj, (long long)e->a, (long long)e->r);
            }
            fclose(m); samples[nsamples++] = b;
        }
    }
    if (hf) fclose(hf);
    vh_virtual = false;
    fflush(stdout);
    char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n);
    fprintf(m, "SUMMARY {\"cases\":%ld,\"events\":%ld,\"distinct\":%ld,\"clock\":%ld,\"wall\":%.3f,\"viol\":%d,\"counters\":{",
        totcases, totevents, distinct, totclock, (double)(vh_realtime()-t0)/1e9, vh_nviol);
    for (int i = 0; i < nctrs; i++) { if (i) fputc(',', m); jstr(m, ctrs[i].name); fprintf(m, ":%ld", ctrs[i].n); }
    fprintf(m, "},\"samples\":[");
    for (int i = 0; i < nsamples; i++) { if (i) fputc(',', m); jstr(m, samples[i]); }
    fprintf(m, "]}\n"); fclose(m);
    fputs(b, stdout); fflush(stdout);
    return vh_nviol ? 1 : 0;
}
void vh_swarm(int *w, int n, int num, int den) {
    if (!vh_chance(num, den)) return;
    int sum = 0, v[32]; memcpy(v, w, sizeof(int) * (size_t)n);
    for (int i = 0; i < n; i++) { int k = (int)vh_rn(6); if (k < 2) v[i] = 0; else if (k == 2) v[i] *= 8; sum += v[i]; }
    if (sum > 0) memcpy(w, v, sizeof(int) * (size_t)n);
    vh_count("swarm_cases", 1);
}

// ---------------------------------------------------------------- noise
enum { NZ_SLEEP, NZ_FAR, NZ_RECV, NZ_SEND, NZ_SUSP, NZ_LOCK, NZ_RDLOCK, NZ_COND, NZ_WG, NZ_JOIN, NZ_SELECT, NZ_GEN, NZ_CANCELER, NZ_FARRECV, NZ_EV, NZ_SIG, NZ_HOLD, NZ_DISABLED };
static const char *const nznames[] = { "sleep", "far sleep", "receive", "send", "suspend", "lock", "read lock", "condition wait", "wait group", "join", "select", "generator", "cancel", "far receive", "descriptor wait", "signal wait", "holding", "disabled" };
#define NZMAX 160
static struct nz { int kind; int64_t id; bool ended; int step; } nz[NZMAX];
static int nnz; static bool nzstop; static int64_t nzhold, nzdis;
static neco_mutex nzmu, nzcmu; static neco_cond nzcv; static neco_waitgroup nzwg; static neco_chan *nzch[3]; static neco_gen *nzgen; static int nzfd[2] = { -1, -1 };
static void nzbody(struct nz *z) {
    neco_setcanceltype(NECO_CANCEL_INLINE, 0); int r = 0, want = NECO_CANCELED; int v = 7; z->step = 1;
    switch (z->kind) {
    case NZ_SLEEP: r = neco_sleep_dl(INT64_MAX); break;
    case NZ_FAR: r = neco_sleep_dl(vh_time() + (1000000 + z->id % 17) * NECO_SECOND); break;
    case NZ_RECV: r = neco_chan_recv(nzch[0], &v); break;
    case NZ_FARRECV: r = neco_chan_recv_dl(nzch[0], &v, vh_time() + (1000000 + z->id % 13) * NECO_SECOND); break;
    case NZ_SEND: r = neco_chan_send(nzch[1], &v); break;
    case NZ_SUSP: r = neco_suspend(); break;
    case NZ_LOCK: r = neco_mutex_lock(&nzmu); break;
    case NZ_RDLOCK: r = neco_mutex_rdlock(&nzmu); break;
    case NZ_COND: neco_mutex_lock(&nzcmu); r = neco_cond_wait(&nzcv, &nzcmu); neco_mutex_unlock(&nzcmu); break;
    case NZ_WG: r = neco_waitgroup_wait(&nzwg); break;
    case NZ_JOIN: r = neco_join(nzhold); break;
    case NZ_SELECT: r = neco_chan_select(2, nzch[0], nzch[2]); break;
    case NZ_GEN: r = neco_gen_yield(&v); break;
    case NZ_CANCELER: r = neco_cancel(nzdis); break;
    case NZ_EV: r = neco_wait(nzfd[0], NECO_WAIT_READ); break;
    case NZ_SIG: r = neco_signal_watch(SIGUSR2); if (r == NECO_OK) { z->step = 2; r = neco_signal_wait(); neco_signal_unwatch(SIGUSR2); } else r = neco_suspend(); break;
    case NZ_HOLD: neco_mutex_lock(&nzmu); r = neco_suspend(); neco_mutex_unlock(&nzmu); break;
    case NZ_DISABLED: neco_setcancelstate(NECO_CANCEL_DISABLE, 0); r = neco_suspend(); want = NECO_OK; break;
    }
    if (!nzstop) VIOL("a coroutine of the background, parked in %s, was woken although nothing happened (returned %d)", nznames[z->kind], r);
    else if (r != want && !(z->kind == NZ_EV && r == -1) && !(z->kind == NZ_SIG && r < 0)) VIOL("a coroutine of the background, canceled in %s, returned %d", nznames[z->kind], r);
    z->ended = true;
}
static void nzco(int argc, void *argv[]) { (void)argc; nzbody(argv[0]); }
static void nzdone(int argc, void *argv[]) { (void)argc; (void)argv; }
static struct nz *nzstart(int kind) {
    if (nnz >= NZMAX) return 0;
    struct nz *z = &nz[nnz++]; z->kind = kind; z->ended = false; z->step = 0; z->id = 0;
    int r; if (kind == NZ_GEN) r = neco_gen_start(&nzgen, sizeof(int), nzco, 1, z); else r = neco_start(nzco, 1, z);
    if (r != NECO_OK) VIOL("start of a coroutine returned %d", r);
    z->id = neco_lastid(); return z;
}
static void vh_noise_begin(int flags) {
    nnz = 0; nzstop = false; nzgen = 0; nzch[0] = 0; nzfd[0] = nzfd[1] = -1;
    if (!vh_chance(1, 8)) return;
    vh_count("noise_cases", 1);
    memset(&nzmu, 0, sizeof nzmu); memset(&nzcmu, 0, sizeof nzcmu); memset(&nzcv, 0, sizeof nzcv); memset(&nzwg, 0, sizeof nzwg);
    for (int i = 0; i < 3; i++) if (neco_chan_make(&nzch[i], sizeof(int), 0)) VIOL("make");
    neco_waitgroup_add(&nzwg, 1);
    int npool = vh_chance(1, 2) ? vh_range(1, 6) : 0; // some ended coroutines
    for (int i = 0; i < npool; i++) neco_start(nzdone, 0);
    nzhold = nzstart(NZ_HOLD)->id; nzdis = nzstart(NZ_DISABLED)->id;
    int mask = (int)vh_rand(); bool heavy = vh_chance(1, 10), ev = (flags & VH_NZ_EV) && vh_chance(1, 3);
    for (int k = NZ_SLEEP; k <= NZ_SIG; k++) {
        if (!(mask >> k & 1)) continue;
        if (k == NZ_EV && !ev) continue;
        if (k == NZ_SIG && !(flags & VH_NZ_SIG)) continue;
        if (k == NZ_EV && vh_pipe(nzfd)) vh_error("pipe");
        int n = k == NZ_GEN ? 1 : heavy && vh_chance(1, 4) ? vh_range(8, 40) : vh_range(1, 4);
        for (int i = 0; i < n; i++) nzstart(k);
    }
    if (vh_chance(1, 2)) neco_yield();
    if (vh_chance(1, 4)) neco_sleep(vh_range(1, 300) * MS); // pools expire, the event queue is closed
    vh_count("noise_coroutines", nnz);
}
static void vh_noise_end(void) {
    if (!nnz) return;
    int r; nzstop = true;
    for (int i = nnz - 1; i >= 0; i--) {
        if (nz[i].ended) VIOL("a coroutine of the background ended early"); 
        if (nz[i].kind == NZ_DISABLED) { if ((r = neco_resume(nz[i].id))) VIOL("resume of a background coroutine returned %d", r); }
        else { while ((r = neco_cancel(nz[i].id)) == NECO_CANCELED) { } if (r) VIOL("cancel of a background coroutine in %s returned %d", nznames[nz[i].kind], r); }
        if (vh_chance(1, 2)) while ((r = neco_join(nz[i].id)) == NECO_CANCELED) { }
    }
    for (int i = 0; i < nnz; i++) { while ((r = neco_join(nz[i].id)) == NECO_CANCELED) { } if (r || !nz[i].ended) VIOL("join of a background coroutine in %s returned %d", nznames[nz[i].kind], r); }
    if (nzgen) { neco_gen_close(nzgen); neco_gen_release(nzgen); }
    for (int i = 0; i < 3; i++) neco_chan_release(nzch[i]);
    if (nzfd[0] >= 0) { close(nzfd[0]); close(nzfd[1]); }
    nnz = 0;
}
static void nzmain(int argc, void *argv[]) {
    (void)argc; vh_noise_begin((int)(intptr_t)argv[0]); void *a[1] = { argv[2] };
    ((void(*)(int, void**))argv[1])(1, a); vh_noise_end();
}
int vh_start(int flags, void (*fn)(int, void*[]), void *arg) { return neco_start(nzmain, 3, (void*)(intptr_t)flags, (void*)fn, arg); }
