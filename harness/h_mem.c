// Lack of resources: the n-th allocation (or stack mapping, event queue, thread)
// of an operation fails, once or from then on, for every n the operation
// reaches. It reports it, has no effect, leaks nothing and works when repeated.
// Modes: oom (one scenario per case, all fault points), chaos (random program
// under randomly failing allocations).
#include "vh.h"
#include <stdatomic.h>
#include <pthread.h>
#include <signal.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <time.h>

enum { FLT, RES, OP, NOPS };
static const char *const names[] = {"fault","result","op"};
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
static void rsleep(long us) { struct timespec ts = { 0, us * 1000 }; __real_nanosleep(&ts, 0); }

// ------------------------------------------------------------ faults
enum { K_ALLOC, K_MMAP, K_QUEUE, K_EVENT, K_THREAD, NK };
static const char *const kname[] = {"allocation","stack mapping","event queue","event registration","thread creation"};
static __thread bool casethr; static bool armed, sticky; static int kind, left, hit, seen;
static long afail0;
static bool fault(int k) {
    if (!armed || !casethr || k != kind) return false;
    seen++;
    if (left > 0 && --left == 0) { hit++; if (sticky) left = 1; return true; }
    return false;
}
static bool mmapfault(void) { return fault(K_MMAP); }
int __real_epoll_create1(int f); int __wrap_epoll_create1(int f) { if (fault(K_QUEUE)) { errno = EMFILE; return -1; } vh_fd0(2); return __real_epoll_create1(f); }
int __real_epoll_ctl(int q, int op, int fd, struct epoll_event *e); int __wrap_epoll_ctl(int q, int op, int fd, struct epoll_event *e) { if (op == EPOLL_CTL_ADD && fault(K_EVENT)) { errno = ENOSPC; return -1; } return __real_epoll_ctl(q, op, fd, e); }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v); int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v) { if (fault(K_THREAD)) return EAGAIN; return __real_pthread_create(t, a, f, v); }
int __real_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r); void __real_freeaddrinfo(struct addrinfo *a);
static atomic_int ailive; static int port4;
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) {
    (void)n; (void)s; (void)h; struct addrinfo *a = calloc(1, sizeof *a); struct sockaddr_in *sa = calloc(1, sizeof *sa); sa->sin_family = AF_INET; sa->sin_port = htons((uint16_t)(s && !strcmp(s, "0") ? 0 : port4)); sa->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (void*)sa; a->ai_addrlen = sizeof *sa; atomic_fetch_add(&ailive, 1); *r = a; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { if (!a) return; atomic_fetch_sub(&ailive, 1); free(a->ai_addr); free(a); }
static int want_kind, want_at; static bool want_sticky;
static void arm(void) { kind = want_kind; left = want_at; sticky = want_sticky; hit = seen = 0; armed = true; if (kind == K_ALLOC && want_at > 0) { vh_fail_at = want_at; vh_fail_sticky = sticky; } afail0 = vh_alloc_seen; }
static bool disarm(void) { armed = false; if (kind == K_ALLOC) { long n = vh_alloc_seen - afail0; hit = want_at > 0 && n >= want_at; seen = (int)n; } vh_fail_at = 0; vh_fail_sticky = false; return hit > 0; }
// An operation that reports failure must report the cause.
static bool failed(const char *what, int r, int e, bool h) {
    int le = neco_lasterr();
    if (r >= 0) { return false; }
    if (!h) { VIOL("%s returned %d without a failing %s", what, r, kname[want_kind]); return true; }
    if (want_kind == K_ALLOC || want_kind == K_MMAP) { if (r != NECO_NOMEM || le != NECO_NOMEM) VIOL("%s with failing %s %d returned %d, last error %d", what, kname[want_kind], want_at, r, le); }
    else if (want_kind == K_QUEUE) { if (r != NECO_ERROR || e != EMFILE) VIOL("%s with failing %s returned %d, errno %d", what, kname[want_kind], r, e); }
    else if (want_kind == K_EVENT) { if (r != NECO_ERROR || e != ENOSPC) VIOL("%s with failing %s returned %d, errno %d", what, kname[want_kind], r, e); }
    vh_count("reported", 1);
    return true;
}
// ------------------------------------------------------------ scenarios
static int ranA, argA; static bool anyhit; static int variant; static uint64_t vseed;
#define ARGN 14
static void body(int argc, void *argv[]) { ranA++; argA = argc; for (int i = 0; i < argc; i++) if ((intptr_t)argv[i] != 1000 + i) VIOL("argument %d is %ld", i, (long)(intptr_t)argv[i]); if (variant & 1) neco_yield(); }
static void *ARGV[ARGN];
static void warm(void) { // some coroutines for the pool, and their blocks
    int n = variant >> 1 & 3; for (int i = 0; i < n; i++) neco_start(body, 0); for (int i = 0; i < 3; i++) neco_yield(); ranA = 0;
}
static void s_start(int argc) {
    warm(); neco_stats s0, s1; neco_getstats(&s0); int64_t l0 = neco_lastid(); ranA = 0;
    arm(); int r = neco_startv(body, argc, ARGV); int e = errno; bool h = disarm(); anyhit |= h;
    if (failed("start", r, e, h)) {
        neco_getstats(&s1); if (ranA) VIOL("a start that failed ran the coroutine");
        if (s0.coroutines != s1.coroutines) VIOL("%zu coroutines before a failed start, %zu after it", s0.coroutines, s1.coroutines);
        if (neco_lastid() != l0) VIOL("a failed start changed the last started identifier");
        r = neco_startv(body, argc, ARGV); if (r) VIOL("start after a failed one returned %d", r);
    }
    if (ranA != 1 || argA != argc) VIOL("the coroutine ran %d times with %d arguments", ranA, argA);
    if (neco_lastid() == l0 || neco_join(neco_lastid()) != NECO_OK + 0) { int j = neco_join(neco_lastid()); if (j != NECO_OK && j != NECO_NOTFOUND) VIOL("join returned %d", j); }
}
static void genbody(int argc, void *argv[]) { body(argc, argv); for (int i = 0; i < 3; i++) { char b[64]; memset(b, 'a' + i, sizeof b); if (neco_gen_yield(b)) return; } }
static void s_gen(int argc) {
    warm(); neco_gen *g = 0; neco_stats s0, s1; neco_getstats(&s0); ranA = 0;
    if (variant & 4) { neco_chan *c; if (!neco_chan_make(&c, 0, 0)) neco_chan_release(c); } // a pooled channel
    arm(); int r = neco_gen_startv(&g, 64, genbody, argc, ARGV); int e = errno; bool h = disarm(); anyhit |= h;
    if (failed("gen_start", r, e, h)) {
        neco_getstats(&s1); if (ranA) VIOL("a generator that failed to start ran");
        if (s0.coroutines != s1.coroutines) VIOL("%zu coroutines before a failed gen_start, %zu after it", s0.coroutines, s1.coroutines);
        if ((r = neco_gen_startv(&g, 64, genbody, argc, ARGV))) { VIOL("gen_start after a failed one returned %d", r); return; }
    }
    for (int i = 0; i < 3; i++) { char b[64] = {0}; r = neco_gen_next(g, b); if (r || b[0] != 'a' + i || b[63] != 'a' + i) VIOL("generator value %d: %d", i, r); }
    char eb[64]; if (neco_gen_next(g, eb) != NECO_CLOSED) VIOL("generator did not end");
    if (ranA != 1 || argA != argc) VIOL("the generator ran %d times with %d arguments", ranA, argA);
    neco_gen_release(g);
}
static void s_chan(void) {
    static const int sz[] = { 0, 1, 8, 100, 5000 }; size_t ds = (size_t)sz[variant % 5]; int cap = variant / 5 % 4; neco_chan *c = (void*)1; static char b[5000], d[5000];
    arm(); int r = neco_chan_make(&c, ds, (size_t)cap); int e = errno; bool h = disarm(); anyhit |= h;
    if (failed("chan_make", r, e, h) && (r = neco_chan_make(&c, ds, (size_t)cap))) { VIOL("chan_make after a failed one returned %d", r); return; }
    for (int i = 0; i < cap; i++) { memset(b, 'A' + i, ds); if ((r = neco_chan_send(c, b))) VIOL("send %d", r); }
    for (int i = 0; i < cap; i++) { memset(b, 'A' + i, ds); memset(d, 0, ds); if ((r = neco_chan_recv(c, d)) || memcmp(b, d, ds)) VIOL("receive %d", r); }
    // releasing never fails for the lack of memory
    arm(); r = neco_chan_release(c); h = disarm(); anyhit |= h; if (r) VIOL("release returned %d", r);
    neco_chan *cs[20]; for (int i = 0; i < 20; i++) if (neco_chan_make(&cs[i], 0, 0)) VIOL("make");
    arm(); for (int i = 0; i < 20; i++) if ((r = neco_chan_release(cs[i]))) VIOL("release returned %d", r);
    h = disarm(); anyhit |= h;
}
static void sender(int argc, void *argv[]) { (void)argc; char b[300]; memset(b, 'S', sizeof b); int r = neco_chan_send(argv[0], b); if (r) VIOL("send returned %d", r); }
static void s_select(void) {
    neco_chan *cs[12]; int n = variant & 8 ? 12 : 3; size_t ds = variant & 16 ? 300 : 4; int at = variant % n; bool buffered = variant & 32;
    for (int i = 0; i < n; i++) if (neco_chan_make(&cs[i], ds, buffered)) VIOL("make");
    if (buffered) sender(1, (void*[]){ cs[at] }); else neco_start(sender, 1, cs[at]);
    arm(); int r = variant & 64 ? neco_chan_tryselectv(n, cs) : neco_chan_selectv(n, cs); int e = errno; bool h = disarm(); anyhit |= h;
    if (failed("select", r, e, h)) { char x[300]; if (neco_chan_case(cs[at], x) == NECO_OK) VIOL("case after a failed select"); r = neco_chan_selectv(n, cs); }
    if (r != at) VIOL("select returned %d instead of %d", r, at);
    else { char d[300] = {0}; if ((r = neco_chan_case(cs[at], d)) || d[0] != 'S' || d[ds-1] != 'S') VIOL("case returned %d", r); }
    for (int i = 0; i < n; i++) { char d[300]; if (neco_chan_tryrecv(cs[i], d) != NECO_EMPTY) VIOL("a message is left"); neco_chan_release(cs[i]); }
}
static void s_stream(void) {
    int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); neco_stream *s = 0; bool buf = variant & 1; int f0 = vh_nfds();
    arm(); int r = buf ? neco_stream_make_buffered_size(&s, fd[0], variant & 2 ? 16 : 4096) : neco_stream_make(&s, fd[0]); int e = errno; bool h = disarm(); anyhit |= h;
    if (failed("stream_make", r, e, h)) { if (vh_nfds() != f0) VIOL("a failed stream_make closed the descriptor"); if ((r = buf ? neco_stream_make_buffered_size(&s, fd[0], variant & 2 ? 16 : 4096) : neco_stream_make(&s, fd[0]))) { VIOL("stream_make after a failed one returned %d", r); return; } }
    char b[64], in[] = "the quick brown fox", out[] = "jumps over"; if (write(fd[1], in, sizeof in) != sizeof in) vh_error("write"); size_t got = 0; int order = variant >> 2 & 1, bytes = variant >> 3 & 1; bool wrote = false;
    for (int k = 0; k < 2; k++) {
        if ((k ^ order) == 0) { // read
            arm(); ssize_t n = bytes ? neco_stream_read_byte(s) : neco_stream_read(s, b, 5); e = errno; h = disarm(); anyhit |= h;
            if (failed("stream_read", n < 0 ? neco_lasterr() : 0, e, h)) { n = bytes ? neco_stream_read_byte(s) : neco_stream_read(s, b, 5); if (n < 0) VIOL("stream_read after a failed one returned %zd", n); }
            if (bytes) { b[0] = (char)n; n = 1; }
            if (n <= 0 || memcmp(b, in, (size_t)n)) VIOL("stream_read: wrong bytes"); else got = (size_t)n;
        } else {
            arm(); ssize_t n = neco_stream_write(s, out, sizeof out); e = errno; h = disarm(); anyhit |= h;
            if (failed("stream_write", n < 0 ? neco_lasterr() : 0, e, h)) { n = neco_stream_write(s, out, sizeof out); }
            if (n != sizeof out) VIOL("stream_write returned %zd", n); wrote = true;
        }
    }
    if (got) { ssize_t n = neco_stream_readfull(s, b, sizeof in - got); if (n != (ssize_t)(sizeof in - got) || memcmp(b, in + got, sizeof in - got)) VIOL("readfull returned %zd", n); }
    if (wrote) { neco_stream_flush(s); memset(b, 0, sizeof b); size_t t = 0; ssize_t n; while (t < sizeof out && (n = read(fd[1], b + t, sizeof b - t)) > 0) t += (size_t)n; if (t != sizeof out || memcmp(b, out, t)) VIOL("the written bytes did not arrive: %zu", t); }
    if ((r = neco_stream_close(s))) VIOL("close returned %d", r);
    close(fd[1]);
}
static int wfd; static void laterwrite(int argc, void *argv[]) { (void)argc; (void)argv; neco_sleep(2 * MS); if (write(wfd, "hello", 5) != 5) vh_error("write"); }
static void s_wait(void) {
    int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); wfd = fd[1]; neco_stats s0, s1;
    if (variant & 1) { neco_start(laterwrite, 0); neco_wait(fd[0], NECO_WAIT_READ); char b[8]; if (read(fd[0], b, 8) != 5) VIOL("read"); } // event queue exists
    if (variant & 2) { if (write(wfd, "hello", 5) != 5) vh_error("write"); } else neco_start(laterwrite, 0);
    neco_getstats(&s0); arm(); int r = neco_wait(fd[0], NECO_WAIT_READ); int e = errno; bool h = disarm(); anyhit |= h; neco_getstats(&s1);
    if (failed("wait", r, e, h)) { if (s0.evwaiters != s1.evwaiters) VIOL("a failed wait left a waiter"); if ((r = neco_wait(fd[0], NECO_WAIT_READ))) VIOL("wait after a failed one returned %d", r); }
    char b[8]; if (read(fd[0], b, 8) != 5) VIOL("nothing to read after the wait"); close(fd[0]); close(fd[1]);
}
static void s_read(void) { // reading copes with events that cannot be registered
    int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); wfd = fd[1]; neco_start(laterwrite, 0); vh_jitter = 2; vh_jitter_max = 20 * US;
    char b[8]; arm(); ssize_t n = neco_read(fd[0], b, 8); bool h = disarm(); anyhit |= h; if (n != 5 || memcmp(b, "hello", 5)) VIOL("read with failing %s returned %zd, errno %d", kname[want_kind], n, errno);
    close(fd[0]); close(fd[1]); vh_jitter = 0;
}
static atomic_int wran; static void wfn(void *a) { (void)a; atomic_fetch_add(&wran, 1); }
static void s_work(void) { atomic_store(&wran, 0); int pin = variant & 1 ? -1 : (variant >> 1) % 5; bool st = want_sticky; if (want_kind == K_THREAD) want_sticky = false; arm(); int r = neco_work(pin, wfn, 0); bool h = disarm(); want_sticky = st; anyhit |= h; if (r || atomic_load(&wran) != 1) VIOL("work returned %d and ran %d times", r, atomic_load(&wran)); }
static void s_file(void) {
    char p[] = "memXXXXXX"; int fd = mkstemp(p); unlink(p); char b[100]; memset(b, 'f', 100);
    arm(); ssize_t n = neco_write(fd, b, 100); bool h = disarm(); anyhit |= h; if (n != 100 || lseek(fd, 0, SEEK_CUR) != 100) VIOL("file write returned %zd", n);
    lseek(fd, 0, SEEK_SET); arm(); n = neco_read(fd, b, 100); h = disarm(); anyhit |= h; if (n != 100 || b[99] != 'f') VIOL("file read returned %zd", n); close(fd);
}
static void s_gai(void) {
    struct addrinfo *r = 0, hn = { .ai_socktype = SOCK_STREAM }; arm(); int x = neco_getaddrinfo("some.name", "1", variant & 1 ? &hn : 0, &r); int e = errno, le = neco_lasterr(); bool h = disarm(); anyhit |= h;
    if (x) { if (!h) VIOL("getaddrinfo returned %d", x); else if (want_kind == K_ALLOC) { if (x != EAI_MEMORY || (le != NECO_NOMEM && le != NECO_GAIERROR)) VIOL("getaddrinfo with failing allocation %d returned %d, last error %d", want_at, x, le); } else if (x != EAI_SYSTEM) VIOL("getaddrinfo with failing %s returned %d errno %d", kname[want_kind], x, e); x = neco_getaddrinfo("some.name", "1", 0, &r); }
    if (x || !r) VIOL("getaddrinfo returned %d", x); else __wrap_freeaddrinfo(r);
}
static void s_dial(void) {
    int l = __extension__({ int q = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t sl = sizeof a; if (bind(q, (void*)&a, sl) || listen(q, 100) || getsockname(q, (void*)&a, &sl)) vh_error("listen"); port4 = ntohs(a.sin_port); q; });
    bool serve = variant & 1; const char *ad = variant & 2 ? "127.0.0.1:1" : "some.name:1"; if (serve) ad = variant & 2 ? "127.0.0.1:0" : "some.name:0";
    arm(); int fd = serve ? neco_serve("tcp", ad) : neco_dial("tcp", ad); int e = errno; bool h = disarm(); anyhit |= h; (void)e;
    if (fd < 0) { if (!h) VIOL("dial %s returned %d errno %d", ad, fd, e); else if (want_kind == K_ALLOC && (fd != NECO_NOMEM || neco_lasterr() != NECO_NOMEM)) VIOL("%s with failing allocation %d returned %d, last error %d", serve ? "serve" : "dial", want_at, fd, neco_lasterr()); fd = serve ? neco_serve("tcp", ad) : neco_dial("tcp", ad); }
    if (fd < 0) VIOL("dial after a failed one returned %d", fd); else close(fd);
    close(l);
}
// nothing of this allocates
static neco_mutex mu; static neco_waitgroup wg; static neco_cond cv; static neco_chan *zc; static int phase; static bool turn;
static void peer(int argc, void *argv[]) {
    (void)argc; (void)argv; int m = 0, r; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if ((r = neco_mutex_lock(&mu))) VIOL("lock %d", r); while (!turn) if ((r = neco_cond_wait(&cv, &mu))) VIOL("cond %d", r); if ((r = neco_mutex_unlock(&mu))) VIOL("unlock %d", r);
    for (int i = 0; i < 5; i++) { if ((r = neco_chan_recv(zc, &m)) || m != i) VIOL("recv %d", r); if ((r = neco_waitgroup_done(&wg))) VIOL("done %d", r); }
    phase = 1; if ((r = neco_suspend())) VIOL("suspend %d", r); phase = 2; if ((r = neco_sleep(MS))) VIOL("sleep %d", r);
    if ((r = neco_sleep(100 * NECO_SECOND)) != NECO_CANCELED) VIOL("sleep %d", r); phase = 3; neco_exit();
}
static void s_none(void) {
    int r; if (neco_mutex_init(&mu) || neco_waitgroup_init(&wg) || neco_cond_init(&cv) || neco_chan_make(&zc, sizeof(int), variant & 3)) VIOL("init"); phase = 0; turn = false;
    neco_start(peer, 0); int64_t id = neco_lastid(); warm(); if ((r = neco_waitgroup_add(&wg, 5))) VIOL("add %d", r);
    int sv = want_at; want_sticky = true; (void)sv; arm();
    if ((r = neco_mutex_lock(&mu))) VIOL("lock %d", r); turn = true; if ((r = neco_cond_signal(&cv))) VIOL("signal %d", r); if ((r = neco_mutex_unlock(&mu))) VIOL("unlock %d", r);
    for (int i = 0; i < 5; i++) if ((r = neco_chan_send(zc, &i))) VIOL("send %d", r);
    if ((r = neco_waitgroup_wait(&wg))) VIOL("wait %d", r);
    while (phase < 1) neco_yield();
    if ((r = neco_resume(id))) VIOL("resume %d", r);
    if ((r = neco_sleep(5 * MS))) VIOL("sleep %d", r);
    if ((r = neco_cancel(id))) VIOL("cancel %d", r);
    if ((r = neco_join(id)) && r != NECO_NOTFOUND) VIOL("join %d", r); if (phase != 3) VIOL("phase %d", phase);
    if ((r = neco_chan_close(zc)) || (r = neco_chan_release(zc))) VIOL("close %d", r);
    disarm(); anyhit = false; // no fault was reached
}
enum { S_RUN0, S_RUNN, S_START0, S_STARTN, S_GEN0, S_GENN, S_CHAN, S_SELECT, S_STREAM, S_WAIT, S_READ, S_WORK, S_FILE, S_GAI, S_DIAL, S_NONE, NS };
static const char *const sname[] = {"run","run with arguments","start","start with arguments","generator","generator with arguments","channel","select","stream","wait","read","work","file","resolve","dial","no allocation"};
static int sc;
static void smain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    switch (sc) { case S_START0: s_start(variant % 4); break; case S_STARTN: s_start(ARGN); break; case S_GEN0: s_gen(0); break; case S_GENN: s_gen(ARGN); break; case S_CHAN: s_chan(); break; case S_SELECT: s_select(); break; case S_STREAM: s_stream(); break;
    case S_WAIT: s_wait(); break; case S_READ: s_read(); break; case S_WORK: s_work(); break; case S_FILE: s_file(); break; case S_GAI: s_gai(); break; case S_DIAL: s_dial(); break; case S_NONE: s_none(); break; }
}
static void ownh(int s) { (void)s; }
static void one_run(void) { // one run of the scenario with the wanted fault
    for (int i = 0; i < ARGN; i++) ARGV[i] = (void*)(intptr_t)(1000 + i);
    anyhit = false; long l0 = vh_track_live(); int f0 = vh_nfds(), th0 = vh_nthreads(); uint64_t rs = vh_rng_get();
    if (sc == S_RUN0 || sc == S_RUNN) {
        struct sigaction sa = { .sa_handler = ownh }, old, cur; sigaction(SIGUSR1, &sa, &old); stack_t ss0, ss1; sigaltstack(0, &ss0); ranA = 0; int n = sc == S_RUNN ? ARGN : 0;
        arm(); int r = neco_startv(body, n, ARGV); int e = errno; bool h = disarm(); anyhit = h;
        sigaction(SIGUSR1, 0, &cur); sigaltstack(0, &ss1); if (cur.sa_handler != ownh) VIOL("the signal handler was not kept (%s %d)", kname[want_kind], want_at); if (ss0.ss_sp != ss1.ss_sp || ss0.ss_flags != ss1.ss_flags) VIOL("the alternate signal stack was not kept");
        sigaction(SIGUSR1, &old, 0);
        if (failed("start", r, e, h)) { if (ranA) VIOL("a start that failed ran the coroutine"); if (neco_getid() != NECO_PERM) VIOL("a failed start left a runtime"); if ((r = neco_startv(body, n, ARGV))) VIOL("start after a failed one returned %d", r); }
        if (ranA != 1 || argA != n) VIOL("the coroutine ran %d times with %d arguments", ranA, argA);
    } else { int r = neco_start(smain, 0); if (r) VIOL("start returned %d", r); }
    vh_rng_set(rs);
    int nt = 0; for (int k = 0; k < 5000 && (nt = vh_nthreads()) > th0; k++) rsleep(1000);
    if (nt > th0) VIOL("%d threads are left", nt - th0);
    if (vh_track_live() != l0) VIOL("%s with failing %s %d%s: %ld blocks leaked", sname[sc], kname[want_kind], want_at, want_sticky ? "+" : "", vh_track_live() - l0);
    int f1 = vh_nfds(); if (f1 != f0) VIOL("%s with failing %s %d%s: %d descriptors leaked", sname[sc], kname[want_kind], want_at, want_sticky ? "+" : "", f1 - f0);
    if (atomic_load(&ailive)) VIOL("an address list leaked");
}
static void one_oom(void) {
    sc = (int)vh_rn(NS); variant = (int)vh_rn(1024); vh_hash((uint64_t)(variant * NS + sc)); vseed = vh_rng_get();
    for (int k = 0; k < NK && !vh_nviol; k++) for (int st = 0; st < 2 && !vh_nviol; st++) for (int at = 1; at < 60 && !vh_nviol; at++) {
        want_kind = k; want_at = at; want_sticky = st; vh_pet();
        vh_rng_set(vseed); one_run();
        vh_log(sc, FLT, k, at * 2 + st, anyhit);
        if (!anyhit) break;
        vh_count("faults", 1);
    }
}
// ------------------------------------------------------------ chaos
// random program; the allocator fails at random. What failed had no effect.
static int clive, crate; static long sentn, gotn; static neco_chan *cc[4]; static int nfail; static int started, ended;
static void maybe(void) { if (crate) vh_fail_at = vh_range(1, crate); }
static bool nomem(const char *w, int r) { if (r == NECO_NOMEM) { nfail++; vh_count("nomem", 1); if (neco_lasterr() != NECO_NOMEM) VIOL("%s: last error %d", w, neco_lasterr()); return true; } return false; }
static void cbody(int argc, void *argv[]);
static void cgen(int argc, void *argv[]) { (void)argc; (void)argv; for (int i = 0; i < 4; i++) if (neco_gen_yield(&i)) break; }
static void cbody(int argc, void *argv[]) {
    started++; int depth = (int)(intptr_t)argv[0]; for (int i = 1; i < argc; i++) if ((intptr_t)argv[i] != i) VIOL("argument %d", i); neco_setcanceltype(NECO_CANCEL_INLINE, 0); (void)argc;
    int n = vh_range(2, 10);
    for (int k = 0; k < n && !vh_nviol; k++) {
        int op = (int)vh_rn(10), r; neco_chan *c = cc[vh_rn(4)]; uint32_t m;
        vh_log(depth, OP, op, 0, 0); maybe();
        switch (op) {
        case 0: case 1: if (depth < 4 && clive < 40) { void *a[14]; a[0] = (void*)(intptr_t)(depth + 1); for (int i = 1; i < 14; i++) a[i] = (void*)(intptr_t)i; int s0 = started; clive++; r = neco_startv(cbody, vh_chance(1, 2) ? 1 : 14, a); if (r) { clive--; if (!nomem("start", r)) VIOL("start returned %d", r); else if (started != s0) VIOL("failed start ran"); } } break;
        case 2: m = 0xC0FFEE; r = neco_chan_send_dl(c, &m, neco_now() + vh_range(0, 500) * US); if (!r) sentn++; else if (r != NECO_TIMEDOUT) VIOL("send returned %d", r); break;
        case 3: m = 0; r = neco_chan_recv_dl(c, &m, neco_now() + vh_range(0, 500) * US); if (!r) { gotn++; if (m != 0xC0FFEE) VIOL("message %x", m); } else if (r != NECO_TIMEDOUT) VIOL("recv returned %d", r); break;
        case 4: { neco_chan *v[12]; int nn = vh_chance(1, 2) ? 12 : 4; for (int i = 0; i < nn; i++) v[i] = cc[i % 4]; r = neco_chan_selectv_dl(nn, v, neco_now() + vh_range(0, 500) * US); if (r >= 0) { m = 0; if ((r = neco_chan_case(v[r], &m))) VIOL("case returned %d", r); gotn++; if (m != 0xC0FFEE) VIOL("message %x", m); } else if (r != NECO_TIMEDOUT && !nomem("select", r)) VIOL("select returned %d", r); break; }
        case 5: { neco_chan *x; r = neco_chan_make(&x, vh_rn(100), vh_rn(3)); if (!r) { maybe(); if ((r = neco_chan_release(x))) VIOL("release returned %d", r); } else if (!nomem("make", r)) VIOL("make returned %d", r); break; }
        case 6: { neco_gen *g; int v = -1; r = neco_gen_start(&g, sizeof(int), cgen, 0); if (!r) { int w = vh_range(0, 5); for (int i = 0; i < w; i++) { maybe(); r = neco_gen_next(g, &v); if (i < 4 ? r != NECO_OK || v != i : r != NECO_CLOSED) VIOL("gen_next %d returned %d", i, r); } neco_gen_close(g); while (neco_gen_next(g, &v) == NECO_OK) { } neco_gen_release(g); } else if (!nomem("gen", r)) VIOL("gen_start returned %d", r); break; }
        case 7: { int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); neco_stream *s; r = neco_stream_make_buffered(&s, fd[0]); if (!r) { maybe(); ssize_t w; while ((w = neco_stream_write(s, "abc", 3)) < 0 && nomem("stream_write", neco_lasterr())) maybe(); if (w != 3) VIOL("stream_write returned %zd", w); if (write(fd[1], "xyz", 3) != 3) vh_error("write"); char b[8]; while ((w = neco_stream_read(s, b, 8)) < 0 && nomem("stream_read", neco_lasterr())) maybe(); if (w != 3 || memcmp(b, "xyz", 3)) VIOL("stream_read returned %zd", w); if ((r = neco_stream_close(s))) VIOL("close %d", r); if (read(fd[1], b, 8) != 3 || memcmp(b, "abc", 3)) VIOL("stream bytes lost"); } else { if (!nomem("stream", r)) VIOL("stream_make returned %d", r); close(fd[0]); } close(fd[1]); break; }
        case 8: r = neco_sleep(vh_range(1, 300) * US); if (r && r != NECO_TIMEDOUT) VIOL("sleep returned %d", r); break;
        default: r = neco_yield(); if (r) VIOL("yield returned %d", r);
        }
    }
    clive--; ended++;
}
static void cmain(int argc, void *argv[]) {
    (void)argc; (void)argv; for (int i = 0; i < 4; i++) if (neco_chan_make(&cc[i], 4, (size_t)i)) VIOL("make");
    for (int i = 0; i < 5; i++) { clive++; maybe(); void *a[1] = { (void*)(intptr_t)0 }; if (neco_startv(cbody, 1, a)) clive--; }
    while (clive > 0) neco_sleep(MS);
    vh_fail_at = 0; uint32_t m; for (int i = 0; i < 4; i++) { while (!neco_chan_tryrecv(cc[i], &m)) gotn++; neco_chan_release(cc[i]); }
}
static void one_chaos(void) {
    clive = 0; crate = vh_range(2, 12); sentn = gotn = nfail = started = ended = 0; vh_jitter = 5; vh_jitter_max = 20 * US;
    if (neco_start(cmain, 0)) vh_fatal("start"); vh_fail_at = 0; vh_jitter = 0;
    if (sentn != gotn) VIOL("%ld messages sent but %ld received", sentn, gotn);
    if (started != ended) VIOL("%d coroutines started but %d ended", started, ended);
    if (!nfail) vh_trivial();
}
// ------------------------------------------------------------ steady
// The same balanced work again and again in one runtime: what the runtime holds
// settles, and does not grow with the number of rounds.
static neco_chan *stc; static neco_mutex stmu; static neco_cond stcv; static neco_waitgroup stwg; static uint64_t stops; static int stn; static long stmap0; static int stfd[2];
static void st_end(int argc, void *argv[]) { (void)argc; (void)argv; }
static void st_yield(int argc, void *argv[]) { (void)argv; for (int i = 0; i < argc % 5; i++) neco_yield(); }
static void st_deep(int argc, void *argv[]) { (void)argc; (void)argv; volatile char b[20000]; for (int i = 0; i < 20000; i += 512) b[i] = 1; (void)b[0]; neco_yield(); }
static void st_exit(int argc, void *argv[]) { (void)argc; (void)argv; neco_yield(); neco_exit(); }
static void st_recv(int argc, void *argv[]) { (void)argc; (void)argv; int m; neco_chan_recv_dl(stc, &m, neco_now() + 3 * MS); }
static void st_sleep(int argc, void *argv[]) { (void)argc; (void)argv; neco_sleep(100 * NECO_SECOND); }
static void st_sel(int argc, void *argv[]) { (void)argc; (void)argv; neco_chan *v[12]; for (int i = 0; i < 12; i++) v[i] = stc; int m; if (neco_chan_selectv_dl(12, v, neco_now() + 2 * MS) >= 0) neco_chan_case(stc, &m); }
static void st_cond(int argc, void *argv[]) { (void)argc; (void)argv; neco_mutex_lock(&stmu); neco_cond_wait_dl(&stcv, &stmu, neco_now() + 2 * MS); neco_mutex_unlock(&stmu); }
static void st_wg(int argc, void *argv[]) { (void)argc; (void)argv; neco_waitgroup_wait_dl(&stwg, neco_now() + 5 * MS); }
static void st_gen(int argc, void *argv[]) { (void)argc; (void)argv; for (int i = 0; i < 5; i++) if (neco_gen_yield(&i)) break; }
static void st_wait(int argc, void *argv[]) { (void)argc; (void)argv; neco_wait_dl(stfd[0], NECO_WAIT_READ, neco_now() + 2 * MS); }
static void st_start(void (*f)(int, void*[]), int n, int argc) { for (int i = 0; i < n; i++) if (neco_startv(f, argc, ARGV)) VIOL("start"); }
static void st_cancel(void (*f)(int, void*[]), int n) { int64_t id[64]; for (int i = 0; i < n; i++) { if (neco_start(f, 0)) VIOL("start"); id[i] = neco_lastid(); } for (int i = 0; i < n; i++) neco_cancel(id[i]); for (int i = 0; i < n; i++) neco_join(id[i]); }
static void st_round(void) {
    for (int k = 0; k < 18; k++) if (stops >> k & 1) switch (k) {
    case 0: st_start(st_end, stn, 3); break;
    case 1: st_start(st_yield, stn, 14); break;
    case 2: st_start(st_deep, stn > 8 ? 8 : stn, 0); break;
    case 3: st_start(st_exit, stn, 0); break;
    case 4: st_start(st_recv, stn, 0); for (int i = 0; i < stn / 2; i++) neco_chan_send_dl(stc, &i, neco_now() + MS); break;
    case 5: st_cancel(st_sleep, stn); break;
    case 6: st_start(st_sel, stn, 2); for (int i = 0; i < stn / 2; i++) neco_chan_send_dl(stc, &i, neco_now() + MS); break;
    case 7: st_cancel(st_sel, stn); break;
    case 8: st_start(st_cond, stn, 0); neco_cond_signal(&stcv); break;
    case 9: neco_waitgroup_add(&stwg, 2); st_start(st_wg, stn, 0); neco_waitgroup_done(&stwg); neco_waitgroup_done(&stwg); break;
    case 10: for (int i = 0; i < stn; i++) { neco_gen *g; if (neco_gen_start(&g, sizeof(int), st_gen, 0)) VIOL("gen"); int v; for (int j = 0; j < i % 4; j++) neco_gen_next(g, &v); neco_gen_close(g); while (neco_gen_next(g, &v) == NECO_OK) { } neco_gen_release(g); } break;
    case 11: for (int i = 0; i < stn; i++) { neco_chan *c[3]; for (int j = 0; j < 3; j++) if (neco_chan_make(&c[j], (size_t)(j * 50), (size_t)j)) VIOL("make"); for (int j = 0; j < 3; j++) neco_chan_release(c[j]); } break;
    case 12: for (int i = 0; i < stn; i++) { int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); neco_stream *s; if (neco_stream_make_buffered(&s, fd[0])) VIOL("stream"); neco_stream_write(s, "hello", 5); if (i & 1) neco_stream_flush(s); if (write(fd[1], "abc", 3) != 3) vh_error("write"); neco_stream_read_byte(s); if (i & 2) neco_stream_close(s); else { neco_stream_release(s); close(fd[0]); } close(fd[1]); } break;
    case 13: st_start(st_wait, stn, 0); if (write(stfd[1], "x", 1) != 1) vh_error("write"); neco_sleep(MS); { char b; if (read(stfd[0], &b, 1) != 1) VIOL("read"); } break;
    case 14: st_cancel(st_wait, stn); break;
    case 15: for (int i = 0; i < stn; i++) { int fd[2]; if (vh_spair(fd)) vh_error("socketpair"); char b; neco_read_dl(fd[0], &b, 1, neco_now() + 10 * US); neco_write(fd[1], "y", 1); neco_read(fd[0], &b, 1); close(fd[0]); close(fd[1]); } break;
    case 16: for (int i = 0; i < 3; i++) neco_work(i, wfn, 0); break;
    case 17: { struct addrinfo *r = 0; if (neco_getaddrinfo("some.name", "1", 0, &r) == 0) __wrap_freeaddrinfo(r); } break;
    }
    neco_sleep(vh_chance(1, 8) ? 120 * MS : 6 * MS); // everything of the round has ended
}
// what is held once the pools have expired
static void st_drain(long *b, long *m, int *f) {
    for (int k = 0; k < 6; k++) neco_sleep(130 * MS);
    for (int k = 0; k < 300 && ailive; k++) rsleep(1000);
    *b = vh_track_live(); *m = vh_mapped(); *f = vh_nfds();
}
static void stmain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int i = 0; i < ARGN; i++) ARGV[i] = (void*)(intptr_t)(1000 + i);
    if (neco_chan_make(&stc, sizeof(int), 0) || neco_mutex_init(&stmu) || neco_cond_init(&stcv) || neco_waitgroup_init(&stwg)) VIOL("init");
    long unit = vh_mapped() - stmap0, mb[2], mm[2], peak = 0; int mf[2], nr[2] = { 12, 80 }; neco_stats st0, st1; neco_getstats(&st0);
    for (int w = 0; w < 2; w++) {
        for (int i = 0; i < nr[w]; i++) { st_round(); vh_pet(); if (vh_mapped() > peak) peak = vh_mapped(); }
        st_drain(&mb[w], &mm[w], &mf[w]);
    }
    long p = stn * __builtin_popcountll(stops) + 4; // no more coroutines than this ever live at the same time
    neco_getstats(&st1); if (st1.coroutines != st0.coroutines) vh_error("%zu coroutines are left", st1.coroutines - st0.coroutines);
    if (vh_optb("trace")) printf("stops %llx n %d blocks %ld %ld mapped %ld %ld fds %d %d peak %ld of %ld unit %ld\n", (unsigned long long)stops, stn, mb[0], mb[1], mm[0], mm[1], mf[0], mf[1], peak, p, unit);
    vh_log(0, OP, stn, (int64_t)stops, mb[1] - mb[0]); vh_count("rounds", nr[0] + nr[1]);
    if (mb[1] > mb[0] + 20) VIOL("%ld blocks were held after %d rounds, %ld after another %d rounds of the same work", mb[0], nr[0], mb[1], nr[1]);
    if (mm[1] > mm[0] + 2 * unit) VIOL("%ld bytes were mapped after %d rounds, %ld after another %d rounds of the same work", mm[0], nr[0], mm[1], nr[1]);
    if (mf[1] > mf[0] + 10) VIOL("%d descriptors were open after %d rounds, %d after another %d rounds of the same work", mf[0], nr[0], mf[1], nr[1]);
    if (peak > (2 * p + 8) * unit) VIOL("%ld bytes of stacks were mapped for at most %ld coroutines", peak, p);
    neco_chan_release(stc);
}
static void one_steady(void) {
    stops = vh_rn(1u << 18); if (vh_chance(1, 2)) stops = 1u << vh_rn(18); stn = vh_chance(1, 3) ? vh_range(10, 40) : vh_range(1, 9); vh_hash(stops * 64 + (uint64_t)stn);
    if (vh_spair(stfd)) vh_error("socketpair");
    stmap0 = vh_mapped(); if (neco_start(stmain, 0)) vh_fatal("start");
    close(stfd[0]); close(stfd[1]);
}
static void one(uint64_t seed) {
    (void)seed; casethr = true; vh_opnames(names, NOPS); long l0 = vh_track_live(); int f0 = vh_nfds();
    if (!strcmp(vh_mode, "chaos")) one_chaos(); else if (!strcmp(vh_mode, "steady")) one_steady(); else one_oom();
    if (!strcmp(vh_mode, "steady")) for (int k = 0; k < 5000 && (vh_track_live() != l0 || vh_nfds() != f0); k++) rsleep(1000); // the resolver thread of the last round
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    if (vh_nfds() != f0) VIOL("%d descriptors leaked by the case", vh_nfds() - f0);
}
int main(int argc, char **argv) { vh_mmap_fail = mmapfault; signal(SIGPIPE, SIG_IGN); vh_track_install(); return vh_run(argc, argv, one); }
