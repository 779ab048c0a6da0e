// Whole programs in child processes: how they start, what they inherit, and
// how they end. Mode: prog. Each program's expected ending is known.
#include "vh.h"
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/mman.h>
void *__real_mmap(void *a, size_t l, int p, int f, int fd, off_t o);

enum { END };
static const char *const names[] = {"end"};
static int ofd = -1;
enum { K_RETURN, K_OTHERS, K_BUSY, K_OUTPUT, K_NESTED, K_CLEAN, K_MISUSE, K_BENIGN, K_PANIC, K_PANICCO, K_CRASH, K_CRASHCO, K_CRASHWORK, K_CRASHTHREAD, K_OVERFLOW, K_ENVTYPE, K_ENVSTATE, K_EXITMAIN, K_STDOUTPIPE, K_STDERRPIPE, K_OTHERPIPE, K_MAINTHREAD, K_ENVPANICNOMEM, NK };
static const char *const knames[] = {"return","others","busy","output","nested","cleanup","misuse","benign","panic","panicco","crash","crashco","crashwork","crashthread","overflow","envtype","envstate","exitmain","stdoutpipe","stderrpipe","otherpipe","mainthread","panicnomem"};
static int k, sub, code; static volatile int *shared;
#define BAD(n) do { shared[1] = __LINE__; _exit(n); } while (0)
static const int CR[] = { SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP };
static void crash(void) {
    volatile int zero = 0; (void)zero;
    switch (sub % 7) {
    case 5: *(volatile int*)(intptr_t)8 = 1; break;
#if defined(__x86_64__)
    case 6: __asm__ volatile ("ud2"); break;
#endif
    default: raise(CR[sub % 5]);
    }
}
static int crashsig(void) { return sub % 7 == 5 ? SIGSEGV : sub % 7 == 6 ? SIGILL : CR[sub % 5]; }
static void blocked(int argc, void *argv[]) { (void)argc; (void)argv; shared[2]++; if (sub & 1) neco_suspend(); else neco_sleep(NECO_HOUR); shared[3]++; }
static void yielding(int argc, void *argv[]) { (void)argc; (void)argv; shared[2]++; for (;;) neco_yield(); }
static void finish(int argc, void *argv[]) { (void)argc; (void)argv; for (int i = 0; i < 10; i++) neco_sleep(MS); shared[3]++; }
static void clean1(void *a) { shared[4] = shared[4] * 10 + (int)(intptr_t)a; }
static int deep(int n) { volatile char pad[512]; memset((void*)pad, n, sizeof pad); if (n <= 0) return pad[3]; return deep(n - 1) + pad[7]; }
static void cco(int argc, void *argv[]) { (void)argc; (void)argv; if (sub & 8) neco_yield(); crash(); }
static void pco(int argc, void *argv[]) { (void)argc; (void)argv; neco_yield(); neco_panic("the %s is %d", "answer", 42); }
static void crashw(void *u) { (void)u; crash(); }
static void *crasht(void *u) { (void)u; crash(); return 0; }
#pragma GCC diagnostic ignored "-Wpragmas"
#pragma GCC diagnostic ignored "-Wunknown-warning-option"
#pragma GCC diagnostic ignored "-Winfinite-recursion"
static int over(volatile char *p) { volatile char b[40000]; for (int i = 0; i < 40000; i += 1000) b[i] = *p; b[39999] = 1; return over(b) + b[39999]; }
static void overco(int argc, void *argv[]) { (void)argc; (void)argv; volatile char c = 0; shared[5] = over(&c); }
static void typeco(int argc, void *argv[]) { (void)argc; (void)argv; int o = -1; neco_setcanceltype(NECO_CANCEL_INLINE, &o); if (o != (sub & 1 ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC)) BAD(80); o = -1; neco_setcancelstate(NECO_CANCEL_ENABLE, &o); if (o != (k == K_ENVSTATE && (sub & 2) ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE)) BAD(81); shared[3]++; }
static void slp(int argc, void *argv[]) { (void)argc; (void)argv; int r = neco_sleep(5 * MS); shared[2] = r + 100; }
static void *mt2(void *a) { extern void mtco(int, void**); (void)a; neco_start(mtco, 0); return 0; }
void mtco(int argc, void *argv[]) { (void)argc; (void)argv; if (neco_is_main_thread() != 0) BAD(82); shared[3]++; }
static void *nomem_malloc(size_t n) { return shared[6] ? 0 : malloc(n); }

static int pargc; static char **pargv;
// the program, run in place of main()
#define main prog_main
int neco_main(int argc, char *argv[]) {
    if (argc != pargc || argv != pargv) BAD(70);
    if (neco_getid() <= 0 || neco_starterid() != 0) BAD(71);
    { int o = 0; neco_setcanceltype(NECO_CANCEL_ASYNC, &o); if (o != NECO_CANCEL_ASYNC) BAD(72); }
    shared[0] = 1;
    switch (k) {
    case K_RETURN: if (sub & 1) neco_yield(); if (sub & 2) neco_sleep(MS); break;
    case K_OTHERS: for (int i = 0; i < 5; i++) neco_start(blocked, 0); neco_yield(); if (shared[2] != 5) BAD(73); break;
    case K_BUSY: for (int i = 0; i < 3; i++) neco_start(yielding, 0); neco_yield(); break;
    case K_OUTPUT: { FILE *f = fdopen(ofd, "w"); if (!f) BAD(77); for (int i = 0; i < 100; i++) fprintf(f, "entry %d\n", i); } for (int i = 0; i < 2000; i++) { printf("line %d\n", i); if (sub & 1 && i % 100 == 0) neco_yield(); } break;
    case K_NESTED: for (int i = 0; i < 30; i++) { neco_start(finish, 0); neco_join(neco_lastid()); } deep(200); if (shared[3] != 30) BAD(74); break;
    case K_CLEAN: neco_cleanup_push(clean1, (void*)1); neco_cleanup_push(clean1, (void*)2); neco_cleanup_pop(sub & 1); neco_cleanup_pop(sub >> 1 & 1); break;
    case K_MISUSE: switch (sub % 5) { case 0: neco_chan_make(0, 1, 1); break; case 1: neco_mutex_lock(0); break; case 2: neco_wait(1, 99); break; case 3: neco_setcanceltype(77, 0); break; case 4: neco_work(-1, 0, 0); break; } break;
    case K_BENIGN: { neco_chan *c; int x; char b; neco_chan_make(&c, 4, 1); neco_chan_tryrecv(c, &x); neco_chan_recv_dl(c, &x, 1); neco_chan_close(c); neco_chan_close(c); neco_chan_recv(c, &x); neco_chan_release(c);
        neco_resume(1234567); neco_cancel(1234567); neco_sleep_dl(1); neco_read(-1, &b, 1); neco_dial("tcp", "127.0.0.1:1"); neco_gen_yield(&x); neco_signal_wait(); neco_suspend_dl(1); neco_mutex m = NECO_MUTEX_INITIALIZER; neco_mutex_lock(&m); neco_mutex_trylock(&m); neco_waitgroup w = NECO_WAITGROUP_INITIALIZER; neco_waitgroup_done(&w); } break;
    case K_PANIC: neco_panic("the %s is %d", "answer", 42); break;
    case K_PANICCO: neco_start(pco, 0); neco_sleep(NECO_SECOND); break;
    case K_CRASH: crash(); break;
    case K_CRASHCO: neco_start(cco, 0); neco_sleep(NECO_SECOND); break;
    case K_CRASHWORK: neco_work(-1, crashw, 0); break;
    case K_CRASHTHREAD: { pthread_t t; pthread_create(&t, 0, crasht, 0); pthread_join(t, 0); } break;
    case K_OVERFLOW: neco_start(overco, 0); break;
    case K_STDOUTPIPE: case K_STDERRPIPE: case K_OTHERPIPE: { int p[2]; if (pipe(p)) BAD(75); close(p[0]); int fd = k == K_STDOUTPIPE ? 1 : k == K_STDERRPIPE ? 2 : p[1]; if (fd < 3) dup2(p[1], fd); ssize_t n = neco_write(fd, "x", 1); if (k == K_OTHERPIPE) { if (n != -1 || errno != EPIPE) BAD(76); } else shared[5] = 1; } break;
    case K_MAINTHREAD: { if (neco_is_main_thread() != 1) BAD(77); pthread_t t; if (pthread_create(&t, 0, mt2, 0)) BAD(78); pthread_join(t, 0); if (shared[3] != 1) BAD(79); } break;
    case K_ENVPANICNOMEM: { neco_chan *c; shared[6] = 1; neco_chan_make(&c, 4000, 100); shared[6] = 0; } break;
    }
    return code;
}
#undef main
// the same with neco_start
static void emain(int argc, void *argv[]) {
    (void)argc; (void)argv; shared[0] = 1;
    switch (k) {
    case K_ENVTYPE: case K_ENVSTATE: typeco(0, 0); neco_start(typeco, 0); neco_setcanceltype(NECO_CANCEL_INLINE, 0); neco_start(typeco, 0); if (shared[3] != 3) BAD(83);
        if (k == K_ENVSTATE && (sub & 2)) { neco_start(slp, 0); int64_t id = neco_lastid(); int r = neco_cancel_dl(id, neco_now() + MS); if (r != NECO_TIMEDOUT) BAD(84); neco_join(id); if (shared[2] != 100) BAD(85); } break;
    case K_EXITMAIN: for (int i = 0; i < 4; i++) neco_start(finish, 0); neco_cleanup_push(clean1, (void*)3); neco_cleanup_push(clean1, (void*)4); neco_exit(); neco_cleanup_pop(0); neco_cleanup_pop(0); BAD(86); break;
    default: break;
    }
}
static int child(void) {
    char *av[] = { (char*)"prog", (char*)"one", (char*)"two", 0 }; pargv = av; pargc = 3;
    if (k == K_ENVTYPE || k == K_ENVSTATE) {
        neco_env_setcanceltype(sub & 1 ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC);
        if (k == K_ENVSTATE) neco_env_setcancelstate(sub & 2 ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE);
        if (neco_start(emain, 0) != NECO_OK) BAD(87);
        return code;
    }
    if (k == K_EXITMAIN) { int r = neco_start(emain, 0); if (r != NECO_OK) BAD(88); if (shared[3] != 4) BAD(89); if (shared[4] != 43) BAD(90); return code; }
    if (k == K_ENVPANICNOMEM) neco_env_setallocator(nomem_malloc, realloc, free);
    return prog_main(pargc, pargv);
}
static void one(uint64_t seed) {
    vh_opnames(names, 1);
    k = (int)((seed - 1) % NK); sub = (int)((seed - 1) / NK); code = k == K_RETURN ? (sub * 37) % 256 : (sub * 11 + 3) % 100;
    if (k == K_OVERFLOW && !vh_optb("guards")) k = K_RETURN;
    if (!shared) shared = __real_mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    memset((void*)shared, 0, 4096); fflush(stdout);
    if (ofd < 0 || ftruncate(ofd, 0)) vh_error("memfd");
    lseek(ofd, 0, SEEK_SET);
    int po[2], pe[2]; if (pipe(po) || pipe(pe)) vh_error("pipe");
    pid_t p = fork(); if (p < 0) vh_error("fork");
    if (p == 0) {
        dup2(po[1], 1); dup2(pe[1], 2); close(po[0]); close(po[1]); close(pe[0]); close(pe[1]); vh_jitter = 4; vh_jitter_max = 20 * US; vh_virtual = false;
        static char obuf[65536]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf); signal(SIGABRT, SIG_DFL); for (int i = 0; i < 5; i++) signal(CR[i], SIG_DFL);
        if (sub || k == K_OVERFLOW) setenv("PATH", "/nonexistent", 1); // no symbolizer: much faster
        _exit(child());
    }
    close(po[1]); close(pe[1]);
    static char out[2][200000]; size_t n[2] = {0, 0}; int fds[2] = {po[0], pe[0]}; int64_t t0 = vh_realtime(); bool killed = false;
    for (int i = 0; i < 2; i++) fcntl(fds[i], F_SETFL, O_NONBLOCK);
    int st = 0; bool ended = false;
    for (;;) {
        bool again = false;
        for (int i = 0; i < 2; i++) { ssize_t r; while ((r = read(fds[i], out[i] + n[i], sizeof out[i] - 1 - n[i])) > 0) n[i] += (size_t)r; if (r < 0) again = true; }
        if (ended) break;
        pid_t q = waitpid(p, &st, WNOHANG); if (q == p) ended = true;
        else { struct timespec ts = {0, 200000}; syscall(35, &ts, 0); }
        if (!ended && vh_realtime() - t0 > 12 * NECO_SECOND) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; ended = true; }
        (void)again;
    }
    close(fds[0]); close(fds[1]); out[0][n[0]] = out[1][n[1]] = 0;
    vh_log(k, END, sub, code, st); vh_hash((uint64_t)st); vh_hash((uint64_t)(k * 1000 + sub)); vh_count("programs", 1); vh_count(knames[k], 1);
    if (killed) { VIOL("program %s/%d did not end", knames[k], sub); return; }
    bool ex = WIFEXITED(st); int es = ex ? WEXITSTATUS(st) : -WTERMSIG(st);
    int want = code;
    switch (k) {
    case K_MISUSE: case K_PANIC: case K_PANICCO: case K_ENVPANICNOMEM: want = -SIGABRT; break;
    case K_CRASH: case K_CRASHCO: case K_CRASHWORK: case K_CRASHTHREAD: want = 128 + crashsig(); break;
    case K_OVERFLOW: want = 128 + SIGSEGV; break;
    case K_STDOUTPIPE: case K_STDERRPIPE: want = 128 + EPIPE; break;
    }
    if (es != want) { VIOL("program %s/%d ended with %d (at line %d), expected %d: %.200s", knames[k], sub, es, shared[1], want, out[1]); return; }
    if (!shared[0]) VIOL("program %s/%d did not run", knames[k], sub);
    if (shared[5]) VIOL("program %s/%d went on after a broken standard stream", knames[k], sub);
    if (k == K_OUTPUT) { char e[4096], w[4096]; size_t m = 0; for (int i = 0; i < 100; i++) m += (size_t)sprintf(w + m, "entry %d\n", i); ssize_t r = pread(ofd, e, sizeof e, 0); if (r != (ssize_t)m || memcmp(e, w, m)) VIOL("%zd of %zu bytes the program printed to a file are there", r, m); }
    if (k == K_OUTPUT) { size_t o = 0; char l[64]; for (int i = 0; i < 2000; i++) { int m = snprintf(l, sizeof l, "line %d\n", i); if (o + (size_t)m > n[0] || memcmp(out[0] + o, l, (size_t)m)) { VIOL("program output: line %d of 2000 is missing or wrong", i); break; } o += (size_t)m; } if (o != n[0] && o) VIOL("program output: %zu bytes too many", n[0] - o); }
    if (k == K_CLEAN) { int w = 0; if (sub & 1) w = 2; if (sub >> 1 & 1) w = w * 10 + 1; if (shared[4] != w) VIOL("cleanup handlers of the main coroutine: %d, expected %d", shared[4], w); }
    if ((k == K_PANIC || k == K_PANICCO) && !strstr(out[1], "the answer is 42")) VIOL("panic message is missing: %.200s", out[1]);
    if (k == K_MISUSE && !strstr(out[1], "panic")) VIOL("the reason of the abort was not reported: %.200s", out[1]);
}
int main(int argc, char **argv) { ofd = memfd_create("out", 0); return vh_run(argc, argv, one); }
