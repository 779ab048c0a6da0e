// File descriptors: byte streams through neco_read/neco_write, readiness,
// neco_stream_*. The read/write calls of the library are intercepted: faults
// are injected (short counts, EINTR, EAGAIN, hard errors) and the bytes that
// really went through are recorded, so that every result can be compared with
// what happened.
// Modes: xfer, multi, file, wait, stream, mix.
#include "vh.h"
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <stdatomic.h>

enum { READ, WRITE, WAIT, CANCEL, TOGGLE, SR, SRF, SRB, SUB, SW, SF, SC, RET, ERR, NOPS };
static const char *const names[] = {"read","write","wait","cancel","toggle","sread","sreadfull","sread_byte","sunread","swrite","sflush","sclose","ret","error"};

// ------------------------------------------------------------ interception
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __real_write(int fd, const void *b, size_t n);
int __real_close(int fd);
#define MAXFD 6000
static struct inj { bool on; int eintr, eagain, shrt, maxshort; long errat; int errnum, oe, pre; atomic_long rbytes, wbytes, calls, faults; int closed; long hitr, hitw; } io[MAXFD];
static uint64_t injseed; static atomic_long totalinj;
static uint32_t injrn(int fd, uint32_t n) { uint64_t z = injseed + (uint64_t)fd * 0x9E3779B97F4A7C15ULL + (uint64_t)atomic_fetch_add(&io[fd].calls, 1) * 0xD1342543DE82EF95ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; return (uint32_t)(z % n); }
static bool fault(int fd, size_t *n) {
    struct inj *i = &io[fd];
    if (i->oe) { // this call, after a few that are to be repeated, fails
        atomic_fetch_add(&totalinj, 1); if (i->pre-- > 0) { errno = i->pre & 1 ? EINTR : EAGAIN; return true; }
        errno = i->oe; i->oe = 0; return true;
    }
    uint32_t r = injrn(fd, 100);
    if ((int)r < i->eintr) { errno = EINTR; atomic_fetch_add(&i->faults, 1); atomic_fetch_add(&totalinj, 1); return true; }
    r = injrn(fd, 100);
    if ((int)r < i->eagain) { errno = EAGAIN; atomic_fetch_add(&i->faults, 1); atomic_fetch_add(&totalinj, 1); return true; }
    r = injrn(fd, 100);
    if ((int)r < i->shrt && *n > 1) { size_t m = 1 + injrn(fd, (uint32_t)i->maxshort); if (m < *n) { *n = m; atomic_fetch_add(&totalinj, 1); } }
    return false;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (fd < 0 || fd >= MAXFD || !io[fd].on) return __real_read(fd, b, n);
    if (fault(fd, &n)) return -1;
    ssize_t r = __real_read(fd, b, n);
    if (r > 0) atomic_fetch_add(&io[fd].rbytes, r);
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (fd < 0 || fd >= MAXFD || !io[fd].on) return __real_write(fd, b, n);
    if (fault(fd, &n)) return -1;
    if (io[fd].errat >= 0 && io[fd].wbytes + (long)n > io[fd].errat) {
        if (io[fd].wbytes >= io[fd].errat) { errno = io[fd].errnum; io[fd].hitw++; return -1; }
        n = (size_t)(io[fd].errat - io[fd].wbytes);
    }
    ssize_t r = __real_write(fd, b, n);
    if (r > 0) atomic_fetch_add(&io[fd].wbytes, r);
    return r;
}
int __wrap_close(int fd) { if (fd >= 0 && fd < MAXFD && io[fd].on) { io[fd].closed++; io[fd].on = false; } return __real_close(fd); }
static void arm(int fd, int level) {
    if (fd < 0 || fd >= MAXFD) vh_error("fd %d", fd);
    struct inj *i = &io[fd]; memset((void*)i, 0, sizeof *i); i->on = true; i->errat = -1;
    if (level == 0) return;
    i->eintr = vh_chance(1, 2) ? vh_range(1, 30) : 0; i->eagain = vh_chance(1, 2) ? vh_range(1, 30) : 0;
    i->shrt = vh_chance(2, 3) ? vh_range(5, 90) : 0; i->maxshort = vh_chance(1, 2) ? vh_range(1, 9) : vh_range(10, 3000);
}
static unsigned char pat(uint32_t key, uint64_t pos) { uint64_t z = (pos + 1) * 0x9E3779B97F4A7C15ULL ^ key * 0xBF58476DULL; z ^= z >> 29; z *= 0x94D049BB133111EBULL; return (unsigned char)(z >> 56); }

// ------------------------------------------------------------ cancels
static int64_t victims[64]; static int nvict; static atomic_int cancels_to[64], got_cancel[64]; static bool chaos_stop; static int nchaos;
static int cancelpend(int v) { return cancels_to[v] - got_cancel[v]; }
static void chaos(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    while (!chaos_stop) {
        neco_sleep(vh_range(1, 500) * US);
        if (chaos_stop) break;
        int v = nvict ? (int)vh_rn((uint32_t)nvict) : -1;
        if (v >= 0 && victims[v]) { cancels_to[v]++; vh_log(v, CANCEL, 0, 0, 0); neco_cancel(victims[v]); vh_count("cancels", 1); }
    }
    nchaos--;
}
static int64_t rdl(bool use) { if (!use || vh_chance(1, 2)) return INT64_MAX; return vh_time() + (vh_chance(1, 10) ? -5 : vh_chance(1, 5) ? vh_range(0, 9) * MS : vh_range(0, 1000) * US); }
// the common rules for a failed call: why = lasterr
static void failrules(int v, const char *op, int why, int64_t dl, int extra) {
    if (why == NECO_CANCELED) { if (cancelpend(v) <= 0) VIOL("%s: canceled without a cancelation", op); got_cancel[v] = cancels_to[v]; }
    else if (why == NECO_TIMEDOUT) { if (dl == INT64_MAX) VIOL("%s: timed out without a deadline", op); else if (vh_time() < dl) VIOL("%s: timed out before its deadline", op); }
    else if (why != extra) VIOL("%s: failed with %d (errno %d)", op, why, errno);
}

static void notlate(const char *op, int64_t dl) { if (dl != INT64_MAX && vh_virtual && !vh_jitter) { vh_count("deadline_returns", 1); if (vh_time() - dl > 3 * MS) VIOL("%s returned %lld ns after its deadline", op, (long long)(vh_time() - dl)); } }
// ------------------------------------------------------------ xfer
#define MAXC 6
static struct conn { int fd[2]; uint32_t key; uint64_t sent, want, rcvd, total; bool wdone, rdone, broken, wdl, rdl, isfile; int bufsz; int werr; int rv, wv; bool rblocked, owed; } cn[MAXC]; static int nconn, working;
// a write that a worker thread is doing does not end at its deadline
#if defined(NECO_NOWORKERS) || defined(NECO_NOWRITEWORKERS)
#define WRWORKERS false
#else
#define WRWORKERS true
#endif
static void wr_main(int argc, void *argv[]) {
    (void)argc; struct conn *c = argv[0]; int v = c->wv; victims[v] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    static __thread unsigned char pool[MAXC][200000]; unsigned char *buf = pool[c - cn];
    while (c->sent < c->total) {
        size_t n = vh_chance(1, 3) ? (size_t)vh_range(0, 10) : vh_chance(1, 2) ? (size_t)vh_range(1, 5000) : (size_t)vh_range(1, c->bufsz);
        if (n > c->total - c->sent) n = c->total - c->sent;
        for (size_t i = 0; i < n; i++) buf[i] = pat(c->key, c->sent + i);
        int64_t dl = rdl(c->wdl); long a0 = io[c->fd[1]].wbytes;
        vh_log(v, WRITE, (int)(c - cn), (int64_t)n, 0);
        errno = 0;
        if (!WRWORKERS) vh_pend[v] = dl;
        ssize_t r = dl == INT64_MAX ? neco_write(c->fd[1], buf, n) : neco_write_dl(c->fd[1], buf, n, dl);
        vh_pend[v] = INT64_MAX; int en = errno, le = neco_lasterr(); long act = io[c->fd[1]].wbytes - a0;
        vh_log(v, RET, WRITE, 0, r < 0 ? le : 0); 
        if (r < -1 || r > (ssize_t)n) VIOL("write of %zu bytes returned %zd", n, r);
        else if ((r < 0 ? 0 : r) != act) VIOL("write of %zu bytes returned %zd (lasterr %d) but %ld bytes were written", n, r, le, act);
        // a write that stopped halfway for a cancelation leaves it to the next operation
        if (c->owed) { vh_count("w_owed", 1); if (!(r == -1 && le == NECO_CANCELED)) VIOL("a cancelation that cut a write short was not reported by the next operation (%zd, %d)", r, le); }
        c->owed = r > 0 && r < (ssize_t)n && en == ECANCELED && le == NECO_PARTIALWRITE;
        if (r == (ssize_t)n && n > 0 && le != NECO_OK) VIOL("complete write left lasterr %d", le);
        if (r >= 0 && r < (ssize_t)n && le != NECO_PARTIALWRITE) VIOL("partial write (%zd of %zu) left lasterr %d", r, n, le);
        if (r > 0) { c->sent += (uint64_t)r; vh_count("bytes", (long)r); }
        if (r == -1) { errno = en; failrules(v, "write", le, dl, io[c->fd[1]].hitw ? NECO_ERROR : 1); if (le == NECO_ERROR && en != io[c->fd[1]].errnum) VIOL("write failed with errno %d, expected %d", en, io[c->fd[1]].errnum); vh_count(le == NECO_CANCELED ? "w_canceled" : le == NECO_TIMEDOUT ? "w_timedout" : "w_error", 1); }
        else if (r < (ssize_t)n) {
            vh_count("w_partial", 1);
            // something must have ended it early
            bool why = io[c->fd[1]].hitw || cancelpend(v) > 0 || (dl != INT64_MAX && vh_time() >= dl);
            if (!why) VIOL("partial write (%zd of %zu) without an error, deadline or cancelation", r, n);
        }
        if (io[c->fd[1]].hitw && (r == -1 && le == NECO_ERROR)) break;
        if (vh_chance(1, 6)) neco_yield();
        if (vh_chance(1, 12)) { int sr = neco_sleep((vh_chance(1, 5) ? vh_range(1, 20000) : vh_range(1, 300)) * US); if (sr == NECO_CANCELED) got_cancel[v] = cancels_to[v]; else if (c->owed && sr != NECO_TIMEDOUT) VIOL("a cancelation that cut a write short was not reported by the next sleep (%d)", sr); if (sr != NECO_TIMEDOUT) c->owed = false; }
    }
    victims[v] = 0; c->wdone = true; close(c->fd[1]); working--;
}
static void rd_main(int argc, void *argv[]) {
    (void)argc; struct conn *c = argv[0]; int v = c->rv; victims[v] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    static __thread unsigned char pool[MAXC][200016]; unsigned char *buf = pool[c - cn];
    while (1) {
        size_t n = vh_chance(1, 4) ? (size_t)vh_range(1, 16) : (size_t)vh_range(1, c->bufsz);
        memset(buf, 0xCC, n < 64 ? n + 16 : 16); memset(buf + n, 0xCD, 16);
        int64_t dl = rdl(c->rdl); long a0 = io[c->fd[0]].rbytes;
        vh_log(v, READ, (int)(c - cn), (int64_t)n, 0); c->rblocked = true; errno = 0; vh_pend[v] = dl;
        ssize_t r = dl == INT64_MAX ? neco_read(c->fd[0], buf, n) : neco_read_dl(c->fd[0], buf, n, dl);
        int le = neco_lasterr(); c->rblocked = false; vh_pend[v] = INT64_MAX; if (!c->isfile) notlate("read", dl); long act = io[c->fd[0]].rbytes - a0;
        vh_log(v, RET, READ, 0, r < 0 ? le : 0);
        if (r < -1 || r > (ssize_t)n) VIOL("read of %zu bytes returned %zd", n, r);
        else if ((r < 0 ? 0 : r) != act) VIOL("read returned %zd (lasterr %d) but %ld bytes were taken", r, le, act);
        for (int i = 0; i < 16; i++) if (buf[n + (size_t)i] != 0xCD) { VIOL("read wrote past its buffer"); break; }
        if (r >= 0 && le != NECO_OK) VIOL("read returned %zd and left lasterr %d", r, le);
        if (r == 0) { if (!c->wdone) VIOL("read reported the end of the stream while the writer is open"); break; }
        if (r == -1) { failrules(v, "read", le, dl, 1); vh_count(le == NECO_CANCELED ? "r_canceled" : "r_timedout", 1); continue; }
        for (ssize_t i = 0; i < r; i++) if (buf[i] != pat(c->key, c->rcvd + (uint64_t)i)) { VIOL("byte %llu of the stream differs", (unsigned long long)(c->rcvd + (uint64_t)i)); c->broken = true; break; }
        c->rcvd += (uint64_t)r;
        if (c->broken) break;
        if (vh_chance(1, 8)) neco_yield();
        if (vh_chance(1, 15)) { int sr = neco_sleep(vh_range(1, 600) * US); if (sr == NECO_CANCELED) got_cancel[v] = cancels_to[v]; }
    }
    if (!c->broken && c->rcvd != c->sent) VIOL("%llu bytes were reported as written, %llu were read", (unsigned long long)c->sent, (unsigned long long)c->rcvd);
    victims[v] = 0; c->rdone = true; close(c->fd[0]); working--;
}
static bool dochaos;
static void xmain(int argc, void *argv[]) {
    (void)argc; (void)argv; working = nconn * 2;
    for (int i = 0; i < nconn; i++) { neco_start(rd_main, 1, &cn[i]); neco_start(wr_main, 1, &cn[i]); }
    if (dochaos) { nchaos = 1; neco_start(chaos, 0); }
    bool pending = true; 
    while (pending) {
        pending = false; for (int i = 0; i < nconn; i++) if (!cn[i].wdone) pending = true;
        if (pending) neco_sleep(2 * MS);
    }
    chaos_stop = true;
    // all writers have closed their end: every reader comes to the end of its stream
    uint64_t last = 0;
    for (int k = 0; k < 200 && working > 0; k++) { neco_sleep(5 * MS); uint64_t sum = 0; for (int i = 0; i < nconn; i++) sum += cn[i].rcvd + cn[i].rdone; if (sum != last) k = 0; last = sum; }
    for (int i = 0; i < nconn; i++) if (!cn[i].rdone) vh_fatal("reader %d is blocked although %llu bytes and the end of the stream are waiting", i, (unsigned long long)(cn[i].sent - cn[i].rcvd));
}
static void one_xfer(void) {
    nconn = vh_range(1, MAXC); memset(cn, 0, sizeof cn); nvict = nconn * 2; dochaos = vh_chance(1, 2); chaos_stop = false; nchaos = 0; working = 0;
    for (int i = 0; i < 64; i++) { victims[i] = 0; cancels_to[i] = got_cancel[i] = 0; }
    injseed = vh_rand();
    for (int i = 0; i < nconn; i++) {
        struct conn *c = &cn[i]; int kind = (int)vh_rn(3);
        if (kind == 0 ? vh_pipe(c->fd) : vh_spair(c->fd)) vh_error("pipe");
        if (kind == 2) { int sz = vh_range(1, 20000); setsockopt(c->fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); setsockopt(c->fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
        if (kind == 0 && vh_chance(1, 2)) fcntl(c->fd[1], F_SETPIPE_SZ, 4096);
        int lvl = vh_chance(2, 3); arm(c->fd[0], lvl); arm(c->fd[1], lvl);
        c->key = (uint32_t)vh_rand(); c->total = vh_chance(1, 4) ? (uint64_t)vh_range(1, 60) : vh_chance(1, 3) ? (uint64_t)vh_range(1, 300000) : (uint64_t)vh_range(1, 12000);
        c->bufsz = vh_chance(1, 3) ? vh_range(1, 200000) : vh_range(1, 3000); c->wdl = vh_chance(1, 2); c->rdl = vh_chance(1, 2);
        if (lvl && (io[c->fd[0]].maxshort < 10 || io[c->fd[1]].maxshort < 10) && c->total > 4000) c->total = 4000;
        if (vh_chance(1, 8)) { io[c->fd[1]].errat = vh_range(0, (int)c->total); io[c->fd[1]].errnum = vh_chance(1, 2) ? EIO : EPIPE; }
        c->rv = i * 2; c->wv = i * 2 + 1;
    }
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, xmain, 0)) vh_fatal("start");
    vh_count("connections", nconn);
}

// ------------------------------------------------------------ multi
#define MMSG 600
static int mfd[2], mw, mr, mtotal, mleft, mwleft; static int mseen[MMSG];
static void mwriter(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; int per = mtotal / mw; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int i = 0; i < per;) {
        int msg[2] = { me, i }; int64_t dl = rdl(true);
        ssize_t r = neco_write_dl(mfd[1], msg, sizeof msg, dl);
        if (r == (ssize_t)sizeof msg) i++; else if (r != -1 || neco_lasterr() != NECO_TIMEDOUT || dl == INT64_MAX || vh_time() < dl) VIOL("message write returned %zd (%d)", r, neco_lasterr());
        if (vh_chance(1, 4)) neco_yield();
        if (vh_chance(1, 60)) neco_sleep(vh_range(1, 9000) * US);
    }
    if (--mwleft == 0) shutdown(mfd[1], SHUT_WR);
}
static void mreader(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; int last[16]; for (int i = 0; i < 16; i++) last[i] = -1;
    while (1) {
        int msg[4] = { -1, -1, -1, -1 }; int64_t dl = rdl(true);
        vh_pend[64 + me] = dl; ssize_t r = neco_read_dl(mfd[0], msg, sizeof msg, dl); vh_pend[64 + me] = INT64_MAX; notlate("read", dl);
        if (r == 0) break;
        if (r == -1 && neco_lasterr() == NECO_TIMEDOUT && dl != INT64_MAX && vh_time() >= dl) continue;
        if (r != 8 || msg[0] < 0 || msg[0] >= mw || msg[1] < 0 || msg[1] >= mtotal / mw) { VIOL("message read returned %zd (%d)", r, neco_lasterr()); break; }
        mseen[msg[0] * (mtotal / mw) + msg[1]]++;
        if (msg[1] <= last[msg[0]]) VIOL("reader got message %d of writer %d after message %d", msg[1], msg[0], last[msg[0]]);
        last[msg[0]] = msg[1]; vh_log(99, READ, msg[0], msg[1], 0); vh_count("messages", 1);
        if (vh_chance(1, 4)) neco_yield();
        if (vh_chance(1, 8)) neco_sleep(vh_range(1, 100) * US);
    }
    mleft--;
}
static void mmain(int argc, void *argv[]) {
    (void)argc; (void)argv; mleft = mr; mwleft = mw;
    for (int i = 0; i < mr; i++) neco_start(mreader, 1, (void*)(intptr_t)i);
    for (int i = 0; i < mw; i++) neco_start(mwriter, 1, (void*)(intptr_t)i);
    while (mwleft > 0) neco_sleep(1 * MS);
    for (int k = 0; k < 400 && mleft > 0; k++) neco_sleep(5 * MS);
    if (mleft) vh_fatal("%d of %d readers of the same descriptor are still blocked at the end of the stream", mleft, mr);
}
static void one_multi(void) {
    if (socketpair(AF_UNIX, SOCK_SEQPACKET|SOCK_NONBLOCK, 0, mfd)) vh_error("socketpair");
    injseed = vh_rand(); arm(mfd[0], 1); arm(mfd[1], 1); io[mfd[0]].shrt = io[mfd[1]].shrt = 0;
    mw = vh_range(1, 5); mr = vh_range(1, 6); mtotal = mw * vh_range(1, MMSG / mw / 4); memset(mseen, 0, sizeof mseen);
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, mmain, 0)) vh_fatal("start");
    for (int i = 0; i < mtotal; i++) if (mseen[i] != 1) { VIOL("message %d was delivered %d times", i, mseen[i]); break; }
    close(mfd[0]); close(mfd[1]);
}

// ------------------------------------------------------------ file
static void fmain(int argc, void *argv[]) {
    (void)argc; (void)argv; char path[64]; snprintf(path, sizeof path, "./f.%d", (int)getpid());
    int fd = open(path, O_RDWR|O_CREAT|O_TRUNC|(vh_chance(1, 2) ? O_NONBLOCK : 0), 0600); if (fd < 0) vh_error("open");
    arm(fd, 1); injseed = vh_rand(); uint32_t key = (uint32_t)vh_rand(); size_t tot = 0; static unsigned char b[20016];
    int n = vh_range(1, 12);
    for (int i = 0; i < n; i++) {
        size_t l = (size_t)vh_range(0, 9000); if (io[fd].maxshort < 10) l %= 500;
        for (size_t k = 0; k < l; k++) b[k] = pat(key, tot + k);
        ssize_t r = neco_write(fd, b, l); if (r != (ssize_t)l) VIOL("write of %zu bytes to a file returned %zd", l, r); else tot += l;
    }
    if (vh_chance(1, 24)) { // more than a megabyte at once
        io[fd].shrt = 0; size_t l = (size_t)vh_range(1 << 20, 5 << 19); unsigned char *x = malloc(l); if (!x) vh_error("malloc");
        for (size_t k = 0; k < l; k++) x[k] = pat(key, tot + k);
        ssize_t r = neco_write(fd, x, l); if (r != (ssize_t)l) VIOL("write of %zu bytes to a file returned %zd", l, r); else tot += l;
        free(x); vh_count("big_writes", 1);
    }
    struct stat st; fstat(fd, &st); if ((size_t)st.st_size != tot) VIOL("file has %zu bytes, %zu were written", (size_t)st.st_size, tot);
    lseek(fd, 0, SEEK_SET); size_t got = 0;
    while (1) {
        size_t l = (size_t)vh_range(1, 9000); memset(b + l, 0xCD, 16); ssize_t r = neco_read(fd, b, l);
        if (r < 0 || r > (ssize_t)l) { VIOL("read of a file returned %zd", r); break; }
        if (r == 0) break;
        for (ssize_t k = 0; k < r; k++) if (b[k] != pat(key, got + (size_t)k)) { VIOL("byte %zu of the file differs", got + (size_t)k); break; }
        got += (size_t)r;
    }
    if (got != tot) VIOL("%zu bytes were written, %zu were read", tot, got);
    vh_log(0, READ, 0, (int64_t)tot, (int64_t)got); vh_count("bytes", (long)got); close(fd); unlink(path);
}
static void fybar(int argc, void *argv[]) { (void)argc; (void)argv; for (int i = 0; i < 20; i++) neco_yield(); }
static void fouter(int argc, void *argv[]) { if (vh_chance(1, 2)) neco_start(fybar, 0); fmain(argc, argv); }
static void one_file(void) { if (vh_start(VH_NZ_EV|VH_NZ_SIG, fouter, 0)) vh_fatal("start"); }

// ------------------------------------------------------------ wait
// Waiters on a few descriptors whose readiness is only changed by the driver.
#define NF 48
#define NWT 240
static struct wfd { int fd, peer; bool full, data, hup, closed; int gen[3]; } wf[NF]; static int nf;  // gen: number of times the kind became ready
static struct waiter { bool used, blocked, done; int64_t id, dl; int f, kind, g0; bool ready0; int res; bool viaread; bool canceled; } wt[NWT]; static int nwt;
static bool isready(int f, int kind) { struct pollfd p = { wf[f].fd, (short)(kind == NECO_WAIT_READ ? POLLIN : POLLOUT), 0 }; if (poll(&p, 1, 0) < 0) return false; return p.revents & ((kind == NECO_WAIT_READ ? POLLIN : POLLOUT)|POLLHUP|POLLERR); }
static void waiter(int argc, void *argv[]) {
    (void)argc; struct waiter *w = argv[0]; w->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0); int v = (int)(w - wt);
    w->g0 = wf[w->f].gen[w->kind]; w->ready0 = isready(w->f, w->kind); w->blocked = true;
    vh_log(v, WAIT, w->f, w->kind, 0);
    int r = w->dl == INT64_MAX ? neco_wait(wf[w->f].fd, w->kind) : neco_wait_dl(wf[w->f].fd, w->kind, w->dl);
    w->blocked = false; w->res = r; w->done = true; vh_log(v, RET, w->f, w->kind, r);
    if (r == NECO_OK) { if (!w->ready0 && wf[w->f].gen[w->kind] == w->g0) VIOL("wait returned OK although the descriptor never became ready for %s", w->kind == NECO_WAIT_READ ? "reading" : "writing"); vh_count("waits_ready", 1); }
    else if (r == NECO_TIMEDOUT) { if (w->dl == INT64_MAX || vh_time() < w->dl) VIOL("wait timed out too early"); vh_count("waits_timedout", 1); }
    else if (r == NECO_CANCELED) { if (!w->canceled) VIOL("wait canceled without a cancelation"); vh_count("waits_canceled", 1); }
    else VIOL("wait returned %d errno %d", r, errno);
    w->used = false;
}
static char junk[65536];
static void update(int f) { for (int k = 1; k <= 2; k++) if (isready(f, k)) wf[f].gen[k]++; }
static void settle(void) {
    int64_t now = vh_time();
    for (int i = 0; i < 6 + nf / 6; i++) neco_yield();
    for (int i = 0; i < nwt; i++) if (wt[i].used && wt[i].blocked && isready(wt[i].f, wt[i].kind)) VIOL("waiter %d is still blocked although its descriptor is ready for %s", i, wt[i].kind == NECO_WAIT_READ ? "reading" : "writing");
    for (int i = 0; i < nwt; i++) if (wt[i].used && wt[i].blocked && wt[i].dl < now - 10) VIOL("waiter %d is still blocked after its deadline", i);
}
static void wyield(int argc, void *argv[]) { (void)argc; (void)argv; while (!chaos_stop) { vh_now += 50000; neco_yield(); } }
static void wmain(int argc, void *argv[]) {
    (void)argc; (void)argv; chaos_stop = false; bool busy = vh_chance(1, 3); if (busy) neco_start(wyield, 0);
    int steps = vh_range(10, nf > 4 ? 250 : 60), maxwt = nf > 4 ? NWT : 24;
    if (nf > 4 && vh_chance(1, 3)) { // a herd
        for (int i = vh_range(40, 160); i > 0; i--) {
            struct waiter *w = &wt[nwt++]; memset(w, 0, sizeof *w); w->used = true; w->f = (int)vh_rn((uint32_t)nf); w->kind = vh_chance(2, 3) ? NECO_WAIT_READ : NECO_WAIT_WRITE;
            w->dl = vh_chance(1, 6) ? vh_time() + vh_range(0, 3000) * US : INT64_MAX; neco_start(waiter, 1, w);
        }
        vh_count("herds", 1);
    }
    for (int s = 0; s < steps; s++) {
        int op = (int)vh_rn(10), f = (int)vh_rn((uint32_t)nf);
        if (nf > 4 && vh_chance(1, 25)) { // many at once
            int n = 0; for (int i = 0; i < nf; i++) if (!wf[i].hup && vh_chance(3, 4)) { if (__real_write(wf[i].peer, "abc", 3) < 0) { } if (vh_chance(1, 2)) while (__real_read(wf[i].peer, junk, sizeof junk) > 0) { } update(i); n++; }
            vh_log(99, TOGGLE, n, 20, 0); if (n > 16) vh_count("many_ready", 1); settle(); continue;
        }
        if (vh_chance(1, 15)) { // the descriptor number is used again
            bool w = false; for (int i = 0; i < nwt; i++) if (wt[i].used && wt[i].f == f) w = true;
            if (!w) {
                int fd = wf[f].fd, p[2]; vh_log(99, TOGGLE, f, 21, 0); __real_close(fd); if (wf[f].peer >= 0) __real_close(wf[f].peer);
                if (vh_chance(1, 2)) neco_sleep(vh_range(1, 300) * MS);
                if (vh_spair(p)) vh_error("socketpair");
                if (p[0] != fd) { if (p[1] == fd) { int t = p[0]; p[0] = p[1]; p[1] = t; } else { if (dup2(p[0], fd) != fd) vh_error("dup2"); __real_close(p[0]); p[0] = fd; } }
                wf[f].peer = p[1]; wf[f].hup = false; int sz = 2048; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); if (vh_chance(1, 2)) while (__real_write(fd, junk, sizeof junk) > 0) { }
                update(f); vh_count("fd_reused", 1); continue;
            }
        }
        if (op < 4 && nwt < maxwt) {
            struct waiter *w = &wt[nwt++]; memset(w, 0, sizeof *w); w->used = true; w->f = f; w->kind = vh_chance(2, 3) ? NECO_WAIT_READ : NECO_WAIT_WRITE;
            if (wf[f].hup && vh_chance(1, 2)) { w->used = false; nwt--; continue; }
            w->dl = vh_chance(1, 3) ? vh_time() + vh_range(0, 3000) * US : INT64_MAX;
            neco_start(waiter, 1, w);
        } else if (op < 8) {
            if (wf[f].hup) continue;
            vh_log(99, TOGGLE, f, op, 0);
            switch (vh_rn(12)) {
            case 0: case 1: case 2: case 3: if (__real_write(wf[f].peer, "abc", 3) < 0) { } break;
            case 4: case 5: case 6: while (__real_read(wf[f].fd, junk, sizeof junk) > 0) { } break;
            case 7: while (__real_write(wf[f].fd, junk, sizeof junk) > 0) { } break;
            case 8: case 9: while (__real_read(wf[f].peer, junk, sizeof junk) > 0) { } break;
            case 10: shutdown(wf[f].peer, SHUT_WR); break;
            case 11: __real_close(wf[f].peer); wf[f].peer = -1; wf[f].hup = true; break;
            }
            update(f);
        } else if (op == 8) { int i = nwt ? (int)vh_rn((uint32_t)nwt) : -1; if (i >= 0 && wt[i].used && wt[i].blocked) { wt[i].canceled = true; vh_log(i, CANCEL, 0, 0, 0); neco_cancel(wt[i].id); } }
        else neco_sleep(vh_range(1, vh_chance(1, 5) ? 200000 : 1500) * US);
        if (vh_chance(1, 2)) settle();
    }
    settle();
    for (int i = 0; i < nwt; i++) if (wt[i].used) { if (isready(wt[i].f, wt[i].kind)) VIOL("waiter %d blocked although ready", i); wt[i].canceled = true; neco_cancel(wt[i].id); }
    for (int i = 0; i < 5; i++) neco_yield();
    for (int i = 0; i < nwt; i++) if (wt[i].used) VIOL("waiter %d did not end after its cancelation", i);
    chaos_stop = true;
}
static void one_wait(void) {
    nf = vh_chance(1, 8) ? vh_range(17, NF) : vh_range(1, 4); nwt = 0; memset(wf, 0, sizeof wf); memset(wt, 0, sizeof wt);
    for (int i = 0; i < nf; i++) { int p[2]; if (vh_spair(p)) vh_error("socketpair"); wf[i].fd = p[0]; wf[i].peer = p[1]; int sz = 2048; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); while (vh_chance(1, 2) && __real_write(p[0], junk, sizeof junk) > 0) { } update(i); }
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, wmain, 0)) vh_fatal("start");
    for (int i = 0; i < nf; i++) { __real_close(wf[i].fd); if (wf[i].peer >= 0) __real_close(wf[i].peer); }
    if (nwt < 3) vh_trivial();
}

// ------------------------------------------------------------ stream
static neco_stream *ss[2]; static bool sbuf[2]; static size_t scap[2]; static int sfd[2]; static uint32_t skey; static uint64_t sacc, sdel; static bool swdone, srdone, susedl; static int sworking; static uint64_t stotal;
static void swriter(int argc, void *argv[]) {
    (void)argc; (void)argv; victims[0] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0); static unsigned char b[30000]; int fd = sfd[1];
    bool closed = false;
    while (sacc < stotal) {
        int64_t dl = rdl(susedl);
        if (vh_chance(1, 5)) {
            vh_log(0, SF, 0, 0, 0); long w0 = io[fd].wbytes;
            int r = dl == INT64_MAX ? neco_stream_flush(ss[1]) : neco_stream_flush_dl(ss[1], dl); int le = neco_lasterr();
            vh_log(0, RET, SF, 0, r);
            if (le != r) VIOL("flush returned %d and left lasterr %d", r, le);
            if (r == NECO_OK) { if ((uint64_t)io[fd].wbytes != sacc) VIOL("flush returned OK but %ld of %llu accepted bytes were written", (long)io[fd].wbytes, (unsigned long long)sacc); vh_count("flushes", 1); }
            else if (r == NECO_PARTIALWRITE) { if (io[fd].wbytes == w0) VIOL("flush reported a partial write but nothing was written"); if (!(cancelpend(0) > 0 || (dl != INT64_MAX && vh_time() >= dl))) VIOL("partial flush without a deadline or cancelation"); vh_count("flush_partial", 1); }
            else { failrules(0, "flush", r, dl, 1); if (io[fd].wbytes != w0) VIOL("flush failed with %d but wrote %ld bytes", r, (long)io[fd].wbytes - w0); }
        } else {
            size_t n = vh_chance(1, 3) ? (size_t)vh_range(0, 6) : vh_chance(1, 2) ? (size_t)vh_range(1, 600) : (size_t)vh_range(1, 30000); if (n > stotal - sacc) n = stotal - sacc;
            for (size_t i = 0; i < n; i++) b[i] = pat(skey, sacc + i);
            vh_log(0, SW, 0, (int64_t)n, 0); long w0 = io[fd].wbytes;
            ssize_t r = dl == INT64_MAX ? neco_stream_write(ss[1], b, n) : neco_stream_write_dl(ss[1], b, n, dl); int le = neco_lasterr();
            vh_log(0, RET, SW, 0, r < 0 ? r : 0);
            if (r > (ssize_t)n) VIOL("stream write of %zu bytes returned %zd", n, r);
            else if (r < 0) {
                // nothing of this call was accepted; a flush of older bytes may have been partial
                if (r == NECO_PARTIALWRITE) { if (io[fd].wbytes == w0) VIOL("stream write reported a partial flush but nothing was written"); }
                else { errno = 0; failrules(0, "stream write", le, dl, 1); }
            } else {
                sacc += (uint64_t)r;
                if (r < (ssize_t)n && !(cancelpend(0) > 0 || (dl != INT64_MAX && vh_time() >= dl))) VIOL("stream write of %zu bytes returned %zd without a deadline or cancelation", n, r);
            }
        }
        // every accepted byte is either in the buffer or written
        ssize_t bs = neco_stream_buffered_write_size(ss[1]);
        if (bs < 0 || (uint64_t)io[fd].wbytes + (uint64_t)bs != sacc) VIOL("%llu bytes accepted, %ld written, %zd buffered", (unsigned long long)sacc, (long)io[fd].wbytes, bs);
        if (!sbuf[1] && bs != 0) VIOL("unbuffered stream buffers %zd bytes", bs);
        if (sbuf[1] && bs > (ssize_t)scap[1]) VIOL("buffer of %zu holds %zd bytes", scap[1], bs);
        if (vh_chance(1, 6)) neco_yield();
        if (vh_chance(1, 12)) { int sr = neco_sleep(vh_range(1, 300) * US); if (sr == NECO_CANCELED) got_cancel[0] = cancels_to[0]; }
    }
    int r;
    if (vh_chance(1, 3)) { // with a deadline or while being canceled: reports it if not all was written, and closes all the same
        int64_t dl = rdl(susedl); r = neco_stream_close_dl(ss[1], dl); int le = neco_lasterr(); if (le != r) VIOL("stream close returned %d, last error %d", r, le);
        vh_log(0, RET, SF, 1, r); victims[0] = 0; bool all = (uint64_t)io[fd].wbytes == sacc;
        if (r != NECO_OK && r != NECO_PARTIALWRITE) { errno = 0; failrules(0, "stream close", r, dl, 1); } else if (r == NECO_PARTIALWRITE && !(cancelpend(0) > 0 || (dl != INT64_MAX && vh_time() >= dl))) VIOL("partial close without a deadline or cancelation");
        if (r == NECO_OK && !all) VIOL("stream close returned OK but %ld of %llu accepted bytes were written", (long)io[fd].wbytes, (unsigned long long)sacc);
        if (!all) { if ((uint64_t)io[fd].wbytes > sacc) VIOL("more bytes written than accepted"); sacc = (uint64_t)io[fd].wbytes; vh_count("close_short", 1); }
    } else {
        victims[0] = 0; for (int i = 0; i < 3; i++) neco_yield();
        // take what is still pending
        while (neco_sleep(1000) != NECO_OK) { }
        got_cancel[0] = cancels_to[0];
        if (vh_chance(1, 3)) {
            r = neco_stream_flush(ss[1]); if (r != NECO_OK) VIOL("final flush returned %d", r);
        }
        r = neco_stream_close(ss[1]);
        if (r != NECO_OK) VIOL("stream close returned %d", r);
    }
    closed = true;
    if (!io[fd].closed) VIOL("stream close did not close its descriptor");
    if ((uint64_t)io[fd].wbytes != sacc) VIOL("closed stream wrote %ld of %llu accepted bytes", (long)io[fd].wbytes, (unsigned long long)sacc);
    (void)closed; swdone = true; sworking--;
}
static void sreader(int argc, void *argv[]) {
    (void)argc; (void)argv; victims[1] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0); static unsigned char b[30016]; int fd = sfd[0];
    bool eof = false; int unreadable = 0; // bytes certain to be unreadable: 1 after a successful read
    while (!eof) {
        int64_t dl = rdl(susedl); int op = (int)vh_rn(10); vh_pend[1] = INT64_MAX; long a0 = io[fd].rbytes; (void)a0;
        if (op < 3) {
            vh_log(1, SRB, 0, 0, 0); int r = (vh_pend[1] = dl) == INT64_MAX ? neco_stream_read_byte(ss[0]) : neco_stream_read_byte_dl(ss[0], dl); vh_pend[1] = INT64_MAX; notlate("stream read", dl); int le = neco_lasterr(); vh_log(1, RET, SRB, 0, r < 0 ? r : 0);
            if (r >= 0) { if (r > 255 || (unsigned char)r != pat(skey, sdel)) VIOL("read_byte at %llu returned %d, expected %d", (unsigned long long)sdel, r, pat(skey, sdel)); if (le != 0) VIOL("read_byte left lasterr %d", le); sdel++; unreadable = 1; vh_count("bytes", 1); }
            else if (r == NECO_EOF) eof = true;
            else failrules(1, "read_byte", le, dl, 1);
        } else if (op < 5) {
            ssize_t bs0 = neco_stream_buffered_read_size(ss[0]);
            vh_log(1, SUB, 0, 0, 0); int r = neco_stream_unread_byte(ss[0]); vh_log(1, RET, SUB, 0, r);
            if (r == NECO_OK) { if (!sbuf[0]) VIOL("unread on an unbuffered stream"); if (sdel == 0) VIOL("unread before the first byte"); else sdel--; unreadable = 0; vh_count("unreads", 1); if (neco_stream_buffered_read_size(ss[0]) != bs0 + 1) VIOL("unread did not put the byte back"); }
            else if (r != NECO_UNREADFAIL) VIOL("unread returned %d", r);
            else if (unreadable && sbuf[0]) VIOL("the byte just read could not be unread");
        } else if (op < 8) {
            size_t n = vh_chance(1, 20) ? 0 : vh_chance(1, 2) ? (size_t)vh_range(1, 20) : (size_t)vh_range(1, 30000); memset(b + n, 0xCD, 16);
            vh_log(1, SR, 0, (int64_t)n, 0); ssize_t r = (vh_pend[1] = dl) == INT64_MAX ? neco_stream_read(ss[0], b, n) : neco_stream_read_dl(ss[0], b, n, dl); vh_pend[1] = INT64_MAX; notlate("stream read", dl); int le = neco_lasterr(); vh_log(1, RET, SR, 0, r < 0 ? r : 0);
            for (int i = 0; i < 16; i++) if (b[n + (size_t)i] != 0xCD) { VIOL("stream read wrote past its buffer"); break; }
            if (n == 0 && r == NECO_EOF) VIOL("an empty read reported the end of the stream");
            if (r > (ssize_t)n || (r == 0 && n > 0)) VIOL("stream read of %zu returned %zd", n, r);
            else if (r == 0) { unreadable = 0; vh_count("empty_reads", 1); } // it may have filled the buffer anew
            else if (r > 0) { for (ssize_t i = 0; i < r; i++) if (b[i] != pat(skey, sdel + (uint64_t)i)) { VIOL("byte %llu of the stream differs", (unsigned long long)sdel + (unsigned long long)i); eof = true; break; } sdel += (uint64_t)r; unreadable = 1; vh_count("bytes", (long)r); }
            else if (r == NECO_EOF) eof = true; else failrules(1, "stream read", le, dl, 1);
        } else {
            size_t n = vh_chance(1, 20) ? 0 : vh_chance(1, 2) ? (size_t)vh_range(1, 20) : (size_t)vh_range(1, 20000); memset(b + n, 0xCD, 16);
            vh_log(1, SRF, 0, (int64_t)n, 0); ssize_t r = (vh_pend[1] = dl) == INT64_MAX ? neco_stream_readfull(ss[0], b, n) : neco_stream_readfull_dl(ss[0], b, n, dl); vh_pend[1] = INT64_MAX; notlate("stream read", dl); int le = neco_lasterr(); vh_log(1, RET, SRF, 0, r < 0 ? r : 0);
            for (int i = 0; i < 16; i++) if (b[n + (size_t)i] != 0xCD) { VIOL("readfull wrote past its buffer"); break; }
            if (n == 0 && r == NECO_EOF) VIOL("an empty read reported the end of the stream");
            if (r > (ssize_t)n || (r == 0 && n > 0)) VIOL("readfull of %zu returned %zd", n, r);
            else if (r == 0) { unreadable = 0; vh_count("empty_reads", 1); } // it may have filled the buffer anew
            else if (r > 0) {
                for (ssize_t i = 0; i < r; i++) if (b[i] != pat(skey, sdel + (uint64_t)i)) { VIOL("byte %llu of the stream differs", (unsigned long long)sdel + (unsigned long long)i); eof = true; break; }
                sdel += (uint64_t)r; unreadable = 1; vh_count("bytes", (long)r);
                if (r < (ssize_t)n) { bool why = swdone || cancelpend(1) > 0 || (dl != INT64_MAX && vh_time() >= dl); if (!why) VIOL("readfull returned %zd of %zu without end of stream, deadline or cancelation", r, n); vh_count("readfull_short", 1); }
            } else if (r == NECO_EOF) eof = true; else failrules(1, "readfull", le, dl, 1);
        }
        if (eof && !swdone) VIOL("end of stream although the writer is open");
        ssize_t bs = neco_stream_buffered_read_size(ss[0]);
        if (bs < 0 || (uint64_t)io[fd].rbytes != sdel + (uint64_t)bs) VIOL("%ld bytes taken from the descriptor, %llu delivered, %zd buffered", (long)io[fd].rbytes, (unsigned long long)sdel, bs);
        if (vh_nviol) break;
        if (vh_chance(1, 8)) neco_yield();
        if (vh_chance(1, 15)) { int sr = neco_sleep(vh_range(1, 400) * US); if (sr == NECO_CANCELED) got_cancel[1] = cancels_to[1]; }
    }
    if (!vh_nviol && sdel != sacc) VIOL("%llu bytes accepted, %llu delivered", (unsigned long long)sacc, (unsigned long long)sdel);
    victims[1] = 0; for (int i = 0; i < 3; i++) neco_yield();
    while (neco_sleep(1000) != NECO_OK) { }
    int r = neco_stream_close(ss[0]); if (r != NECO_OK) VIOL("stream close returned %d", r);
    if (!io[fd].closed) VIOL("stream close did not close its descriptor");
    srdone = true; sworking--;
}
static void smain(int argc, void *argv[]) {
    (void)argc; (void)argv; sworking = 2;
    for (int i = 0; i < 2; i++) {
        sbuf[i] = vh_chance(3, 4); int r;
        scap[i] = vh_chance(1, 3) ? 4096 : vh_chance(1, 2) ? (size_t)vh_range(1, 16) : (size_t)vh_range(17, 9000);
        if (!sbuf[i]) r = neco_stream_make(&ss[i], sfd[i]); else if (scap[i] == 4096) r = neco_stream_make_buffered(&ss[i], sfd[i]); else r = neco_stream_make_buffered_size(&ss[i], sfd[i], scap[i]);
        if (r) vh_fatal("stream_make %d", r);
    }
    neco_start(sreader, 0); neco_start(swriter, 0);
    if (dochaos) { nchaos = 1; neco_start(chaos, 0); }
    while (!swdone) neco_sleep(1 * MS);
    chaos_stop = true;
    uint64_t last = 0;
    for (int k = 0; k < 200 && sworking > 0; k++) { neco_sleep(5 * MS); uint64_t p = (uint64_t)io[sfd[0]].rbytes + sdel + srdone; if (p != last) k = 0; last = p; }
    if (sworking) vh_fatal("the stream reader is blocked although %llu bytes and the end of the stream are waiting", (unsigned long long)(sacc - sdel));
}
static void one_stream(void) {
    if (vh_chance(1, 2) ? vh_pipe(sfd) : vh_spair(sfd)) vh_error("pipe");
    injseed = vh_rand(); arm(sfd[0], vh_chance(2, 3)); arm(sfd[1], vh_chance(2, 3)); skey = (uint32_t)vh_rand(); sacc = sdel = 0; swdone = srdone = false; susedl = vh_chance(1, 2); dochaos = vh_chance(1, 2); chaos_stop = false; nvict = 2;
    for (int i = 0; i < 64; i++) { victims[i] = 0; cancels_to[i] = got_cancel[i] = 0; }
    stotal = vh_chance(1, 3) ? (uint64_t)vh_range(1, 100) : (uint64_t)vh_range(1, 20000);
    if (vh_chance(1, 30)) stotal = 300000;
    if (stotal > 3000 && ((io[sfd[0]].shrt && io[sfd[0]].maxshort < 10) || (io[sfd[1]].shrt && io[sfd[1]].maxshort < 10))) stotal = 3000;
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, smain, 0)) vh_fatal("start");
}
// One stream in both directions, against a peer that reads and writes its end directly.
static uint32_t dkout; static uint64_t dacc, darr; static bool dinw, dend;
static void dtake(size_t l) {
    static unsigned char x[12000]; ssize_t k = __real_read(sfd[1], x, l < sizeof x ? l : sizeof x);
    for (ssize_t j = 0; j < k; j++) if (x[j] != pat(dkout, darr + (uint64_t)j)) { VIOL("byte %llu sent through a stream used both ways differs", (unsigned long long)darr + (unsigned long long)j); break; }
    if (k > 0) darr += (uint64_t)k;
}
static void dpump(int argc, void *argv[]) { (void)argc; (void)argv; while (!dend) { neco_sleep(300 * US); if (dinw) dtake((size_t)vh_range(1, 12000)); } } // a write that has to wait gets room
static void dmain(int argc, void *argv[]) {
    (void)argc; (void)argv; int a = sfd[0], b = sfd[1]; neco_stream *st; static unsigned char buf[12016];
    bool bf = vh_chance(7, 8); size_t cap = vh_chance(1, 4) ? 4096 : vh_chance(1, 2) ? (size_t)vh_range(1, 16) : (size_t)vh_range(17, 9000);
    int r = !bf ? neco_stream_make(&st, a) : cap == 4096 ? neco_stream_make_buffered(&st, a) : neco_stream_make_buffered_size(&st, a, cap);
    if (r) vh_fatal("stream_make %d", r);
    uint32_t kin = (uint32_t)vh_rand(); dkout = (uint32_t)vh_rand(); uint64_t in = 0, del = 0; dacc = darr = 0; dinw = dend = false; neco_start(dpump, 0); int64_t pump = neco_lastid(); bool unr = false, mayblock = vh_chance(1, 2);
    int n = vh_range(4, 60); size_t big = vh_chance(1, 3) ? 6 : vh_chance(1, 2) ? 200 : 6000;
    for (int i = 0; i < n && !vh_nviol; i++) {
        size_t l = (size_t)vh_range(1, (int)big); ssize_t k; int op = (int)vh_rn(12); vh_log(0, SF, op, (int64_t)l, 0);
        if (op < 2) { // the peer writes
            if (in - del > 20000) continue;
            for (size_t j = 0; j < l; j++) buf[j] = pat(kin, in + j);
            k = __real_write(b, buf, l); if (k > 0) in += (uint64_t)k;
        } else if (op < 4) { // the peer reads
            dtake(l);
            if (darr > dacc) VIOL("%llu bytes accepted, %llu arrived", (unsigned long long)dacc, (unsigned long long)darr);
        } else if (op < 7) {
            if (dacc - darr > 12000) continue;
            for (size_t j = 0; j < l; j++) buf[j] = pat(dkout, dacc + j);
            dinw = true; k = neco_stream_write(st, buf, l); dinw = false; if (k != (ssize_t)l) VIOL("stream write of %zu bytes returned %zd", l, k); else dacc += l;
            vh_count("bytes", (long)l);
        } else if (op == 7) { dinw = true; r = neco_stream_flush(st); dinw = false; if (r != NECO_OK) VIOL("flush returned %d", r); if ((uint64_t)io[a].wbytes != dacc) VIOL("flush returned OK but %ld of %llu accepted bytes were written", (long)io[a].wbytes, (unsigned long long)dacc); }
        else if (op == 8) {
            r = neco_stream_unread_byte(st);
            if (r == NECO_OK) { if (!del) VIOL("unread before the first byte"); else del--; if (!bf) VIOL("unread on an unbuffered stream"); } else if (r != NECO_UNREADFAIL) VIOL("unread returned %d", r); else if (unr && bf) VIOL("the byte just read could not be unread");
            unr = false;
        } else { // read what is there, or nothing
            memset(buf + l, 0xCD, 16); bool avail = in > del; int64_t dl = avail ? INT64_MAX : neco_now() + vh_range(1, 500) * US; if (!avail && !mayblock) continue;
            if (op == 9) { l = 1; r = neco_stream_read_byte_dl(st, dl); k = r < 0 ? r : 1; buf[0] = (unsigned char)r; }
            else if (op == 10) { if (avail && l > in - del) l = in - del; memset(buf + l, 0xCD, 16); k = neco_stream_readfull_dl(st, buf, l, dl); if (avail && k != (ssize_t)l) VIOL("readfull of %zu available bytes returned %zd", l, k); }
            else k = neco_stream_read_dl(st, buf, l, dl);
            if (!avail) { int le = neco_lasterr(); if (k >= 0 || le != NECO_TIMEDOUT) VIOL("a read without any data returned %zd, last error %d", k, le); }
            else if (k <= 0 || k > (ssize_t)l) VIOL("a read of %zu with %llu bytes there returned %zd", l, (unsigned long long)(in - del), k);
            else {
                for (ssize_t j = 0; j < k; j++) if (buf[j] != pat(kin, del + (uint64_t)j)) { VIOL("byte %llu received through a stream used both ways differs", (unsigned long long)del + (unsigned long long)j); break; }
                if (op != 9) for (int j = 0; j < 16; j++) if (buf[l + (size_t)j] != 0xCD) { VIOL("read past its buffer"); break; }
                del += (uint64_t)k; unr = true; vh_count("bytes", (long)k);
            }
        }
        ssize_t wb = neco_stream_buffered_write_size(st), rb = neco_stream_buffered_read_size(st);
        if (wb < 0 || (uint64_t)io[a].wbytes + (uint64_t)wb != dacc) VIOL("%llu bytes accepted, %ld written, %zd buffered", (unsigned long long)dacc, (long)io[a].wbytes, wb);
        if (rb < 0 || (uint64_t)io[a].rbytes != del + (uint64_t)rb) VIOL("%ld bytes taken from the descriptor, %llu delivered, %zd buffered", (long)io[a].rbytes, (unsigned long long)del, rb);
    }
    if (!vh_nviol) {
        dinw = true; r = neco_stream_close(st); dinw = false; if (r != NECO_OK) VIOL("stream close returned %d", r);
        for (uint64_t q = darr + 1; q != darr; ) { q = darr; dtake(12000); }
        if (darr != dacc) VIOL("%llu bytes accepted, %llu arrived", (unsigned long long)dacc, (unsigned long long)darr);
    } else neco_stream_release(st);
    dend = true; neco_join(pump); vh_count("both_ways", 1); __real_close(b);
}
static void one_duplex(void) {
    if (vh_spair(sfd)) vh_error("socketpair");
    injseed = vh_rand(); arm(sfd[0], vh_chance(2, 3)); if (io[sfd[0]].shrt) io[sfd[0]].maxshort = vh_range(1, 60);
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, dmain, 0)) vh_fatal("start");
}
// ------------------------------------------------------------ err
// A system call that fails: the error is reported as it is, once, nothing is lost
// and nothing is repeated, and the next call works.
static int conv(int e) { return e == EINVAL ? NECO_INVAL : e == EPERM ? NECO_PERM : e == ENOMEM ? NECO_NOMEM : e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR; }
static void failat(int fd, int e) { io[fd].oe = e; io[fd].pre = vh_chance(1, 2) ? 0 : vh_range(1, 4); }
static void emain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int n = vh_range(1, 8);
    for (int i = 0; i < n; i++) {
        int p[2], e, kind = vh_rn(8); do e = vh_chance(1, 4) ? (int[]){EIO, ECONNRESET, EPIPE, ENOSPC, EBADF, EINVAL, ENOMEM, EPERM, EBUSY, ETIMEDOUT}[vh_rn(10)] : vh_range(1, 133); while (e == EINTR || e == EAGAIN);
        if (vh_chance(1, 2) ? vh_pipe(p) : vh_spair(p)) vh_error("pipe"); // (p[0] reads, p[1] writes)
        arm(p[0], 0); arm(p[1], 0); uint32_t key = (uint32_t)vh_rand(); unsigned char b[256], g[512]; memset(g, 0, sizeof g); int len = vh_range(1, 200), back = 0; ssize_t r; int en, le;
        for (int k = 0; k < 256; k++) b[k] = pat(key, (uint64_t)k);
        int64_t dl = vh_chance(1, 2) ? INT64_MAX : vh_time() + 3600 * NECO_SECOND; neco_stream *st = 0; bool closed = false;
        int want = conv(e);
#define FAILED(what) do { en = errno; le = neco_lasterr(); if (le != want) VIOL("%s: last error %d after errno %d, expected %d", what, le, e, want); if (en != e) VIOL("%s: errno %d, expected %d", what, en, e); } while (0)
        vh_log(0, ERR, kind, e, len); vh_count("injected_errors", 1);
        switch (kind) {
        case 0: if (__real_write(p[1], b, (size_t)len) != len) vh_error("w"); back = len; failat(p[0], e); errno = 0; r = neco_read_dl(p[0], g, 256, dl); if (r != -1) VIOL("read returned %zd although it failed with errno %d", r, e); else FAILED("read");
            r = neco_read_dl(p[0], g, 256, dl); if (r != len || memcmp(g, b, (size_t)len)) VIOL("read after a failed one returned %zd of %d", r, len); back = 0; break;
        case 1: failat(p[1], e); errno = 0; r = neco_write_dl(p[1], b, (size_t)len, dl); if (r != -1) VIOL("write returned %zd although it failed with errno %d", r, e); else FAILED("write");
            r = neco_write_dl(p[1], b, (size_t)len, dl); if (r != len) VIOL("write after a failed one returned %zd of %d", r, len); back = len; break;
        case 2: case 3: case 4: {
            int half = vh_rn((uint32_t)len + 1);
            if ((kind == 2 ? neco_stream_make(&st, p[0]) : neco_stream_make_buffered_size(&st, p[0], (size_t)vh_range(1, 300))) != NECO_OK) vh_error("stream");
            if (half) { if (__real_write(p[1], b, (size_t)half) != half) vh_error("w"); r = neco_stream_readfull_dl(st, g, (size_t)half, dl); if (r != half || memcmp(g, b, (size_t)half)) VIOL("stream readfull returned %zd of %d", r, half); }
            failat(p[0], e); errno = 0; if (len > half && __real_write(p[1], b + half, (size_t)(len - half)) != len - half) vh_error("w");
            if (len > half) {
                errno = 0; r = kind == 4 ? neco_stream_read_byte_dl(st, dl) : kind == 3 && vh_chance(1, 2) ? neco_stream_readfull_dl(st, g, (size_t)(len - half), dl) : neco_stream_read_dl(st, g, 256, dl);
                if (r != (kind == 2 ? -1 : want)) VIOL("stream read returned %zd although it failed with errno %d", r, e); else FAILED("stream read");
                r = neco_stream_readfull_dl(st, g + half, (size_t)(len - half), dl); if (r != len - half || memcmp(g, b, (size_t)len)) VIOL("stream read after a failed one returned %zd of %d", r, len - half);
            } else io[p[0]].oe = 0;
            neco_stream_release(st); break; }
        case 5: case 6: case 7: {
            int cap = vh_range(1, 300), acc = 0; if (neco_stream_make_buffered_size(&st, p[1], (size_t)cap) != NECO_OK) vh_error("stream");
            if (kind == 5 || len <= cap) { // fails in the flush
                int part = len < cap ? len : cap; r = neco_stream_write_dl(st, b, (size_t)part, dl); if (r != part) VIOL("stream write returned %zd of %d", r, part); acc = part;
                failat(p[1], e); errno = 0;
                if (kind == 7) { r = neco_stream_close_dl(st, dl); if (r != want) VIOL("stream close returned %zd although its flush failed with errno %d", r, e); closed = true; acc = 0; if (!io[p[1]].closed) VIOL("a stream whose last flush failed is not closed"); break; }
                r = neco_stream_flush_dl(st, dl); if (r != want) VIOL("flush returned %zd although it failed with errno %d", r, e); else FAILED("flush");
                if (neco_stream_buffered_write_size(st) != acc) VIOL("%zd bytes are buffered after a failed flush of %d", neco_stream_buffered_write_size(st), acc);
            } else { // fails in a write that has to flush
                failat(p[1], e); errno = 0; r = neco_stream_write_dl(st, b, (size_t)len, dl);
                if (r != cap) VIOL("stream write of %d bytes with a buffer of %d returned %zd when it failed with errno %d", len, cap, r, e);
                acc = r > 0 ? (int)r : 0;
                if (acc < len) { r = neco_stream_write_dl(st, b + acc, (size_t)(len - acc), dl); if (r != len - acc) VIOL("stream write after a failed one returned %zd of %d", r, len - acc); acc = len; }
            }
            r = neco_stream_flush_dl(st, dl); if (r != NECO_OK) VIOL("flush after a failed one returned %zd", r);
            back = acc; neco_stream_release(st); break; }
        }
        // what was accepted is there, once
        if (!closed) { r = __real_read(p[0], g, sizeof g); if (back == 0 ? r > 0 : r != back || memcmp(g, b, (size_t)back)) VIOL("%d bytes were accepted, %zd arrived", back, r); }
        if (io[p[0]].on) neco_yield();
        close(p[0]); if (!closed) close(p[1]);
    }
}
static void one_err(void) { vh_virtual = true; if (vh_jitter) vh_jitter_max = 20 * US; if (vh_start(VH_NZ_EV|VH_NZ_SIG, emain, 0) != NECO_OK) vh_error("start"); }
static void one(uint64_t seed) {
    (void)seed; vh_opnames(names, NOPS); const char *m = vh_mode; long l0 = vh_track_live(); int f0 = vh_nfds(); long i0 = totalinj;
    if (vh_chance(1, 4)) { vh_jitter = vh_range(3, 40); vh_jitter_max = vh_range(1, 800) * US; }
    int k = !strcmp(m, "xfer") ? 0 : !strcmp(m, "multi") ? 1 : !strcmp(m, "file") ? 2 : !strcmp(m, "wait") ? 3 : !strcmp(m, "stream") ? 4 : !strcmp(m, "err") ? 5 : (int)vh_rn(6);
    if (k == 0) one_xfer(); else if (k == 1) one_multi(); else if (k == 2) one_file(); else if (k == 3) one_wait(); else if (k == 5) one_err(); else if (vh_chance(1, 3)) one_duplex(); else one_stream();
    for (int i = 0; i < MAXFD; i++) io[i].on = false;
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    if (vh_nfds() != f0) VIOL("%d descriptors leaked by the case", vh_nfds() - f0);
    vh_count("faults", totalinj - i0);
}
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); vh_track_install(); return vh_run(argc, argv, one); }
