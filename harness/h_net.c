// Networking: dial, serve, accept, connect, name resolution. In real time on
// the loopback and on unix sockets in the working directory; the resolver is a
// stand-in whose answers the case chooses.
// Modes: conn, gai, addr, slow (connections that take time), fault (fixed), mix.
#include "vh.h"
#include <stdatomic.h>
#include <pthread.h>
#include <signal.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>

enum { SERVE, DIAL, ACCEPT, HANDLED, CANC, GAI, FAULT, NOPS };
static const char *const names[] = {"serve","dial","accept","handled","cancel","resolve","fault"};
int __real_nanosleep(const struct timespec *req, struct timespec *rem);
static void rsleep(long us) { struct timespec ts = { us / 1000000, (us % 1000000) * 1000 }; __real_nanosleep(&ts, 0); }

// ------------------------------------------------------------ resolver
int __real_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res);
void __real_freeaddrinfo(struct addrinfo *ai);
#define NLIST 256
static pthread_mutex_t gmu = PTHREAD_MUTEX_INITIALIZER;
static struct { struct addrinfo *p; bool mine; } lists[NLIST]; static int nlists; static long gcalls; static int badfree;
static struct { char node[300], service[300]; struct addrinfo hints; bool hashints, nonode, noservice; pthread_t th; } lastg;
static void ladd(struct addrinfo *p, bool mine) { pthread_mutex_lock(&gmu); for (int i = 0; i < NLIST; i++) if (!lists[i].p) { lists[i].p = p; lists[i].mine = mine; nlists++; break; } pthread_mutex_unlock(&gmu); }
static int nlive(void) { pthread_mutex_lock(&gmu); int n = nlists; pthread_mutex_unlock(&gmu); return n; }
static int fault_call(int which);
enum { F_SOCKET, F_CONNECT, F_BIND, F_LISTEN, F_ACCEPT, F_FCNTL, F_SETSOCKOPT, F_PIPE, F_PTHREAD, F_GAI, NF };
static const char *const fname[] = {"socket","connect","bind","listen","accept","fcntl","setsockopt","pipe","pthread_create","getaddrinfo"};
// node "r<delay us>_<error>_<spec>.test"; spec: one letter per address: 4 6 for
// the case's loopback servers, x for a refused port, s f n for a stand-in
// connection that succeeds or fails later or never ends
static int port4, port6, portx, cth0; // (cth0: threads before the case)
#define ECHOPORT -7 // answer with the port that was asked for
#define NSLOW 200
enum { Q_NEW, Q_PROG, Q_DUE, Q_CONN, Q_FAILED };
static struct { char kind; int state, peer, fd; int64_t due; } slow[NSLOW]; static int nslow;
#define SLOWPORT 1 // ports 1.. stand for the slow connections while the mode is on
static bool slowmode;
static int mkslow(char kind) { pthread_mutex_lock(&gmu); int k = nslow < NSLOW ? nslow++ : NSLOW - 1; slow[k].kind = kind; slow[k].state = Q_NEW; slow[k].peer = slow[k].fd = -1; pthread_mutex_unlock(&gmu); return SLOWPORT + k; }
static struct addrinfo *mkai(char c, const struct addrinfo *h, int port) {
    struct addrinfo *a = calloc(1, sizeof *a); a->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; a->ai_protocol = h ? h->ai_protocol : 0; a->ai_flags = h ? h->ai_flags | h->ai_family << 16 | 1 << 30 : 0;
    if (c == '6') { struct sockaddr_in6 *s = calloc(1, sizeof *s); s->sin6_family = AF_INET6; s->sin6_addr = in6addr_loopback; s->sin6_port = htons((uint16_t)port); a->ai_family = AF_INET6; a->ai_addr = (void*)s; a->ai_addrlen = sizeof *s; }
    else { struct sockaddr_in *s = calloc(1, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); s->sin_port = htons((uint16_t)port); a->ai_family = AF_INET; a->ai_addr = (void*)s; a->ai_addrlen = sizeof *s; }
    return a;
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    pthread_mutex_lock(&gmu); gcalls++; memset(&lastg, 0, sizeof lastg); lastg.nonode = !node; lastg.noservice = !service; if (node) snprintf(lastg.node, sizeof lastg.node, "%s", node); if (service) snprintf(lastg.service, sizeof lastg.service, "%s", service);
    if (hints) { lastg.hashints = true; lastg.hints = *hints; } lastg.th = pthread_self(); pthread_mutex_unlock(&gmu);
    int fc = fault_call(F_GAI); if (fc) return fc;
    long delay = 0; int err = 0; char spec[40] = "";
    if (node && sscanf(node, "r%ld_%d_%39[46xsfn]", &delay, &err, spec) >= 2) {
        if (delay) rsleep(delay);
        // the strings belong to the library until the lookup is over
        volatile char c = 0; for (const char *p = node; *p; p++) c ^= *p;
        if (service) for (const char *p = service; *p; p++) c ^= *p;
        (void)c;
        if (err == 11) { errno = EPROTO; return EAI_SYSTEM; }
        if (err) return -err;
        struct addrinfo *head = 0, **tail = &head;
        for (char *p = spec; *p; p++) { *tail = mkai(*p, hints, port4 == ECHOPORT ? service ? *service ? atoi(service) : 61234 : 0 : *p == '4' ? port4 : *p == '6' ? port6 : *p == 'x' ? portx : mkslow(*p)); tail = &(*tail)->ai_next; }
        if (head) ladd(head, true);
        *res = head; return 0;
    }
    int r = __real_getaddrinfo(node, service, hints, res);
    if (r == 0 && *res) ladd(*res, false);
    return r;
}
void __wrap_freeaddrinfo(struct addrinfo *ai) {
    if (!ai) return;
    pthread_mutex_lock(&gmu); int k = -1; for (int i = 0; i < NLIST; i++) if (lists[i].p == ai) k = i;
    if (k < 0) { badfree++; pthread_mutex_unlock(&gmu); return; }
    bool mine = lists[k].mine; lists[k].p = 0; nlists--; pthread_mutex_unlock(&gmu);
    if (!mine) { __real_freeaddrinfo(ai); return; }
    while (ai) { struct addrinfo *n = ai->ai_next; free(ai->ai_addr); memset(ai, 0xDD, sizeof *ai); free(ai); ai = n; }
}
// ------------------------------------------------------------ faults
static int fwhich = -1, fat, ferr, fseen[NF], fhit; static __thread bool casethr; static _Atomic bool farm_;
#define farm atomic_load_explicit(&farm_, memory_order_relaxed)
#define setfarm(v) atomic_store_explicit(&farm_, (v), memory_order_relaxed)
static int fault_call(int which) {
    if (!farm || (!casethr && which != F_GAI)) return 0;
    fseen[which]++;
    if (which == fwhich && fseen[which] == fat) { fhit++; return ferr; }
    return 0;
}
int __real_socket(int d, int t, int p); int __wrap_socket(int d, int t, int p) { int e = fault_call(F_SOCKET); if (e) { errno = e; return -1; } vh_fd0(3); return vh_high(__real_socket(d, t, p)); }
static int slow_connect(int k, int fd); int __real_connect(int fd, const struct sockaddr *a, socklen_t l); int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
    int e = fault_call(F_CONNECT); if (e) { errno = e; return -1; }
    if (slowmode && casethr && a->sa_family == AF_INET) { int k = ntohs(((const struct sockaddr_in*)a)->sin_port) - SLOWPORT; if (k >= 0 && k < nslow) return slow_connect(k, fd); }
    return __real_connect(fd, a, l);
}
int __real_bind(int fd, const struct sockaddr *a, socklen_t l); int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { int e = fault_call(F_BIND); if (e) { errno = e; return -1; } return __real_bind(fd, a, l); }
int __real_listen(int fd, int n); int __wrap_listen(int fd, int n) { int e = fault_call(F_LISTEN); if (e) { errno = e; return -1; } return __real_listen(fd, n); }
int __real_accept(int fd, struct sockaddr *a, socklen_t *l); int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { int e = fault_call(F_ACCEPT); if (e) { errno = e; return -1; } vh_fd0(5); return vh_high(__real_accept(fd, a, l)); }
int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int f); int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int e = fault_call(F_ACCEPT); if (e) { errno = e; return -1; } return __real_accept4(fd, a, l, f); }
int __real_setsockopt(int fd, int a, int b, const void *v, socklen_t l); int __wrap_setsockopt(int fd, int a, int b, const void *v, socklen_t l) { int e = fault_call(F_SETSOCKOPT); if (e) { errno = e; return -1; } return __real_setsockopt(fd, a, b, v, l); }
int __real_pipe(int p[2]); int __wrap_pipe(int p[2]) { int e = fault_call(F_PIPE); if (e) { errno = e; return -1; } vh_fd0(4); int r = __real_pipe(p); if (!r) { p[0] = vh_high(p[0]); p[1] = vh_high(p[1]); } return r; }
int __real_fcntl(int fd, int cmd, long arg); int __wrap_fcntl(int fd, int cmd, long arg) { int e = fault_call(F_FCNTL); if (e) { errno = e; return -1; } return __real_fcntl(fd, cmd, arg); }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v); int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *v) { int e = fault_call(F_PTHREAD); if (e) return e; return __real_pthread_create(t, a, f, v); }
static int conv(int e) { switch (e) { case EINVAL: return NECO_INVAL; case EPERM: return NECO_PERM; case ENOMEM: return NECO_NOMEM; case ECANCELED: return NECO_CANCELED; case ETIMEDOUT: return NECO_TIMEDOUT; default: return NECO_ERROR; } }

static bool have6;
static bool nonblock(int fd) { return (__real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK) != 0; }
static int refport(void) { // a port nobody listens on
    int s = __real_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a;
    if (__real_bind(s, (void*)&a, l) || getsockname(s, (void*)&a, &l)) vh_error("refport");
    close(s); return ntohs(a.sin_port);
}
// ------------------------------------------------------------ conn
#define NCL 40
static int ncl, nets, sfd, clive, hlive; static char net[8], daddr[400]; static int atok[NCL], hgot[NCL]; static struct sockaddr_in cname[NCL]; static bool chaosstop, usenames;
static int64_t cid[NCL]; static int cansent[NCL], cangot[NCL]; static bool cfin[NCL]; static int accepted, dialed, nacc; static int64_t accid[3]; static int acansent[3], acangot[3]; static bool srvstop;
static void chandler(int argc, void *argv[]) {
    (void)argc; int fd = (int)(intptr_t)argv[0]; struct sockaddr_in pa = { .sin_port = (uint16_t)(intptr_t)argv[1] }; hlive++;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    uint32_t tok; char *b = (char*)&tok; size_t n = 0;
    while (n < 4) { ssize_t r = neco_read_dl(fd, b + n, 4 - n, neco_now() + 10 * NECO_SECOND); if (r <= 0) break; n += (size_t)r; }
    if (n == 4) {
        vh_log((int)(tok & 0xFF), HANDLED, 0, 0, 0);
        if ((tok >> 8) != 0xABCDE || (tok & 0xFF) >= (uint32_t)ncl) VIOL("token %x", tok);
        else {
            int c = (int)(tok & 0xFF); if (++hgot[c] > 1) VIOL("connection of client %d was accepted twice", c);
            if (nets == 0 && pa.sin_port && cname[c].sin_port && pa.sin_port != cname[c].sin_port) VIOL("accept reported port %d for the client with port %d", ntohs(pa.sin_port), ntohs(cname[c].sin_port));
            tok ^= 0x55555555; if (neco_write_dl(fd, &tok, 4, neco_now() + 10 * NECO_SECOND) != 4 && neco_lasterr() != NECO_ERROR) VIOL("reply: last error %d", neco_lasterr());
        }
    }
    close(fd); hlive--;
}
static void caccept(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; accid[me] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    while (!srvstop) {
        struct sockaddr_storage ss; socklen_t sl = sizeof ss; memset(&ss, 0, sizeof ss); bool wa = vh_chance(1, 2);
        int64_t dl = vh_chance(1, 2) ? neco_now() + vh_range(0, 3000) * US : neco_now() + 20 * MS;
        int fd = neco_accept_dl(sfd, wa ? (void*)&ss : 0, wa ? &sl : 0, dl); int e = errno, le = neco_lasterr();
        vh_log(100 + me, ACCEPT, 0, 0, fd >= 0 ? 0 : le);
        if (fd == -1) {
            if (le != conv(e)) VIOL("accept: last error %d, errno %d", le, e);
            if (le == NECO_TIMEDOUT) { if (neco_now() < dl) VIOL("accept timed out before its deadline"); vh_count("accept_timedout", 1); }
            else if (le == NECO_CANCELED) { if (acansent[me] == acangot[me]) VIOL("accept was canceled without a cancelation"); acangot[me] = acansent[me]; vh_count("accept_canceled", 1); }
            else if (e != ECONNABORTED) VIOL("accept failed with errno %d", e);
            continue;
        }
        if (le != NECO_OK) VIOL("accept succeeded with last error %d", le);
        if (!nonblock(fd)) VIOL("the accepted descriptor is in blocking mode");
        if (wa && nets == 0 && (ss.ss_family != AF_INET || sl != sizeof(struct sockaddr_in))) VIOL("accept reported address family %d", ss.ss_family);
        accepted++; uint16_t pp = wa && nets == 0 ? ((struct sockaddr_in*)&ss)->sin_port : 0;
        neco_start(chandler, 2, (void*)(intptr_t)fd, (void*)(intptr_t)pp);
    }
    accid[me] = 0; nacc--;
}
static void cclient(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; cid[me] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if (vh_chance(1, 3)) neco_sleep(vh_range(1, 2000) * US);
    if (cansent[me] != cangot[me]) cangot[me] = cansent[me];
    const char *nt = nets == 0 && vh_chance(1, 2) ? "tcp" : net; char da[400]; snprintf(da, sizeof da, "%s", daddr);
    bool nm = usenames && nets != 2 && vh_chance(1, 2); if (nm) { nt = "tcp"; snprintf(da, sizeof da, "r%d_0_%s%s.test:%d", vh_range(0, 1500), vh_chance(1, 2) ? "x" : "", nets == 0 ? "4" : "6", 1); }
    int64_t dl = vh_chance(1, 3) ? neco_now() + vh_range(0, 3000) * US : INT64_MAX; int c0 = cansent[me];
    int fd = dl == INT64_MAX ? neco_dial(nt, da) : neco_dial_dl(nt, da, dl); int e = errno, le = neco_lasterr();
    vh_log(me, DIAL, 0, 0, fd < 0 ? fd : 0);
    if (fd < 0) {
        if (le != fd && !(fd == NECO_ERROR && le == conv(e))) VIOL("dial returned %d with last error %d", fd, le);
        if (fd == NECO_TIMEDOUT) { if (neco_now() < dl) VIOL("dial timed out before its deadline"); vh_count("dial_timedout", 1); }
        else if (fd == NECO_CANCELED) { if (cansent[me] == cangot[me]) VIOL("dial was canceled without a cancelation"); cangot[me] = cansent[me]; vh_count("dial_canceled", 1); }
        else if (!(nets == 2 && e == ECONNREFUSED)) VIOL("dial %s %s returned %d errno %d", nt, da, fd, e);
    } else {
        dialed++; vh_count("dialed", 1); (void)c0;
        if (le != NECO_OK) VIOL("dial succeeded with last error %d", le);
        if (!nonblock(fd)) VIOL("the dialed descriptor is in blocking mode");
        struct sockaddr_storage pa; socklen_t pl = sizeof pa; if (getpeername(fd, (void*)&pa, &pl)) VIOL("the dialed descriptor is not connected: errno %d", errno);
        else if (nets == 0 && (pa.ss_family != AF_INET || ntohs(((struct sockaddr_in*)&pa)->sin_port) != port4)) VIOL("dial connected to another address");
        if (nets == 0) { socklen_t l = sizeof cname[me]; getsockname(fd, (void*)&cname[me], &l); }
        uint32_t tok = 0xABCDE00u | (uint32_t)me, rep = 0;
        ssize_t n; bool gave = false;
        do { n = neco_write(fd, &tok, 4); if (n == -1 && neco_lasterr() == NECO_CANCELED) cangot[me] = cansent[me]; } while (n == -1 && neco_lasterr() == NECO_CANCELED);
        if (n != 4) VIOL("sending the token: %zd errno %d", n, errno);
        char *b = (char*)&rep; size_t got = 0;
        while (got < 4) { ssize_t r = neco_read_dl(fd, b + got, 4 - got, neco_now() + 10 * NECO_SECOND); if (r > 0) got += (size_t)r; else if (r == -1 && neco_lasterr() == NECO_CANCELED) cangot[me] = cansent[me]; else { VIOL("reading the reply: %zd last error %d", r, neco_lasterr()); gave = true; break; } }
        if (!gave && rep != (tok ^ 0x55555555)) VIOL("reply %x to token %x", rep, tok);
        if (!gave && hgot[me] != 1) VIOL("connection handled %d times", hgot[me]);
        close(fd);
    }
    cfin[me] = true; clive--;
}
static void cchaos(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    while (!chaosstop) {
        neco_sleep(vh_range(1, 700) * US);
        if (vh_chance(1, 4)) { int a = (int)vh_rn(3); if (accid[a]) { acansent[a]++; neco_cancel(accid[a]); } }
        else { int c = (int)vh_rn((uint32_t)ncl); if (cid[c] && !cfin[c]) { cansent[c]++; vh_log(c, CANC, 0, 0, 0); neco_cancel(cid[c]); vh_count("cancels", 1); } }
    }
}
static int listenfd(const char *n, const char *a) { // serve and check the result
    int fd = vh_chance(1, 2) ? neco_serve(n, a) : neco_serve_dl(n, a, INT64_MAX); int e = errno;
    if (fd < 0) { vh_fatal("serve %s %s returned %d errno %d", n, a, fd, e); }
    if (neco_lasterr()) VIOL("serve succeeded with last error %d", neco_lasterr());
    if (!nonblock(fd)) VIOL("the served descriptor is in blocking mode");
    int v = 0; socklen_t l = sizeof v; if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) || !v) VIOL("the served descriptor does not listen");
    return fd;
}
static void cmain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if (nets == 0) { sfd = listenfd(net, vh_chance(1, 4) ? ":0" : "127.0.0.1:0"); struct sockaddr_in a; socklen_t l = sizeof a; getsockname(sfd, (void*)&a, &l); port4 = ntohs(a.sin_port); snprintf(daddr, sizeof daddr, "127.0.0.1:%d", port4); }
    else if (nets == 1) { sfd = listenfd(net, "[::1]:0"); struct sockaddr_in6 a; socklen_t l = sizeof a; getsockname(sfd, (void*)&a, &l); port6 = ntohs(a.sin6_port); snprintf(daddr, sizeof daddr, "[::1]:%d", port6); }
    else { snprintf(daddr, sizeof daddr, "s%llu.sock", (unsigned long long)vh_seed); unlink(daddr); sfd = listenfd(net, daddr); }
    vh_log(0, SERVE, nets, 0, 0);
    nacc = vh_range(1, 3); for (int i = 0, n = nacc; i < n; i++) neco_start(caccept, 1, (void*)(intptr_t)i);
    clive = ncl; for (int i = 0; i < ncl; i++) { neco_start(cclient, 1, (void*)(intptr_t)i); if (vh_chance(1, 4)) neco_yield(); }
    if (argv[0]) neco_start(cchaos, 0);
    int64_t t0 = vh_realtime();
    while (clive > 0) { neco_sleep(300 * US); if (vh_realtime() - t0 > 30 * NECO_SECOND) vh_fatal("%d clients did not finish", clive); }
    chaosstop = true;
    // connections of the dialers that gave up may still be in the backlog
    t0 = vh_realtime(); struct pollfd p = { sfd, POLLIN, 0 };
    while (1) { int64_t t1 = vh_realtime(); while (poll(&p, 1, 0) > 0) { neco_sleep(200 * US); if (vh_realtime() - t1 > 30 * NECO_SECOND) vh_fatal("a connection is waiting but nobody accepts it"); } if (hlive == 0) break; neco_sleep(200 * US); if (vh_realtime() - t0 > 30 * NECO_SECOND) vh_fatal("%d handlers did not finish", hlive); }
    srvstop = true;
    while (nacc > 0) { neco_sleep(1 * MS); if (vh_realtime() - t0 > 60 * NECO_SECOND) vh_fatal("%d accepting coroutines did not finish", nacc); }
    while (hlive > 0) neco_sleep(200 * US);
    close(sfd); if (nets == 2) unlink(daddr);
}
static void waitthreads(int th0) { int n; for (int k = 0; k < 5000 && (n = vh_nthreads()) > th0; k++) rsleep(1000); if (n > th0) VIOL("%d threads are left", n - th0); }
static void one_conn(void) {
    port4 = 0; nets = (int)vh_rn(have6 ? 3 : 2); if (!have6 && nets == 1) nets = 2;
    snprintf(net, sizeof net, "%s", nets == 0 ? (vh_chance(1, 2) ? "tcp" : "tcp4") : nets == 1 ? (vh_chance(1, 2) ? "tcp" : "tcp6") : "unix");
    ncl = vh_chance(1, 8) ? vh_range(13, NCL) : vh_range(1, 12); chaosstop = srvstop = false; accepted = dialed = hlive = 0; usenames = vh_chance(1, 3); portx = refport();
    for (int i = 0; i < NCL; i++) { atok[i] = hgot[i] = 0; memset(&cname[i], 0, sizeof cname[i]); cid[i] = 0; cansent[i] = cangot[i] = 0; cfin[i] = false; } for (int i = 0; i < 3; i++) { accid[i] = 0; acansent[i] = acangot[i] = 0; }
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, cmain, (void*)(intptr_t)vh_chance(1, 2))) vh_fatal("start");
    if (accepted < dialed) VIOL("%d connections dialed, %d accepted", dialed, accepted);
    vh_count("accepted", accepted); if (dialed < 1) vh_trivial();
}
// ------------------------------------------------------------ slow
// A connection in progress is one end of a full socket pair; it becomes
// writable, and its outcome known, when the other end is drained.
static int slive, sexited; static struct { int64_t id; int cs, cg; bool fin, async; } sl[16];
static int slow_connect(int k, int fd) {
    if (slow[k].state == Q_NEW) {
        int sv[2]; static char b[65536]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh_error("socketpair");
        __real_fcntl(sv[0], F_SETFL, __real_fcntl(fd, F_GETFL, 0) | O_NONBLOCK); while (write(sv[0], b, sizeof b) > 0) { }
        __real_fcntl(sv[0], F_SETFL, __real_fcntl(fd, F_GETFL, 0)); __real_fcntl(sv[1], F_SETFL, O_NONBLOCK);
        if (dup2(sv[0], fd) < 0) vh_error("dup2");
        close(sv[0]); slow[k].peer = sv[1]; slow[k].fd = fd; slow[k].state = Q_PROG; slow[k].due = neco_now() + vh_range(0, 1500) * US;
        vh_count("connects_in_progress", 1); errno = EINPROGRESS; return -1;
    }
    if (fd != slow[k].fd) VIOL("connect on descriptor %d instead of %d", fd, slow[k].fd);
    if (slow[k].state == Q_PROG) { VIOL("connect called again while the connection is in progress"); errno = EALREADY; return -1; }
    if (slow[k].state != Q_DUE) VIOL("connect called again on a finished connection");
    if (slow[k].kind == 's') { slow[k].state = Q_CONN; errno = EISCONN; } else { slow[k].state = Q_FAILED; errno = ECONNREFUSED; }
    return -1;
}
static void slow_step(void) {
    static char b[65536]; int64_t now = neco_now(); pthread_mutex_lock(&gmu); int n = nslow; pthread_mutex_unlock(&gmu);
    for (int k = 0; k < n; k++) if (slow[k].state == Q_PROG && slow[k].kind != 'n' && now >= slow[k].due) { slow[k].state = Q_DUE; while (read(slow[k].peer, b, sizeof b) > 0) { } }
}
static void sclean(void *a) { (void)a; sexited++; }
static void sclient(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; sl[me].id = neco_getid(); neco_setcanceltype(sl[me].async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    neco_cleanup_push(sclean, 0);
    int reps = vh_range(1, 3);
    for (int q = 0; q < reps; q++) {
        char spec[16], da[100]; int len = vh_chance(1, 5) ? vh_range(5, 8) : vh_range(1, 4), first = -1; for (int i = 0; i < len; i++) spec[i] = "ssfffnx"[vh_rn(7)]; spec[len] = 0;
        char exp = 'x'; for (int i = 0; i < len && first < 0; i++) if (spec[i] == 's' || spec[i] == 'n') { first = i; exp = spec[i]; }
        snprintf(da, sizeof da, "r%d_0_%s.test:1", vh_chance(1, 2) ? 0 : vh_range(1, 500), spec);
        bool hasdl = vh_chance(1, 2); int64_t dl = hasdl ? neco_now() + vh_range(0, 4000) * US : INT64_MAX;
        int fd = hasdl ? neco_dial_dl(vh_chance(1, 2) ? "tcp" : "tcp4", da, dl) : neco_dial("tcp", da); int e = errno, le = neco_lasterr();
        vh_log(me, DIAL, exp, 0, fd < 0 ? fd : 0);
        if (fd >= 0) {
            if (le) VIOL("dial succeeded with last error %d", le);
            int k; for (k = nslow - 1; k >= 0; k--) if (slow[k].fd == fd && slow[k].state == Q_CONN) break;
            if (exp != 's' || k < 0) VIOL("dial %s succeeded (descriptor %d)", spec, fd);
            else if (!nonblock(fd)) VIOL("the dialed descriptor is in blocking mode");
            else { slow[k].state = Q_FAILED; vh_count("slow_dialed", 1); }
            close(fd);
        } else {
            if (le != fd && !(fd == NECO_ERROR && le == conv(e))) VIOL("dial returned %d with last error %d", fd, le);
            if (fd == NECO_TIMEDOUT) { if (neco_now() < dl) VIOL("dial timed out before its deadline"); vh_count("slow_timedout", 1); }
            else if (fd == NECO_CANCELED) { if (sl[me].cs == sl[me].cg) VIOL("dial was canceled without a cancelation"); sl[me].cg = sl[me].cs; vh_count("slow_canceled", 1); }
            else { if (exp != 'x') VIOL("dial %s returned %d errno %d", spec, fd, e); else if (fd != NECO_ERROR || e != ECONNREFUSED) VIOL("dial %s (all refused) returned %d errno %d", spec, fd, e); vh_count("slow_refused", 1); }
        }
    }
    neco_cleanup_pop(0); sl[me].fin = true; slive--;
}
static void smain(int argc, void *argv[]) {
    (void)argc; neco_setcanceltype(NECO_CANCEL_INLINE, 0); int n = slive; for (int i = 0; i < n; i++) neco_start(sclient, 1, (void*)(intptr_t)i);
    int64_t t0 = vh_realtime(); int tick = 0;
    while (slive - sexited > 0) {
        neco_sleep(vh_range(50, 300) * US); slow_step(); tick++;
        if (tick > 30 || (argv[0] && vh_chance(1, 3))) { int c = (int)vh_rn((uint32_t)n); if (!sl[c].fin) { sl[c].cs++; int st = -1; for (int k = 0; k < nslow; k++) if (slow[k].state == Q_PROG) st = k; vh_log(c, CANC, 0, 0, 0); neco_cancel(sl[c].id); if (sl[c].async && st >= 0) vh_count("async_canceled_connecting", 1); } }
        if (vh_realtime() - t0 > 30 * NECO_SECOND) vh_fatal("%d dials did not finish", slive - sexited);
    }
}
static void one_slow(void) {
    port4 = 0; slive = vh_range(1, 8); sexited = 0; nslow = 0; portx = refport(); if (portx < SLOWPORT + NSLOW) vh_error("port"); for (int i = 0; i < 16; i++) { memset(&sl[i], 0, sizeof sl[i]); sl[i].async = vh_chance(1, 3); }
    slowmode = true; int r = vh_start(VH_NZ_EV|VH_NZ_SIG, smain, (void*)(intptr_t)vh_chance(1, 2)); slowmode = false; if (r) vh_fatal("start");
    waitthreads(cth0); char c[65536];
    for (int k = 0; k < nslow; k++) if (slow[k].peer >= 0) { ssize_t n; while ((n = read(slow[k].peer, c, sizeof c)) > 0) { } if (n != 0) VIOL("the socket of a dial that ended is still open (%c)", slow[k].kind); close(slow[k].peer); if (n) close(slow[k].fd); }
    if (!nslow) vh_trivial();
}
// ------------------------------------------------------------ gai
static int ng, glive, gticks; static int64_t gid[16]; static int gcs[16], gcg[16]; static bool gfin[16], gasync[16]; static int gexited;
static void gclean(void *a) { (void)a; gexited++; }
static void gco(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; gid[me] = neco_getid(); neco_setcanceltype(gasync[me] ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    neco_cleanup_push(gclean, 0);
    int reps = vh_range(1, 4);
    for (int k = 0; k < reps; k++) {
        if (vh_chance(1, 5)) { // a server whose name takes time to resolve
            char ad[64]; int er = vh_chance(1, 3) ? 2 : 0; snprintf(ad, sizeof ad, "r%d_%d_4.test:0", vh_chance(1, 3) ? 0 : vh_range(1, 2500), er); int64_t dl = vh_chance(1, 2) ? neco_now() + vh_range(-1, 2500) * US : INT64_MAX;
            int fd = dl == INT64_MAX && vh_chance(1, 2) ? neco_serve("tcp", ad) : neco_serve_dl("tcp", ad, dl); int le = neco_lasterr();
            if (fd >= 0) { int v = 0; socklen_t l = sizeof v; if (er) VIOL("serve %s succeeded", ad); if (le) VIOL("serve succeeded with last error %d", le); if (!nonblock(fd)) VIOL("the served descriptor is in blocking mode"); if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) || !v) VIOL("the served descriptor does not listen"); close(fd); vh_count("served_names", 1); }
            else { if (le != fd) VIOL("serve returned %d, last error %d", fd, le);
                if (fd == NECO_TIMEDOUT) { if (neco_now() < dl) VIOL("serve timed out before its deadline"); vh_count("serve_timedout", 1); }
                else if (fd == NECO_CANCELED) { if (gcs[me] == gcg[me]) VIOL("serve was canceled without a cancelation"); gcg[me] = gcs[me]; vh_count("serve_canceled", 1); }
                else if (fd != NECO_GAIERROR || !er) VIOL("serve %s returned %d errno %d", ad, fd, errno); }
            continue;
        }
        // the strings are the caller's: gone right after the call
        char *node = malloc(64), *svc = malloc(16); int err = vh_chance(1, 3) ? (int[]){ 2, 3, 4, 8, 10, 11 }[vh_rn(6)] : 0; int len = vh_chance(1, 6) ? vh_range(6, 14) : vh_range(1, 5); char spec[16]; for (int i = 0; i < len; i++) spec[i] = "46x"[vh_rn(3)];
        spec[len] = 0; bool numeric = vh_chance(1, 5), none = vh_chance(1, 12); if (vh_chance(1, 12)) spec[0] = 0, len = 0;
        if (numeric) snprintf(node, 64, "%s", vh_chance(1, 2) ? "127.0.0.1" : "::1"); else snprintf(node, 64, "r%d_%d_%s%s.test", vh_chance(1, 2) ? 0 : vh_range(1, 2500), err, spec, len ? "" : "-");
        snprintf(svc, 16, "%d", vh_range(1, 60000)); int prt = atoi(svc); if (!numeric && vh_chance(1, 8)) { *svc = 0; prt = 61234; } char pb[16]; bool named = numeric && vh_chance(1, 3); // a service by name
        if (named) snprintf(svc, 16, "%s", (const char*[]){ "http", "https", "domain", "ssh", "nosuchservice", "70000x" }[vh_rn(6)]);
        snprintf(pb, sizeof pb, "%s", svc);
        struct addrinfo hints = { .ai_family = vh_chance(1, 2) ? AF_UNSPEC : strchr(node, ':') ? AF_INET6 : AF_INET, .ai_socktype = (int[]){ 0, SOCK_STREAM, SOCK_STREAM, SOCK_DGRAM }[vh_rn(4)], .ai_flags = vh_chance(1, 2) ? AI_ADDRCONFIG & 0 : AI_PASSIVE }; struct addrinfo *res = (void*)(uintptr_t)0x77; bool uh = !vh_chance(1, 8); hints.ai_protocol = vh_chance(1, 2) ? 0 : hints.ai_socktype == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
        if (!numeric && vh_chance(1, 2)) hints.ai_flags = (int)vh_rn(0x4000);
        int64_t dl = vh_chance(1, 3) ? neco_now() + vh_range(-1, 2500) * US : INT64_MAX;
        errno = 0; long c0 = gcalls;
        char *n2 = strdup(node); vh_log(me, GAI, numeric, err, len);
        int r; // a canceled coroutine does not come back here
        neco_cleanup_push(free, node); neco_cleanup_push(free, svc); neco_cleanup_push(free, n2);
        r = dl == INT64_MAX ? neco_getaddrinfo(node, none ? 0 : svc, uh ? &hints : 0, &res) : neco_getaddrinfo_dl(node, none ? 0 : svc, uh ? &hints : 0, &res, dl);
        neco_cleanup_pop(0); neco_cleanup_pop(0); neco_cleanup_pop(0);
        int e = errno, le = neco_lasterr(), gle = neco_gai_lasterr(); memset(node, 'Z', strlen(node)); free(node); memset(svc, 'Z', strlen(svc)); free(svc); vh_count("lookups", 1); (void)c0;
        if (r == 0) {
            if (le) VIOL("resolved with last error %d", le);
            if (err && !numeric) VIOL("%s resolved", n2);
            int n = 0; for (struct addrinfo *a = res; a; a = a->ai_next) { if (!numeric) { if (n >= len || a->ai_family != (spec[n] == '6' ? AF_INET6 : AF_INET)) { VIOL("%s: address %d differs", n2, n); break; }
                // the answer repeats the question, see mkai
                if (a->ai_flags != (uh ? hints.ai_flags | hints.ai_family << 16 | 1 << 30 : 0) || (uh && (a->ai_protocol != hints.ai_protocol || (hints.ai_socktype && a->ai_socktype != hints.ai_socktype)))) { VIOL("%s: the resolver got other hints: flags %x protocol %d type %d", n2, a->ai_flags, a->ai_protocol, a->ai_socktype); break; }
                if (ntohs(((struct sockaddr_in*)a->ai_addr)->sin_port) != (none ? 0 : prt)) { VIOL("%s: the resolver got another service", n2); break; } } n++; }
            if (numeric) { struct addrinfo *w = 0, *x = res, *y; if (__real_getaddrinfo(n2, none ? 0 : pb, uh ? &hints : 0, &w)) VIOL("%s resolved", n2); else { for (y = w; x && y && x->ai_family == y->ai_family && x->ai_socktype == y->ai_socktype && x->ai_protocol == y->ai_protocol && x->ai_addrlen == y->ai_addrlen && !memcmp(x->ai_addr, y->ai_addr, x->ai_addrlen); x = x->ai_next, y = y->ai_next) { } if (x || y) VIOL("%s: not the resolver's answer", n2); __real_freeaddrinfo(w); } }
            if (!numeric && n != len) VIOL("%s: %d addresses instead of %d", n2, n, len);
            if (numeric && !named && n > 0 && uh && !none && ntohs(((struct sockaddr_in*)res->ai_addr)->sin_port) != prt) VIOL("%s: wrong port", n2);
            if (res && !gasync[me] && neco_sleep(vh_range(0, 1) * 100 * US) == NECO_CANCELED) gcg[me] = gcs[me];
            __wrap_freeaddrinfo(res); vh_count("resolved", 1); if (named) vh_count("named_services", 1);
            if (gcs[me] != gcg[me]) { /* still pending */ }
        } else if (r == EAI_SYSTEM) {
            if (le != conv(e)) VIOL("%s: last error %d with errno %d", n2, le, e);
            if (e == ETIMEDOUT) { if (neco_now() < dl) VIOL("%s timed out before the deadline", n2); vh_count("gai_timedout", 1); }
            else if (e == ECANCELED) { if (gcs[me] == gcg[me]) VIOL("%s was canceled without a cancelation", n2); gcg[me] = gcs[me]; vh_count("gai_canceled", 1); }
            else if (e == EPROTO) { if (err != 11 || numeric) VIOL("%s: errno EPROTO", n2); }
            else VIOL("%s failed with errno %d", n2, e);
        } else {
            if (named) { struct addrinfo *w = 0; int x = __real_getaddrinfo(n2, none ? 0 : pb, uh ? &hints : 0, &w); if (x != r) VIOL("%s service %s returned %d, the resolver %d", n2, pb, r, x); if (!x) freeaddrinfo(w); vh_count("named_failures", 1); }
            else if (numeric || r != -err) VIOL("%s returned %d", n2, r);
            if (le != NECO_GAIERROR) VIOL("%s: last error %d", n2, le);
            if (gle != r) VIOL("%s returned %d but the last resolver error is %d", n2, r, gle);
            vh_count("gai_errors", 1);
        }
        free(n2);
        if (vh_chance(1, 4) && !gasync[me]) { if (neco_sleep(1) == NECO_CANCELED) gcg[me] = gcs[me]; }
    }
    neco_cleanup_pop(0); gfin[me] = true; glive--;
}
static void gmain(int argc, void *argv[]) {
    (void)argc; (void)argv; for (int i = 0; i < ng; i++) neco_start(gco, 1, (void*)(intptr_t)i);
    int64_t t0 = vh_realtime();
    while (glive - gexited > 0) {
        neco_sleep(vh_range(1, 400) * US); gticks++;
        if (argv[0]) { int c = (int)vh_rn((uint32_t)ng); if (gid[c] && !gfin[c]) { gcs[c]++; vh_log(c, CANC, 0, 0, 0); neco_cancel(gid[c]); } }
        if (vh_realtime() - t0 > 30 * NECO_SECOND) vh_fatal("%d lookups did not finish", glive);
    }
}
static void one_gai(void) {
    ng = vh_range(1, 10); glive = ng; gexited = 0; gticks = 0; for (int i = 0; i < 16; i++) { gid[i] = 0; gcs[i] = gcg[i] = 0; gfin[i] = false; gasync[i] = vh_chance(1, 3); } port4 = ECHOPORT; port6 = portx = 9;
    if (vh_start(VH_NZ_EV|VH_NZ_SIG, gmain, (void*)(intptr_t)vh_chance(1, 2))) vh_fatal("start");
}
// ------------------------------------------------------------ addr
static void amain(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int k = 0; k < 30 && !vh_nviol; k++) {
        char a[300]; int n = 0; int form = (int)vh_rn(8); static const char al[] = "abz019.-_[]:%/";
        if (form == 0) n = 0; else { int len = vh_chance(1, 10) ? vh_range(100, 250) : vh_range(0, 14); if (form == 1) a[n++] = '['; for (int i = 0; i < len; i++) a[n++] = al[vh_rn(form < 5 ? 8 : sizeof al - 1)]; if (form == 1) a[n++] = ']'; if (form != 2 && form != 6) { a[n++] = ':'; int pl = vh_range(0, 5); for (int i = 0; i < pl; i++) a[n++] = (char)('0' + vh_rn(10)); } }
        a[n] = 0; if (vh_chance(1, 10)) snprintf(a, sizeof a, ":");
        // never a real lookup or connection: the resolver answers with an error
        const char *nets4[] = { "tcp", "tcp4", "tcp6" }; int ni = (int)vh_rn(3); bool serve = vh_chance(1, 2);
        setfarm(true); memset(fseen, 0, sizeof fseen); fwhich = F_GAI; fat = 1; ferr = EAI_NONAME; fhit = 0; long c0 = gcalls; lastg.node[0] = 0;
        int r = serve ? neco_serve(nets4[ni], a) : neco_dial(nets4[ni], a); int le = neco_lasterr(), gle = neco_gai_lasterr(); setfarm(false);
        char *col = strrchr(a, ':'); vh_log(0, GAI, serve, ni, r); vh_count("addresses", 1);
        if (!col) { if (r != NECO_INVAL || gcalls != c0) VIOL("%s '%s' returned %d", serve ? "serve" : "dial", a, r); continue; }
        char host[300]; size_t hl = (size_t)(col - a); memcpy(host, a, hl); host[hl] = 0;
        if (hl >= 2 && host[0] == '[' && host[hl-1] == ']') { memmove(host, host + 1, hl - 2); host[hl-2] = 0; }
        if (!host[0]) strcpy(host, ni == 2 ? "::" : "0.0.0.0");
        if (gcalls != c0 + 1) VIOL("'%s': %ld lookups", a, gcalls - c0);
        if (strcmp(lastg.node, host) || strcmp(lastg.service, col + 1)) VIOL("'%s' was looked up as '%s' '%s'", a, lastg.node, lastg.service);
        if (!lastg.hashints || lastg.hints.ai_socktype != SOCK_STREAM || lastg.hints.ai_family != (ni == 0 ? AF_UNSPEC : ni == 1 ? AF_INET : AF_INET6)) VIOL("'%s' %s: wrong hints", a, nets4[ni]);
        if (r != NECO_GAIERROR || le != NECO_GAIERROR || gle != EAI_NONAME) VIOL("'%s' returned %d, last error %d, resolver error %d", a, r, le, gle);
    }
    const char *bn[] = { "", "udp", "tcp5", "tcp44", "unixx", "TCP", 0 }; const char *n = bn[vh_rn(7)];
    if (neco_dial(n, "127.0.0.1:1") != NECO_INVAL || neco_serve(n, "127.0.0.1:0") != NECO_INVAL) VIOL("network %s was not refused", n ? n : "NULL");
    if (neco_dial("tcp", 0) != NECO_INVAL || neco_serve("unix", 0) != NECO_INVAL) VIOL("a null address was not refused");
    char lp[300]; memset(lp, 'u', sizeof lp); int l = vh_range(108, 200); lp[l] = 0;
    if (neco_dial("unix", lp) != NECO_INVAL || neco_serve("unix", lp) != NECO_INVAL) VIOL("a unix path of %d characters was not refused", l);
    lp[vh_range(90, 107)] = 0; int fd = neco_serve("unix", lp); if (fd < 0) VIOL("serve on a path of %zu characters returned %d", strlen(lp), fd); else { int fd2 = neco_dial("unix", lp); if (fd2 < 0) VIOL("dial a path of %zu characters returned %d", strlen(lp), fd2); else close(fd2); fd2 = neco_serve("unix", lp); if (fd2 != NECO_ERROR || errno != EADDRINUSE) VIOL("serving a path in use returned %d errno %d", fd2, errno); close(fd); unlink(lp); fd2 = neco_dial("unix", lp); if (fd2 != NECO_ERROR || errno != ENOENT) VIOL("dialing a missing path returned %d errno %d", fd2, errno); }
}
static void one_addr(void) { if (vh_start(VH_NZ_EV|VH_NZ_SIG, amain, 0)) vh_fatal("start"); if (neco_dial("tcp", "127.0.0.1:1") != NECO_PERM || neco_serve("tcp", "127.0.0.1:0") != NECO_PERM) VIOL("dial or serve outside of a coroutine was not refused"); }
// ------------------------------------------------------------ fault
enum { S_SERVE4, S_SERVE6, S_SERVEU, S_DIAL4, S_DIALU, S_DIALN, S_DIALNX, S_DIALREF, S_ACCEPT, S_GAIN, S_GAI4, S_CONNECT, NS };
static const char *const sname[] = {"serve tcp4","serve tcp6","serve unix","dial tcp4","dial unix","dial name","dial name with a refused address first","dial refused","accept","resolve name","resolve number","connect"};
static int fs; static int lfd4, lfdu; static char upath[64];
// runs the scenario: returns the library's result (>=0 or negative), errno in *e
static int scen(int *e, int *le, bool *sysres) {
    int r = 0, fd = -1; struct addrinfo *res = 0; *sysres = false; char a[100]; errno = 0;
    setfarm(true);
    switch (fs) {
    case S_SERVE4: r = fd = neco_serve("tcp", "127.0.0.1:0"); break;
    case S_SERVE6: r = fd = neco_serve("tcp6", "[::1]:0"); break;
    case S_SERVEU: r = fd = neco_serve("unix", "f.sock"); break;
    case S_DIAL4: snprintf(a, sizeof a, "127.0.0.1:%d", port4); r = fd = neco_dial("tcp4", a); break;
    case S_DIALU: r = fd = neco_dial("unix", upath); break;
    case S_DIALN: r = fd = neco_dial("tcp", "r0_0_4.test:1"); break;
    case S_DIALNX: r = fd = neco_dial("tcp", "r0_0_x4.test:1"); break;
    case S_DIALREF: snprintf(a, sizeof a, "127.0.0.1:%d", portx); r = fd = neco_dial("tcp", a); break;
    case S_ACCEPT: { setfarm(false); snprintf(a, sizeof a, "127.0.0.1:%d", port4); int c = neco_dial("tcp4", a); if (c < 0) vh_fatal("dial for accept"); setfarm(true); r = fd = neco_accept_dl(lfd4, 0, 0, neco_now() + 10 * NECO_SECOND); *sysres = true; *e = errno; *le = neco_lasterr(); setfarm(false); close(c); if (r < 0 && fwhich == F_ACCEPT) { int x = neco_accept_dl(lfd4, 0, 0, neco_now() + 10 * NECO_SECOND); if (x < 0) VIOL("accept after a failed accept: %d", x); else close(x); } errno = *e; goto done; }
    case S_GAIN: r = neco_getaddrinfo("r0_0_46.test", "1", 0, &res); break;
    case S_GAI4: r = neco_getaddrinfo("127.0.0.1", "1", 0, &res); break;
    case S_CONNECT: { setfarm(false); int s = __real_socket(AF_INET, SOCK_STREAM|SOCK_NONBLOCK, 0); struct sockaddr_in sa = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK), .sin_port = htons((uint16_t)port4) }; setfarm(true); r = neco_connect_dl(s, (void*)&sa, sizeof sa, neco_now() + 10 * NECO_SECOND); *sysres = true; *e = errno; *le = neco_lasterr(); setfarm(false); if (r == 0) { struct sockaddr_storage pa; socklen_t pl = sizeof pa; if (getpeername(s, (void*)&pa, &pl)) VIOL("connect succeeded without a connection"); } close(s); errno = *e; goto done; }
    }
    *e = errno; *le = neco_lasterr();
done:
    setfarm(false);
    if (fs == S_GAIN || fs == S_GAI4) { if (r == 0) { if (!res) VIOL("resolved to nothing"); __wrap_freeaddrinfo(res); } }
    else if (fs != S_CONNECT && fd >= 0) {
        if (!nonblock(fd)) VIOL("%s: descriptor in blocking mode", sname[fs]);
        if (fs == S_SERVE4 || fs == S_SERVE6 || fs == S_SERVEU) { int v = 0; socklen_t l = sizeof v; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l); if (!v) VIOL("%s: not listening", sname[fs]); if (fs != S_SERVEU) { v = 0; getsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &v, &l); if (!v) VIOL("%s: address reuse is off", sname[fs]); } }
        else { struct sockaddr_storage pa; socklen_t pl = sizeof pa; if (getpeername(fd, (void*)&pa, &pl) && errno != ENOTCONN) VIOL("%s: not connected", sname[fs]); }
        close(fd);
    }
    if (fs == S_SERVEU) unlink("f.sock");
    // take what the dial left in the backlogs
    if (fs == S_DIAL4 || fs == S_DIALN || fs == S_DIALNX || fs == S_CONNECT) { int c; while ((c = __real_accept(lfd4, 0, 0)) >= 0) close(c); }
    if (fs == S_DIALU) { int c; while ((c = __real_accept(lfdu, 0, 0)) >= 0) close(c); }
    return r;
}
static void settle(int l0, int f0, const char *what) {
    // the resolver's thread frees its things a moment later
    int64_t t0 = vh_realtime();
    while (vh_realtime() - t0 < 5 * NECO_SECOND && vh_nthreads() > cth0) rsleep(100);
    int nf; while ((nf = vh_nfds()) != f0 && vh_realtime() - t0 < 5 * NECO_SECOND) rsleep(100);
    while (vh_realtime() - t0 < 5 * NECO_SECOND && (vh_track_live() > l0 || nlive() > 0)) rsleep(100);
    if (nf != f0) VIOL("%s: %d descriptors leaked", what, nf - f0);
    if (vh_track_live() > l0) VIOL("%s: %ld blocks leaked", what, vh_track_live() - l0);
    if (nlive()) { VIOL("%s: an address list leaked", what); pthread_mutex_lock(&gmu); memset(lists, 0, sizeof lists); nlists = 0; pthread_mutex_unlock(&gmu); }
    if (badfree) { VIOL("%s: an address list was freed twice", what); badfree = 0; }
}
static void fmain(int argc, void *argv[]) {
    (void)argc; (void)argv; int e, le; bool sr; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    lfd4 = listenfd("tcp4", "127.0.0.1:0"); struct sockaddr_in a; socklen_t l = sizeof a; getsockname(lfd4, (void*)&a, &l); port4 = ntohs(a.sin_port); portx = refport(); port6 = 9;
    snprintf(upath, sizeof upath, "fu%d.sock", fs); unlink(upath); lfdu = listenfd("unix", upath);
    static const int errs[] = { EMFILE, ENOMEM, EACCES, EINVAL, EPERM, EINTR, EAGAIN, ECONNREFUSED, ENETUNREACH, ECONNABORTED };
    fwhich = -1; memset(fseen, 0, sizeof fseen); scen(&e, &le, &sr); // once, so that lazily created things exist
    for (int k = 0; k < 5000 && vh_nthreads() > cth0; k++) rsleep(1000);
    long l0 = vh_track_live(); int f0 = vh_nfds();
    memset(fseen, 0, sizeof fseen); int r0 = scen(&e, &le, &sr); settle(l0, f0, sname[fs]); int cnt[NF]; memcpy(cnt, fseen, sizeof cnt);
    if (fs == S_DIALREF ? (r0 != NECO_ERROR || e != ECONNREFUSED) : r0 < 0) VIOL("%s without faults returned %d errno %d", sname[fs], r0, e);
    for (int w = 0; w < NF; w++) for (int at = 1; at <= cnt[w] && at <= 12; at++) for (unsigned ei = 0; ei < sizeof errs / sizeof *errs; ei++) {
        int err = errs[ei];
        if (w == F_GAI) { static const int ge[] = { EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SERVICE }; if (ei >= 5) break; err = ge[ei]; }
        else if (w == F_CONNECT) { if (err == EMFILE || err == ECONNABORTED || err == EACCES) continue; }
        else if (w == F_ACCEPT) { if (err == ECONNREFUSED || err == ENETUNREACH) continue; }
        else { if (err == EINTR || err == EAGAIN || err == ECONNREFUSED || err == ENETUNREACH || err == ECONNABORTED) continue; }
        if (w == F_PTHREAD && err != EPERM && err != EINVAL && err != ENOMEM) err = EAGAIN;
        fwhich = w; fat = at; ferr = err; fhit = 0; memset(fseen, 0, sizeof fseen); char what[160]; snprintf(what, sizeof what, "%s with %s call %d failing with %d", sname[fs], fname[w], at, err);
        int r = scen(&e, &le, &sr); fwhich = -1; vh_log(fs, FAULT, w * 100 + at, err, r >= 0 ? 0 : r); vh_count("faults", 1);
        if (!fhit) { VIOL("%s: not reached", what); continue; }
        bool absorbed = (w == F_CONNECT && (err == EINTR || err == ENOMEM)) || (w == F_ACCEPT && (err == EINTR || err == EAGAIN)) || fs == S_DIALNX || (fs == S_DIALREF && 0);
        // with two addresses the failure of one attempt is absorbed by the other
        if (fs == S_DIALNX) { if (w == F_GAI || w == F_PIPE || w == F_PTHREAD) absorbed = false; else if (w == F_FCNTL && at <= 2) absorbed = false; else if (w == F_SOCKET || w == F_FCNTL || w == F_CONNECT) { if (r >= 0) absorbed = true; else absorbed = false; } }
        if (absorbed) { if (fs == S_DIALREF ? (r != NECO_ERROR || e != ECONNREFUSED) : r < 0) VIOL("%s returned %d errno %d", what, r, e); }
        else if (w == F_GAI) {
            int want = fs == S_GAIN || fs == S_GAI4 ? err : err == EAI_MEMORY ? NECO_NOMEM : NECO_GAIERROR;
            if (r != want) VIOL("%s returned %d", what, r);
            int wl = err == EAI_MEMORY && want == NECO_NOMEM ? NECO_NOMEM : NECO_GAIERROR; if (le != wl) VIOL("%s: last error %d", what, le);
        } else {
            int we = w == F_CONNECT && err == EAGAIN ? ECONNREFUSED : err;
            if (fs == S_GAIN || fs == S_GAI4) { if (r != EAI_SYSTEM || e != we || le != conv(we)) VIOL("%s returned %d errno %d last error %d", what, r, e, le); }
            else if (sr) { if (r != -1 || e != we || le != conv(we)) VIOL("%s returned %d errno %d last error %d", what, r, e, le); }
            else { if (r >= 0) VIOL("%s succeeded", what); else { if (r != conv(we) && !(r == NECO_ERROR && e == we)) VIOL("%s returned %d (errno %d)", what, r, e); if (le != conv(we)) VIOL("%s returned %d but the last error is %d", what, r, le); } }
        }
        settle(l0, f0, what);
        if (vh_nviol) break;
    }
    close(lfd4); close(lfdu); unlink(upath);
}
static void one_fault(uint64_t seed) { fs = (int)((seed - 1) % NS); if (fs == S_SERVE6 && !have6) { vh_trivial(); return; } if (neco_start(fmain, 0)) vh_fatal("start"); }

static void one(uint64_t seed) {
    vh_virtual = false; casethr = true; setfarm(false); fwhich = -1;
    vh_opnames(names, NOPS); long l0 = vh_track_live(); int f0 = vh_nfds(), th0 = cth0 = vh_nthreads(); badfree = 0; const char *m = vh_mode;
    if (!strcmp(m, "mix")) { const char *ms[] = { "conn", "gai", "addr", "slow" }; m = ms[vh_rn(4)]; }
    if (!strcmp(m, "conn")) one_conn(); else if (!strcmp(m, "slow")) one_slow(); else if (!strcmp(m, "gai")) one_gai(); else if (!strcmp(m, "addr")) one_addr(); else one_fault(seed);
    waitthreads(th0);
    if (nlive()) VIOL("%d address lists leaked", nlive());
    if (badfree) VIOL("%d address lists were freed twice", badfree);
    if (vh_track_live() != l0) VIOL("%ld blocks leaked by the case", vh_track_live() - l0);
    if (vh_nfds() != f0) VIOL("%d descriptors leaked by the case", vh_nfds() - f0);
}
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN); vh_track_install();
    int s = __real_socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a = { .sin6_family = AF_INET6, .sin6_addr = in6addr_loopback }; have6 = s >= 0 && __real_bind(s, (void*)&a, sizeof a) == 0; if (s >= 0) close(s);
    return vh_run(argc, argv, one);
}
