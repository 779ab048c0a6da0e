// Channels, select, broadcast, generators: random programs + offline history
// checker. Every operation is recorded at the API boundary (call index, return
// index, result); the checker pairs the i-th successful receive (by call) with
// the i-th successful send (by call) and derives the rest from that.
#include "vh.h"

enum { SEND, RECV, TRYRECV, SELECT, TRYSELECT, BCAST, CLOSE, CANCEL, SLEEP, YIELD, BUSY, CSTATE, QUIESCE, EXIT, RET };
static const char *const names[] = {"send","recv","tryrecv","select","tryselect","bcast","close","cancel","sleep","yield","busy","cstate","QUIESCE","exit","ret"};

#define MAXCO 70
#define MAXCH 24
#define MAXSEL 20
#define MAXREC 24000

struct rec {
    int kind, co, ch;          // ch: channel the message went through (or first for select)
    int nsel, sel[MAXSEL];
    int64_t msg; bool bmsg;    // message id; came from a broadcast
    int call, ret, res;        // event indexes, result
    int64_t dl, tcall;
    int cend;                  // waiting is certain until this event
    int bind;                  // event at which the message was bound
    int count;                 // broadcast result
    bool precancel;            // a cancel was possibly pending at the call
    bool owed;                 // a cancel was certainly pending at the call
};
struct chs { neco_chan *c; neco_gen *g; bool isgen; int owner; int size, cap; int64_t nextid; };
struct cos { int64_t id; bool async, alive, started; int cur; int cflight, creturned; int script; bool disabled; int lastc; bool owed; };

static struct rec recs[MAXREC]; static int nrec;
static struct chs ch[MAXCH]; static int nch;
static struct cos co[MAXCO]; static int nco; static int ndone;
static bool stop; static int qidx;
static int64_t nextmsg;
static int wt[16]; static bool use_dl, use_cancel, slowcase;
static struct { int idx; int co; } cancels[MAXREC]; static int ncancels;

static void fill(unsigned char *p, int size, int64_t id) {
    uint32_t id32 = (uint32_t)id;
    memcpy(p, &id32, size < 4 ? (size_t)size : 4);
    for (int i = 4; i < size; i++) p[i] = (unsigned char)(id * 7 + i * 13 + (id >> 8));
}
static int64_t unfill(const unsigned char *p, int size, const char *what) {
    uint32_t id32 = 0; memcpy(&id32, p, size < 4 ? (size_t)size : 4); // (small messages carry part of it)
    for (int i = 4; i < size; i++) {
        if (p[i] != (unsigned char)((int64_t)id32 * 7 + i * 13 + ((int64_t)id32 >> 8))) {
            VIOL("%s: message %u corrupted at byte %d of %d", what, id32, i, size);
            break;
        }
    }
    return (int64_t)id32;
}

// Cancelations of a coroutine that may still be undelivered: the ones in flight
// (they may be waiting for the target to enable cancelation) and the ones that
// returned since the target last reported CANCELED.
static int pendc(int me) { return co[me].cflight + co[me].creturned; }
static void consumec(int me) {
    if (co[me].creturned > 0) co[me].creturned = 0;
}
static struct rec *begin(int me, int kind, int c, int64_t dl) {
    if (nrec >= MAXREC) vh_error("too many records");
    struct rec *r = &recs[nrec++];
    memset(r, 0, sizeof *r);
    r->kind = kind; r->co = me; r->ch = c; r->dl = dl; r->ret = -1; r->bind = -1; r->res = 12345;
    r->tcall = vh_time();
    r->precancel = pendc(me) > 0; r->owed = co[me].owed;
    r->call = vh_log(me, kind, c, 0, 0);
    co[me].cur = (int)(r - recs); vh_pend[me] = dl;
    return r;
}
static void end(int me, struct rec *r, int res, int64_t msg) {
    r->res = res; r->msg = msg;
    r->ret = vh_log(me, RET, r->ch, msg, res);
    co[me].cur = -1; vh_pend[me] = INT64_MAX;
    // A cancelation that was accepted before the call, and that no operation has reported yet, is reported by this one.
    if (r->owed && (r->kind == SEND || r->kind == RECV || r->kind == SELECT) && res != NECO_CLOSED) {
        if (res != NECO_CANCELED) VIOL("co %d: %s at event %d returned %d although a cancelation was pending", me, names[r->kind], r->call, res);
        vh_count("owed_cancels", 1);
    }
    if (res == NECO_CANCELED) {
        co[me].owed = false; co[me].lastc = r->ret;
        if (pendc(me) == 0) VIOL("co %d: %s returned CANCELED without a cancelation", me, names[r->kind]);
        consumec(me);
    }
    if (res == NECO_TIMEDOUT) {
        if (r->dl == INT64_MAX) VIOL("co %d: %s returned TIMEDOUT without a deadline", me, names[r->kind]);
        else if (vh_time() < r->dl) VIOL("co %d: %s returned TIMEDOUT before its deadline", me, names[r->kind]);
    }
    vh_count(names[r->kind], 1);
}
static int64_t rdl(void) {
    if (!use_dl || vh_chance(1, 3)) return INT64_MAX;
    switch (vh_rn(5)) {
    case 0: return vh_time() + vh_range(0, 3000);
    case 1: return vh_time() - 5;
    default: return vh_time() + vh_range(1, 4000) * 1000;
    }
}

static void do_send(int me, int c) {
    struct chs *x = &ch[c];
    unsigned char buf[x->size + 64], cpy[x->size + 64]; int64_t id = ++nextmsg;
    memset(buf, 0xEE, sizeof buf); fill(buf, x->size, id); memcpy(cpy, buf, sizeof buf);
    int64_t dl = rdl();
    struct rec *r = begin(me, SEND, c, dl);
    r->msg = id;
    int ret = x->isgen ? (dl == INT64_MAX ? neco_gen_yield(buf) : neco_gen_yield_dl(buf, dl))
                       : (dl == INT64_MAX ? neco_chan_send(x->c, buf) : neco_chan_send_dl(x->c, buf, dl));
    end(me, r, ret, id);
    if (memcmp(buf, cpy, sizeof buf)) VIOL("send modified the sender's buffer");
    if (ret != NECO_OK && ret != NECO_CLOSED && ret != NECO_TIMEDOUT && ret != NECO_CANCELED) VIOL("send returned %d", ret);
}
static bool guardok(unsigned char *b, int size) {
    for (int i = size; i < size + 16; i++) if (b[i] != 0xC3) return false;
    return true;
}
static int do_recv(int me, int c, bool try) {
    struct chs *x = &ch[c];
    unsigned char buf[x->size + 64]; memset(buf, 0xC3, sizeof buf);
    int64_t dl = try ? INT64_MAX : rdl();
    if (x->isgen && try) { try = false; dl = vh_time() - 1; }
    struct rec *r = begin(me, try ? TRYRECV : RECV, c, dl);
    int ret;
    if (x->isgen) ret = dl == INT64_MAX ? neco_gen_next(x->g, buf) : neco_gen_next_dl(x->g, buf, dl);
    else if (try) ret = neco_chan_tryrecv(x->c, buf);
    else ret = dl == INT64_MAX ? neco_chan_recv(x->c, buf) : neco_chan_recv_dl(x->c, buf, dl);
    int64_t id = ret == NECO_OK ? unfill(buf, x->size, "recv") : 0;
    end(me, r, ret, id);
    if (!guardok(buf, x->size)) VIOL("recv wrote past the message");
    if (ret != NECO_OK && ret != NECO_CLOSED && ret != NECO_TIMEDOUT && ret != NECO_CANCELED && !(try && ret == NECO_EMPTY)) VIOL("recv returned %d", ret);
    return ret;
}
static void do_select(int me, bool try) {
    int list[MAXCH], n = 0;
    for (int i = 0; i < nch; i++) if (!ch[i].isgen) list[n++] = i;
    if (!n) return;
    int64_t dl = try ? INT64_MAX : rdl();
    struct rec *r = begin(me, try ? TRYSELECT : SELECT, -1, dl);
    neco_chan *cs[MAXSEL];
    int k = nch > 4 ? vh_range(1, MAXSEL) : vh_range(1, 5), dups = 0;
    for (int i = 0; i < k; i++) { r->sel[i] = list[vh_rn((uint32_t)n)]; cs[i] = ch[r->sel[i]].c; }
    r->nsel = k;
    // Sometimes more than 8 cases, by repeating channels.
    if (k <= 8 && vh_chance(1, 6)) { dups = vh_range(8, 12); for (int i = k; i < dups; i++) cs[i] = cs[i % k]; }
    int m = dups ? dups : k, ret;
    if (m == 4 && vh_chance(1, 2)) ret = try ? neco_chan_tryselect(4, cs[0], cs[1], cs[2], cs[3]) : dl == INT64_MAX ? neco_chan_select(4, cs[0], cs[1], cs[2], cs[3]) : neco_chan_select_dl(dl, 4, cs[0], cs[1], cs[2], cs[3]);
    else if (m == 9 && vh_chance(1, 2)) ret = try ? neco_chan_tryselect(9, cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6], cs[7], cs[8]) : dl == INT64_MAX ? neco_chan_select(9, cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6], cs[7], cs[8]) : neco_chan_select_dl(dl, 9, cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6], cs[7], cs[8]);
    else if (try) ret = (m == 2 && vh_chance(1,2)) ? neco_chan_tryselect(2, cs[0], cs[1]) : neco_chan_tryselectv(m, cs);
    else if (dl == INT64_MAX) ret = (m == 2 && vh_chance(1,2)) ? neco_chan_select(2, cs[0], cs[1]) : neco_chan_selectv(m, cs);
    else ret = (m == 2 && vh_chance(1,2)) ? neco_chan_select_dl(dl, 2, cs[0], cs[1]) : neco_chan_selectv_dl(m, cs, dl);
    if (ret < 0) {
        end(me, r, ret, 0);
        if (ret != NECO_TIMEDOUT && ret != NECO_CANCELED && !(try && ret == NECO_EMPTY)) VIOL("select returned %d", ret);
        return;
    }
    if (ret >= m) { VIOL("select returned index %d of %d", ret, m); end(me, r, NECO_EMPTY, 0); return; }
    int c = r->sel[ret % k];
    r->ch = c;
    if (slowcase && !co[me].async) for (int i = vh_range(0, 3); i > 0; i--) neco_yield();
    unsigned char buf[ch[c].size + 64]; memset(buf, 0xC3, sizeof buf);
    int cr = neco_chan_case(ch[c].c, buf);
    int64_t id = cr == NECO_OK ? unfill(buf, ch[c].size, "case") : 0;
    end(me, r, cr, id);
    if (!guardok(buf, ch[c].size)) VIOL("case wrote past the message");
    if (cr != NECO_OK && cr != NECO_CLOSED) VIOL("case returned %d", cr);
}
static void do_bcast(int me, int c) {
    struct chs *x = &ch[c];
    if (x->isgen || (x->size > 0 && x->size < 4)) return;
    unsigned char buf[x->size + 64]; int64_t id = ++nextmsg;
    fill(buf, x->size, id);
    struct rec *r = begin(me, BCAST, c, INT64_MAX);
    r->msg = id;
    int ret = neco_chan_broadcast(x->c, buf);
    r->count = ret;
    end(me, r, ret, id);
    if (ret < 0 && ret != NECO_CLOSED) VIOL("broadcast returned %d", ret);
}
static void do_close(int me, int c) {
    struct rec *r = begin(me, CLOSE, c, INT64_MAX);
    int ret = ch[c].isgen ? neco_gen_close(ch[c].g) : neco_chan_close(ch[c].c);
    end(me, r, ret, 0);
    if (ret != NECO_OK && ret != NECO_CLOSED) VIOL("close returned %d", ret);
}
static void do_cancel(int me, int t) {
    if (t == me || !co[t].started || !co[t].alive) return;
    struct rec *r = begin(me, CANCEL, t, vh_time() + 500 * US);
    cancels[ncancels].idx = r->call; cancels[ncancels++].co = t;
    co[t].cflight++;
    int ret = neco_cancel_dl(co[t].id, r->dl);
    co[t].cflight--;
    if (ret == NECO_OK) co[t].creturned++;
    if (ret == NECO_OK && co[t].lastc < r->call) co[t].owed = true;
    end(me, r, ret, 0);
    if (ret != NECO_OK && ret != NECO_NOTFOUND && ret != NECO_CANCELED && ret != NECO_TIMEDOUT) VIOL("cancel returned %d", ret);
}

static void release_all(void) {
    for (int i = 0; i < nch; i++) {
        if (ch[i].isgen) neco_gen_release(ch[i].g); else neco_chan_release(ch[i].c);
    }
}
static void on_exit_co(void *arg) {
    int me = (int)(intptr_t)arg; vh_pend[me] = INT64_MAX;
    if (co[me].cur >= 0) {
        struct rec *r = &recs[co[me].cur];
        if (r->kind == CANCEL) { co[r->ch].cflight--; co[r->ch].creturned++; }
        if (pendc(me) == 0) VIOL("co %d exited without a cancelation in %s", me, names[r->kind]);
        if (r->kind == CLOSE || r->kind == BCAST) { r->res = NECO_OK; r->count = -2; } // exits at a yield after the effect
        else r->res = r->kind == CANCEL ? NECO_OK : NECO_CANCELED;
        r->ret = vh_log(me, RET, r->ch, r->msg, r->res);
    }
    vh_log(me, EXIT, 0, 1, 0);
    co[me].alive = false; ndone++;
    release_all();
    vh_count("async_exit", 1);
}
static int focus; // the favourite target of cancelations, or none
static int pickop(void) {
    int sum = 0; for (int i = 0; i < 12; i++) sum += wt[i];
    int v = (int)vh_rn((uint32_t)sum);
    for (int i = 0; i < 12; i++) { v -= wt[i]; if (v < 0) return i; }
    return YIELD;
}
static void body(int me) {
    int mygen = -1;
    for (int i = 0; i < nch; i++) if (ch[i].isgen && ch[i].owner == me) mygen = i;
    for (int k = 0; k < co[me].script && !stop; k++) {
        int op = pickop(); int c = (int)vh_rn((uint32_t)nch);
        if (mygen >= 0 && (op == RECV || op == SELECT || op == TRYRECV || op == CLOSE || op == BCAST)) op = SEND;
        switch (op) {
        case SEND:
            if (mygen >= 0) c = mygen;
            else { int g = 0; while (ch[c].isgen && g++ < 8) c = (int)vh_rn((uint32_t)nch); if (ch[c].isgen) { do_recv(me, c, false); break; } }
            do_send(me, c); break;
        case RECV: do_recv(me, c, false); break;
        case TRYRECV: do_recv(me, c, true); break;
        case SELECT: do_select(me, false); break;
        case TRYSELECT: do_select(me, true); break;
        case BCAST: do_bcast(me, c); break;
        case CLOSE: do_close(me, c); break;
        case CANCEL: if (use_cancel) do_cancel(me, focus >= 0 && vh_chance(2, 3) ? focus : (int)vh_rn((uint32_t)nco)); break;
        case SLEEP: { struct rec *r = begin(me, SLEEP, 0, INT64_MAX); int ret = neco_sleep(vh_range(1, 2500) * US); end(me, r, ret == NECO_TIMEDOUT ? NECO_OK : ret, 0); break; }
        case YIELD: { struct rec *r = begin(me, YIELD, 0, INT64_MAX); for (int i = vh_range(1, 3); i > 0; i--) neco_yield(); end(me, r, NECO_OK, 0); break; }
        case BUSY: vh_now += vh_range(1, 3000) * US; vh_log(me, BUSY, 0, 0, 0); break;
        case CSTATE: if (use_cancel) { co[me].disabled = !co[me].disabled; neco_setcancelstate(co[me].disabled ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, 0); } break;
        }
    }
}
static void entry(int argc, void *argv[]) {
    (void)argc;
    int me = (int)(intptr_t)argv[0];
    co[me].id = neco_getid(); co[me].alive = true; co[me].started = true; co[me].cur = -1;
    neco_setcanceltype(co[me].async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    neco_cleanup_push(on_exit_co, (void*)(intptr_t)me);
    body(me);
    neco_cleanup_pop(0);
    // No neco operation below may be interrupted by an async cancelation.
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    release_all();
    vh_log(me, EXIT, 0, 0, 0);
    co[me].alive = false; ndone++;
}

#define MAINCO (MAXCO-1)
static void mainco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    co[MAINCO].cur = -1;
    int ngen = 0;
    for (int i = 0; i < nch; i++) {
        struct chs *x = &ch[i];
        if (!x->isgen) { if (neco_chan_make(&x->c, (size_t)x->size, (size_t)x->cap) != NECO_OK) vh_error("make"); }
        else ngen++;
    }
    // Generators get a coroutine of their own; they are started suspended on a
    // yield so that every other coroutine sees the handle.
    for (int i = 0; i < nch; i++) if (ch[i].isgen) ch[i].g = NULL;
    for (int me = 0; me < nco; me++) {
        int g = -1;
        for (int i = 0; i < nch; i++) if (ch[i].isgen && ch[i].owner == me) g = i;
        if (g >= 0) {
            // handle must exist before the body runs: chan memory is assigned
            // by the start call itself before the coroutine is entered
            co[me].started = false;
        }
    }
    for (int me = 0; me < nco; me++) for (int i = 0; i < nch; i++) if (!ch[i].isgen) neco_chan_retain(ch[i].c);
    // start generators first (their handles are set before they run)
    for (int i = 0; i < nch; i++) if (ch[i].isgen) {
        extern void gen_entry(int, void**);
        if (neco_gen_start(&ch[i].g, (size_t)ch[i].size, gen_entry, 1, (void*)(intptr_t)ch[i].owner) != NECO_OK) vh_error("gen_start");
    }
    for (int i = 0; i < nch; i++) if (ch[i].isgen) for (int me = 0; me < nco; me++) neco_gen_retain(ch[i].g);
    for (int me = 0; me < nco; me++) {
        bool isg = false;
        for (int i = 0; i < nch; i++) if (ch[i].isgen && ch[i].owner == me) isg = true;
        if (!isg) { if (neco_start(entry, 1, (void*)(intptr_t)me) != NECO_OK) vh_error("start"); }
    }
    int64_t tend = vh_time() + 3 * NECO_SECOND;
    while (vh_time() < tend) neco_sleep_dl(tend);
    qidx = vh_log(MAINCO, QUIESCE, 0, 0, 0);
    stop = true;
    bool old_dl = use_dl; use_dl = false;
    for (int round = 0; ndone < nco; round++) {
        if (round > 300) {
            for (int i = 0; i < nco; i++) if (co[i].alive || !co[i].started) {
                vh_fatal("coroutine %d is stuck in %s on channel %d after all channels were drained and closed", i,
                    co[i].cur >= 0 ? names[recs[co[i].cur].kind] : "nothing", co[i].cur >= 0 ? recs[co[i].cur].ch : -1);
            }
        }
        for (int i = 0; i < nch; i++) for (int k = 0; k < 50 && do_recv(MAINCO, i, true) == NECO_OK; k++) { }
        if (round > 1) for (int i = 0; i < nch; i++) do_close(MAINCO, i);
        neco_sleep(1 * MS);
    }
    for (int i = 0; i < nch; i++) while (do_recv(MAINCO, i, true) == NECO_OK) { }
    use_dl = old_dl;
    release_all();
}
void gen_entry(int argc, void *argv[]) {
    // Let the main coroutine finish the setup first.
    int me = (int)(intptr_t)argv[0];
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
    for (int i = 0; i < 3; i++) neco_yield();
    neco_setcancelstate(NECO_CANCEL_ENABLE, 0);
    co[me].disabled = false;
    entry(argc, argv);
}

// ------------------------------------------------------------------ checker
static int first_time(int from, int64_t t) { // first event index >= from with time >= t
    for (int i = from; i < vh_nev; i++) if (vh_evs[i].t >= t) return i;
    return vh_nev;
}
static bool isrecv(struct rec *r) { return r->kind == RECV || r->kind == TRYRECV || r->kind == SELECT || r->kind == TRYSELECT; }
static bool on(struct rec *r, int c) {
    if (r->nsel == 0) return r->ch == c;
    for (int i = 0; i < r->nsel; i++) if (r->sel[i] == c) return true;
    return false;
}
static void check(void) {
    static int S[MAXREC], R[MAXREC], closeidx[MAXCH];
    // closing events
    for (int c = 0; c < nch; c++) {
        closeidx[c] = INT32_MAX;
        for (int i = 0; i < nrec; i++) if (recs[i].kind == CLOSE && recs[i].ch == c && recs[i].res == NECO_OK) {
            if (recs[i].call < closeidx[c]) closeidx[c] = recs[i].call;
        }
        if (ch[c].isgen) for (int i = 0; i < vh_nev; i++) if (vh_evs[i].op == EXIT && vh_evs[i].co == ch[c].owner && i < closeidx[c]) closeidx[c] = i;
        int n = 0;
        for (int i = 0; i < nrec; i++) if (recs[i].kind == CLOSE && recs[i].ch == c && recs[i].res == NECO_OK) n++;
        if (n > 1) VIOL("channel %d closed successfully %d times", c, n);
        for (int i = 0; i < nrec; i++) {
            struct rec *r = &recs[i];
            if (r->ch != c || r->kind == CANCEL) continue;
            if (r->kind == CLOSE && r->res == NECO_CLOSED && r->ret < closeidx[c]) VIOL("close of open channel %d returned CLOSED", c);
            if (r->kind == SEND || r->kind == BCAST) {
                if (r->call > closeidx[c] && r->res != NECO_CLOSED && r->res != NECO_CANCELED) VIOL("send on closed channel %d returned %d", c, r->res);
                if (r->res == NECO_CLOSED && r->call < closeidx[c]) VIOL("send on open channel %d returned CLOSED", c);
            }
        }
    }
    // certainty ends and defaults
    for (int i = 0; i < nrec; i++) {
        struct rec *r = &recs[i];
        r->cend = r->ret;
        if (r->precancel) r->cend = r->call;
        for (int k = 0; k < ncancels; k++) if (cancels[k].co == r->co && cancels[k].idx >= r->call && cancels[k].idx < r->cend) r->cend = cancels[k].idx;
        if (r->dl < INT64_MAX) { int e = first_time(r->call, r->dl); if (e < r->cend) r->cend = e; }
        if (r->cend < r->call) r->cend = r->call;
        if ((r->kind == RECV || r->kind == SELECT) && r->res == NECO_CLOSED) { int e = closeidx[r->ch]; if (e < r->cend) r->cend = e < r->call ? r->call : e; }
        if (r->kind == TRYRECV || r->kind == TRYSELECT) r->cend = r->call;
    }
    // broadcasts bind their receivers
    for (int i = 0; i < nrec; i++) if (recs[i].kind == BCAST && recs[i].count >= -2 && ch[recs[i].ch].size >= 4) {
        struct rec *b = &recs[i]; int n = 0;
        for (int k = 0; k < nrec; k++) if (isrecv(&recs[k]) && recs[k].res == NECO_OK && ch[recs[k].ch].size >= 4 && recs[k].msg == b->msg) {
            if (recs[k].ch != b->ch) VIOL("broadcast message %lld arrived on channel %d instead of %d", (long long)b->msg, recs[k].ch, b->ch);
            if (recs[k].call > b->call) VIOL("broadcast message %lld received by a receiver that was not waiting", (long long)b->msg);
            if (recs[k].bmsg) VIOL("broadcast bound twice");
            recs[k].bmsg = true; recs[k].bind = b->call; n++;
        }
        if (b->count >= 0 && b->res >= 0 && n != b->count) VIOL("broadcast reported %d receivers, but %d received it", b->count, n);
        if (b->res < 0 && n) VIOL("failed broadcast was received");
        if (n) vh_count("bcast_delivered", n);
    }
    for (int c = 0; c < nch; c++) {
        int ns = 0, nr = 0, nb = 0;
        for (int i = 0; i < nrec; i++) {
            struct rec *r = &recs[i];
            if (r->kind == SEND && r->ch == c && r->res == NECO_OK) S[ns++] = i;
            if (isrecv(r) && r->ch == c && r->res == NECO_OK && !r->bmsg) R[nr++] = i;
            if (r->kind == BCAST && r->ch == c && r->count > 0) nb += r->count;
        }
        vh_count("messages", ns);
        if (ch[c].size == 0) {
            bool unknown = false;
            for (int i = 0; i < nrec; i++) if (recs[i].kind == BCAST && recs[i].ch == c && recs[i].count == -2) unknown = true;
            if (!unknown && nr != ns + nb) VIOL("channel %d (empty messages): %d sent, %d broadcast, %d received", c, ns, nb, nr);
            continue;
        }
        for (int i = 0; i < ns && i < nr; i++) {
            struct rec *s = &recs[S[i]], *r = &recs[R[i]];
            if (ch[c].size < 4 && (s->msg & ((1 << 8 * ch[c].size) - 1)) == r->msg) r->msg = s->msg;
            if (s->msg != r->msg) {
                VIOL("channel %d cap %d: receive #%d (co %d, event %d) got message %lld, expected %lld in send order", c, ch[c].cap, i, r->co, r->call, (long long)r->msg, (long long)s->msg);
                return;
            }
            s->bind = r->bind = s->call > r->call ? s->call : r->call;
            if (r->ret < s->call) VIOL("message %lld received before it was sent", (long long)s->msg);
        }
        if (ns != nr) {
            if (ns > nr) VIOL("channel %d: message %lld was sent successfully but never received (%d sent, %d received)", c, (long long)recs[S[nr]].msg, ns, nr);
            else VIOL("channel %d: message %lld was received but its send did not succeed, or received twice (%d sent, %d received)", c, (long long)recs[R[ns]].msg, ns, nr);
            return;
        }
    }
    for (int c = 0; c < nch; c++) {
        if (ch[c].size == 0) continue;
        int cl = closeidx[c];
        for (int i = 0; i < nrec; i++) {
            struct rec *r = &recs[i];
            if (!isrecv(r) || !on(r, c)) continue;
            int wend = r->res == NECO_OK ? r->bind : r->cend;
            if (r->res == NECO_CLOSED && r->kind == TRYSELECT) wend = r->call;
            bool waiting = r->kind == RECV || r->kind == SELECT;
            // waiting receiver vs available message
            for (int k = 0; k < nrec; k++) {
                struct rec *s = &recs[k];
                if (s->kind == SEND && s->ch == c && s->res != NECO_CLOSED) {
                    int uend = s->res == NECO_OK ? s->bind : s->cend;
                    if (waiting) {
                        int lo = s->call > r->call ? s->call : r->call, hi = uend < wend ? uend : wend;
                        if (lo < hi) VIOL("channel %d: receiver co %d (event %d, result %d) and message %lld (event %d, result %d) were both waiting from event %d to %d",
                            c, r->co, r->call, r->res, (long long)s->msg, s->call, s->res, lo, hi);
                    } else if (r->res == NECO_EMPTY && s->call < r->call && uend > r->call) {
                        VIOL("channel %d: try-receive at event %d returned EMPTY although message %lld was available", c, r->call, (long long)s->msg);
                    }
                    if (r->res == NECO_CLOSED && r->ch == c && s->res == NECO_OK) {
                        int at = r->call > cl ? r->call : cl;
                        if (s->call < at && uend > at) VIOL("channel %d: receiver got CLOSED while message %lld was still undelivered", c, (long long)s->msg);
                    }
                }
                if (s->kind == BCAST && s->ch == c && s->res >= 0 && waiting && !(r->bmsg && r->msg == s->msg)) {
                    if (r->call < s->call && s->call < wend) VIOL("channel %d: broadcast at event %d was not delivered to co %d waiting since event %d (until %d, result %d)", c, s->call, r->co, r->call, wend, r->res);
                }
            }
            if (r->res == NECO_CLOSED && r->ch == c && cl > r->ret) VIOL("channel %d: receiver got CLOSED but the channel is open", c);
            if (r->call > cl && (r->res == NECO_TIMEDOUT || r->res == NECO_EMPTY)) VIOL("channel %d: receive on closed channel returned %d", c, r->res);
            if (waiting && cl < INT32_MAX && qidx > 0) {
                int from = r->call > cl ? r->call : cl;
                if (from < qidx && qidx < r->ret) VIOL("channel %d: receiver co %d (event %d) was blocked although the channel was closed at event %d", c, r->co, r->call, cl);
            }
        }
        // capacity, in both directions
        for (int i = 0; i < nrec; i++) {
            struct rec *s = &recs[i];
            if (s->kind != SEND || s->ch != c || s->res == NECO_CLOSED) continue;
            int ahead_call = 0, ahead_end = 0, ahead_q = 0, held = 0;
            for (int k = 0; k < nrec; k++) {
                struct rec *o = &recs[k];
                if (o->kind != SEND || o->ch != c || o->res != NECO_OK) continue;
                if (o->call < s->call && o->bind > s->call) ahead_call++;
                if (o->call < s->call && o->bind > s->cend) ahead_end++;
                if (o->call < s->call && o->bind > qidx) ahead_q++;
                if (s->res == NECO_OK && o->ret <= s->ret && o->bind > s->ret) held++;
            }
            if (s->res == NECO_OK && held > ch[c].cap) VIOL("channel %d: %d messages held after a successful send, capacity is %d", c, held, ch[c].cap);
            if (s->res != NECO_OK && s->cend > s->call && ahead_end < ch[c].cap) VIOL("channel %d: send at event %d returned %d although there was room (%d of %d)", c, s->call, s->res, ahead_end, ch[c].cap);
            if (s->res != NECO_OK && !s->precancel && ahead_call < ch[c].cap) VIOL("channel %d: send at event %d returned %d although there was room at the call", c, s->call, s->res);
            if (s->call < qidx && s->ret > qidx && ahead_q < ch[c].cap) VIOL("channel %d: sender co %d blocked although there was room (%d of %d)", c, s->co, ahead_q, ch[c].cap);
        }
    }
}

static void setw(int s, int r, int tr, int sel, int tsel, int b, int cl, int cx, int sl, int y, int bu, int cs) {
    int w[] = {s,r,tr,sel,tsel,b,cl,cx,sl,y,bu,cs}; memcpy(wt, w, sizeof w);
}
static void one(uint64_t seed) {
    (void)seed;
    vh_opnames(names, 15);
    nrec = 0; ncancels = 0; ndone = 0; stop = false; nextmsg = 0; qidx = 0;
    memset(ch, 0, sizeof ch); memset(co, 0, sizeof co);
    const char *m = vh_mode; bool gen = !strcmp(m, "gen");
    nch = vh_range(1, 3); nco = vh_range(2, 9);
    use_dl = vh_chance(2, 3); use_cancel = vh_chance(1, 2); slowcase = vh_chance(1, 2);
    if (vh_chance(1, 3)) { vh_jitter = vh_range(3, 40); vh_jitter_max = vh_range(1, 800) * US; }
    if (!strcmp(m, "basic")) { setw(30,28,6,0,0,0,0,4,6,10,6,2); if (vh_chance(1,3)) nch = 1; }
    else if (!strcmp(m, "close")) setw(24,26,8,4,2,1,3,4,6,8,5,2);
    else if (!strcmp(m, "select")) { setw(34,6,2,26,5,2,1,4,5,8,5,2); nch = vh_range(1, 4); }
    else if (!strcmp(m, "bcast")) { setw(6,26,4,18,3,14,1,4,6,8,5,2); nco = vh_range(3, 10); }
    else if (gen) { setw(24,30,8,0,0,0,1,4,6,8,5,2); }
    else setw(20,20,4,14,3,4,1,5,6,8,5,2);
    static const int sizes[] = {4, 8, 24, 100, 1000, 0, 4, 8, 5, 37, 1, 2, 3, 16, 4096, 20000};
    static const int caps[] = {0, 0, 0, 1, 1, 2, 3, 7, 0, 1, 16, 17, 33, 64, 100, 300};
    bool big = vh_chance(1, 60); if (big) { nco = vh_range(10, 60); int k = (int)vh_rn(3); if (k == 0) nch = vh_range(4, 20); else if (k == 1 && !gen) nch = 1; vh_count("big_cases", 1); }
    vh_swarm(wt, 12, 1, big ? 2 : 5); focus = vh_chance(1, 5) ? (int)vh_rn((uint32_t)nco) : -1;
    for (int i = 0; i < nch; i++) {
        ch[i].size = sizes[vh_rn(big ? 16 : 13)]; ch[i].cap = caps[vh_rn(big ? 16 : 8)];
        if (gen && (i == 0 || vh_chance(1, 2)) && i < nco) { ch[i].isgen = true; ch[i].owner = i; ch[i].cap = 0; }
    }
    for (int i = 0; i < nco; i++) { co[i].cur = -1; co[i].async = use_cancel && vh_chance(1, 4); co[i].script = vh_range(2, 18); }
    long live0 = vh_track_live();
    int ret = vh_start(VH_NZ_EV|VH_NZ_SIG, mainco, 0);
    if (ret != NECO_OK) vh_error("neco_start %d", ret);
    if (vh_track_live() != live0) VIOL("%ld blocks leaked by the case", vh_track_live() - live0);
    check();
    int msgs = 0;
    for (int i = 0; i < nrec; i++) {
        if (recs[i].kind == SEND && recs[i].res == NECO_OK) msgs++;
        if (recs[i].res == NECO_TIMEDOUT) vh_count("timedout", 1);
        if (recs[i].res == NECO_CANCELED) vh_count("canceled", 1);
        if (recs[i].res == NECO_CLOSED) vh_count("closed", 1);
    }
    if (msgs < 2) vh_trivial();
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
