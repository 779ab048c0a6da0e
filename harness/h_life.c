// Coroutine life cycle: start, arguments, identifiers, join, sleep, deadlines,
// suspend/resume, cancelation, cleanup handlers, exit. Random programs with an
// online and an offline checker.
// Modes: life, sleep, suspend, cancel, cleanup, mix, det (each case twice).
#include "vh.h"

enum { START, JOIN, SLEEP, YIELD, SUSPEND, RESUME, CANCEL, CSTATE, CTYPE, BUSY, NEXIT, PUSH, POP, HANDLER, QUIESCE, EXIT, RET, NOPS };
static const char *const names[] = {"start","join","sleep","yield","suspend","resume","cancel","cstate","ctype","busy","neco_exit","push","pop","handler","QUIESCE","exit","ret"};
#define MAXCO 48
#define MAXREC 8000
#define MAXH 64
struct rec { int kind, co, obj; int call, ret, res; int64_t dl, tcall; int cend; bool precancel, defcancel; int ny; bool disabled, deadtarget, asyncexit, imm; int consumed;
    // cancel bookkeeping
    bool begun_disabled, enabled_since, spent, cleared, dis_all; int enev; };
struct cos { int64_t id, parent; int parentidx; bool async, alive, started, exiting, exited; int cur; int script; bool disabled; int exitev;
    int hstack[MAXH]; int nh; int argc; void *args[64]; bool startvv; int hmode; int64_t lastchild; int depth; };
static struct rec recs[MAXREC]; static int nrec;
static struct cos co[MAXCO]; static int nco, ncreated, ndone, maxco; static bool stop; static int qidx;
static int wt[16]; static bool use_dl, use_cancel, anybusy; static int nexthandler; static int hran[20000]; static int64_t minid;
static int nextidx; // for coroutines started without arguments

static bool possible(struct rec *c) {
    if (c->kind != CANCEL || c->cleared) return false;
    if (c->ret < 0) return !c->begun_disabled || c->enabled_since;
    return c->res == NECO_OK;
}
static bool pend_possible(int t) { for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == t && possible(&recs[i])) return true; return false; }
static bool pend_definite(int t) { for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == t && !recs[i].cleared && recs[i].ret >= 0 && recs[i].res == NECO_OK && !recs[i].spent) return true; return false; }
static void consume(int t) {
    for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == t) {
        if (recs[i].ret >= 0) recs[i].cleared = true; else recs[i].spent = true;
    }
}
static struct rec *begin(int me, int kind, int obj, int64_t dl) {
    if (nrec >= MAXREC) vh_error("too many records");
    if (co[me].exited) VIOL("co %d runs after it exited", me);
    struct rec *r = &recs[nrec++]; memset(r, 0, sizeof *r);
    r->kind = kind; r->co = me; r->obj = obj; r->dl = dl; r->ret = -1; r->res = 12345; r->tcall = vh_time();
    r->disabled = co[me].disabled;
    r->precancel = pend_possible(me); r->defcancel = pend_definite(me);
    r->call = vh_log(me, kind, obj, 0, 0); co[me].cur = (int)(r - recs); vh_pend[me] = dl;
    if (neco_getid() != co[me].id) VIOL("co %d: getid changed from %lld to %lld", me, (long long)co[me].id, (long long)neco_getid());
    return r;
}
static void end(int me, struct rec *r, int res) {
    r->res = res; r->ret = vh_log(me, RET, r->obj, r->kind, res); r->imm = r->ret == r->call + 1;
    co[me].cur = -1; vh_pend[me] = INT64_MAX;
    if (co[me].exited) VIOL("co %d runs after it exited", me);
    if (neco_getid() != co[me].id) VIOL("co %d: runs with the identity of another coroutine", me);
    if (res == NECO_CANCELED) {
        if (!pend_possible(me)) VIOL("co %d: %s returned CANCELED without a deliverable cancelation%s", me, names[r->kind], co[me].disabled ? " (disabled)" : "");
        if (co[me].async) VIOL("co %d: %s returned CANCELED to a coroutine with async cancelation", me, names[r->kind]);
        consume(me);
    } else if (r->defcancel && !co[me].exiting) {
        bool dlpast = r->dl < INT64_MAX && r->kind == SLEEP && res == NECO_TIMEDOUT;
        bool must = (r->kind == SLEEP && !dlpast) || r->kind == SUSPEND || (r->kind == JOIN && !r->deadtarget) || (r->kind == YIELD && co[me].async && r->ny > 0);
        if (must) VIOL("co %d: %s at event %d returned %d although a cancelation was pending", me, names[r->kind], r->call, res);
    }
    if (res == NECO_TIMEDOUT) {
        if (r->dl == INT64_MAX) VIOL("co %d: %s returned TIMEDOUT without a deadline", me, names[r->kind]);
        else if (vh_time() < r->dl) VIOL("co %d: %s returned TIMEDOUT before its deadline", me, names[r->kind]);
    }
    vh_count(names[r->kind], 1);
}
static int64_t rdl(void) {
    if (!use_dl || vh_chance(1, 3)) return INT64_MAX;
    switch (vh_rn(6)) {
    case 0: return vh_time() + vh_range(0, 3000);
    case 1: return vh_time() - 5;
    default: return vh_time() + vh_range(1, 4000) * 1000;
    }
}
static void co_entry(int argc, void *argv[]);
static void do_yield(int me, int n) {
    struct rec *r = begin(me, YIELD, 0, INT64_MAX); r->ny = n;
    for (int i = 0; i < n; i++) if (neco_yield() != NECO_OK) VIOL("yield failed");
    end(me, r, NECO_OK);
}
static bool crowd; // many coroutines from the start
static int stampede; // ... that all join (1) or cancel (2) the same one
static int focus; // the favourite target of joins and cancelations, or none
static void do_sleep(int me) {
    int64_t d = vh_chance(1, 10) ? -vh_range(0, 1000) : vh_chance(1, 4) ? vh_range(1, 5000) : vh_range(1, 2500) * US;
    if (me == focus && crowd && d > 0) d *= 20;
    bool abs = vh_jitter || vh_chance(1, 2); if (vh_chance(1, 40)) { abs = true; d = INT64_MIN; }
    int64_t dl = abs ? (d == INT64_MIN ? INT64_MIN : vh_time() + d) : vh_time() + d;
    struct rec *r = begin(me, SLEEP, 0, dl);
    int64_t t0 = vh_time();
    int ret = abs ? neco_sleep_dl(dl) : neco_sleep(d);
    end(me, r, ret);
    if (ret != NECO_OK && ret != NECO_CANCELED && ret != NECO_TIMEDOUT) VIOL("sleep returned %d", ret);
    if (ret == NECO_OK && vh_time() < dl) VIOL("co %d: sleep returned %lld ns too early", me, (long long)(dl - vh_time()));
    // TIMEDOUT is for a deadline that has already passed; every clock read takes a nanosecond here
    if (ret == NECO_TIMEDOUT && dl > t0 + 100 && vh_jitter == 0) VIOL("co %d: sleep for %lld ns returned TIMEDOUT", me, (long long)(dl - t0));
}
static void do_start(int me) {
    if (ncreated >= maxco) return;
    int idx = ncreated++;
    struct cos *x = &co[idx];
    x->parent = co[me].id; x->parentidx = me; x->cur = -1; x->depth = co[me].depth + 1;
    x->async = use_cancel && vh_chance(1, 3); x->script = vh_range(1, co[me].depth > 2 ? 4 : 10); x->hmode = (int)vh_rn(4);
    int argc = vh_chance(1, 12) ? vh_range(10, 60) : vh_range(0, 9); if (argc == 0) nextidx = idx;
    x->argc = argc; x->args[0] = (void*)(intptr_t)idx;
    for (int i = 1; i < argc; i++) x->args[i] = (void*)(uintptr_t)vh_rand();
    nco = ncreated;
    struct rec *r = begin(me, START, idx, INT64_MAX);
    void *a[64]; memcpy(a, x->args, sizeof a);
    int ret;
    if (vh_chance(1, 2)) {
        switch (argc) {
        case 0: ret = neco_start(co_entry, 0); break;
        case 1: ret = neco_start(co_entry, 1, a[0]); break;
        case 2: ret = neco_start(co_entry, 2, a[0], a[1]); break;
        case 3: ret = neco_start(co_entry, 3, a[0], a[1], a[2]); break;
        case 6: ret = neco_start(co_entry, 6, a[0], a[1], a[2], a[3], a[4], a[5]); break;
        case 7: ret = neco_start(co_entry, 7, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
        case 8: ret = neco_start(co_entry, 8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
        case 12: ret = neco_start(co_entry, 12, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
        case 4: ret = neco_start(co_entry, 4, a[0], a[1], a[2], a[3]); break;
        case 5: ret = neco_start(co_entry, 5, a[0], a[1], a[2], a[3], a[4]); break;
        case 9: ret = neco_start(co_entry, 9, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
        default: ret = neco_startv(co_entry, argc, a);
        }
    } else ret = neco_startv(co_entry, argc, a);
    memset(a, 0x5A, sizeof a); // the caller's array is no longer needed
    end(me, r, ret);
    if (ret != NECO_OK) vh_fatal("start returned %d", ret);
    if (!x->started) { VIOL("start returned before coroutine %d began to run", idx); }
    else if (neco_lastid() != x->id) VIOL("lastid is %lld after starting coroutine %lld", (long long)neco_lastid(), (long long)x->id);
    co[me].lastchild = x->id;
}
static void do_join(int me) {
    // only coroutines with a larger index: no cycles
    if (ncreated <= me + 1 && !vh_chance(1, 8)) return;
    int t = ncreated > me + 1 ? me + 1 + (int)vh_rn((uint32_t)(ncreated - me - 1)) : me;
    if (focus > me && focus < ncreated && vh_chance(2, 3)) t = focus;
    int64_t dl = rdl(), id = co[t].id;
    if (!co[t].started) return;
    if (vh_chance(1, 15)) { id = 9999999999LL; t = -1; }
    struct rec *r = begin(me, JOIN, t < 0 ? 999 : t, dl);
    bool dead = t < 0 || co[t].exited; r->deadtarget = dead;
    int ret = dl == INT64_MAX ? neco_join(id) : neco_join_dl(id, dl);
    end(me, r, ret);
    if (t == me) { if (ret == NECO_OK) VIOL("join of itself returned OK"); return; }
    if (dead && ret != NECO_OK) VIOL("join of a finished or unknown coroutine returned %d", ret);
    if (dead && !r->imm) VIOL("join of a finished or unknown coroutine blocked");
    if (ret == NECO_OK && t >= 0 && !co[t].exited) VIOL("join returned OK but coroutine %d has not finished", t);
    if (ret != NECO_OK && ret != NECO_TIMEDOUT && ret != NECO_CANCELED) VIOL("join returned %d", ret);
}
static void do_suspend(int me) {
    int64_t dl = rdl();
    struct rec *r = begin(me, SUSPEND, me, dl);
    int ret = dl == INT64_MAX ? neco_suspend() : neco_suspend_dl(dl);
    end(me, r, ret);
    if (ret != NECO_OK && ret != NECO_TIMEDOUT && ret != NECO_CANCELED) VIOL("suspend returned %d", ret);
}
static void do_resume(int me, int t) {
    if (!co[t].started) return;
    struct rec *r = begin(me, RESUME, t, INT64_MAX);
    bool dead = co[t].exited;
    int ret = neco_resume(co[t].id);
    end(me, r, ret);
    if (dead && ret != NECO_NOTFOUND) VIOL("resume of a finished coroutine returned %d", ret);
    if (!dead && ret == NECO_NOTFOUND && !co[t].exited) VIOL("resume of a live coroutine returned NOTFOUND");
    if (ret != NECO_OK && ret != NECO_NOTFOUND && ret != NECO_NOTSUSPENDED) VIOL("resume returned %d", ret);
}
static void do_cancel(int me, int t) {
    if (!co[t].started) return;
    struct rec *r = begin(me, CANCEL, t, vh_chance(1, 4) ? rdl() : vh_time() + vh_range(1, 800) * US);
    bool dead = co[t].exited; r->deadtarget = dead;
    r->begun_disabled = co[t].disabled; r->dis_all = co[t].disabled;
    // without a deadline only upwards: no cycles
    if (co[t].disabled && r->dl == INT64_MAX && (t <= me || co[me].exiting)) r->dl = vh_time() + 300 * US;
    int64_t dl = r->dl;
    int ret = dl == INT64_MAX ? neco_cancel(co[t].id) : neco_cancel_dl(co[t].id, dl);
    end(me, r, ret);
    if (ret == NECO_OK && co[t].exited) r->cleared = true;
    if (dead && ret != NECO_NOTFOUND) VIOL("cancel of a finished coroutine returned %d", ret);
    if (ret == NECO_NOTFOUND && !co[t].exited) VIOL("cancel of a live coroutine returned NOTFOUND");
    if (ret == NECO_OK && r->dis_all && !co[t].exited) VIOL("cancel returned OK although coroutine %d had cancelation disabled all the time", t);
    if (ret != NECO_OK && ret != NECO_NOTFOUND && ret != NECO_CANCELED && ret != NECO_TIMEDOUT) VIOL("cancel returned %d", ret);
    if (ret != NECO_OK && co[me].cur != -1) VIOL("bookkeeping");
}
static void set_disabled(int me, bool d) {
    int old = 0;
    if (!d) for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == me && recs[i].ret < 0) { recs[i].enabled_since = true; recs[i].dis_all = false; }
    int ev = vh_log(me, CSTATE, 0, d, 0);
    for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == me && recs[i].ret < 0) recs[i].enev = d ? 0 : recs[i].enev ? recs[i].enev : ev;
    bool was = co[me].disabled; co[me].disabled = d;
    int ret = neco_setcancelstate(d ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, &old);
    if (ret != NECO_OK || old != (was ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE)) VIOL("setcancelstate returned %d, old state %d", ret, old);
}
// ---- cleanup handlers
struct harg { int me; int id; };
static struct harg hargs[20000];
static void handler(void *arg) {
    struct harg *h = arg; int me = h->me; struct cos *x = &co[me]; vh_pend[me] = INT64_MAX;
    vh_log(me, HANDLER, h->id, 0, 0);
    if (hran[h->id]++) VIOL("co %d: cleanup handler %d ran %d times", me, h->id, hran[h->id]);
    if (x->nh == 0 || x->hstack[x->nh-1] != h->id) { VIOL("co %d: cleanup handler %d ran out of order", me, h->id); return; }
    x->nh--;
    if (neco_getid() != x->id) VIOL("co %d: cleanup handler runs in another coroutine", me);
    if (!x->exiting && x->cur >= 0) { // first handler of an exit
        struct rec *r = &recs[x->cur];
        bool byself = r->kind == NEXIT;
        if (!byself) {
            if (!pend_possible(me)) VIOL("co %d was canceled in %s without a deliverable cancelation", me, names[r->kind]);
            if (!x->async) VIOL("co %d has inline cancelation but was exited in %s", me, names[r->kind]);
            r->asyncexit = true; r->ny = 0;
            vh_count("async_exit", 1);
        } else vh_count("neco_exit", 1);
        if (r->kind == CANCEL) r->ret = vh_log(me, RET, r->obj, r->kind, r->res = NECO_OK);
        else r->ret = vh_log(me, RET, r->obj, r->kind, r->res = NECO_CANCELED);
        if (r->kind == CANCEL) r->spent = true; // took effect or not, unknown
        x->cur = -1; x->exiting = true; consume(me); x->async = false;
    }
    if (x->exiting && x->cur >= 0 && recs[x->cur].kind != NEXIT) { // a handler that asked for asynchronous cancelation was canceled itself
        struct rec *r = &recs[x->cur];
        if (!x->async) VIOL("co %d: the exit was left in %s of a handler", me, names[r->kind]);
        if (!pend_possible(me)) VIOL("co %d: a handler was canceled in %s without a deliverable cancelation", me, names[r->kind]);
        r->asyncexit = true; r->ny = 0; if (r->kind == CANCEL) r->spent = true;
        r->ret = vh_log(me, RET, r->obj, r->kind, r->res = r->kind == CANCEL ? NECO_OK : NECO_CANCELED); x->cur = -1; consume(me); vh_count("handler_canceled", 1); x->async = false;
    }
    if (x->exiting && x->cur >= 0 && recs[x->cur].kind == NEXIT) { recs[x->cur].ret = vh_log(me, RET, 0, NEXIT, 0); x->cur = -1; x->async = false; } // a handler exited
    vh_count("handlers_run", 1);
    if (x->exiting && use_cancel && vh_chance(1, 8)) { x->async = true; neco_setcanceltype(NECO_CANCEL_ASYNC, 0); }
    if (x->hmode == 1) do_yield(me, vh_range(1, 2));
    if (x->hmode == 2 && !x->disabled) do_sleep(me);
    if (x->hmode == 3 && use_cancel && vh_chance(1, 3)) do_cancel(me, (int)vh_rn((uint32_t)ncreated));
    if (vh_chance(1, 16)) { // a handler with a handler
        int id = nexthandler++; bool ex = vh_chance(1, 2); hran[id] = 0; hargs[id] = (struct harg){ me, id }; x->hstack[x->nh++] = id;
        neco_cleanup_push(handler, &hargs[id]); if (vh_chance(1, 2)) do_yield(me, 1); if (!ex) x->nh--;
        neco_cleanup_pop(ex); if (hran[id] != ex) VIOL("cleanup_pop(%d) in a handler ran its handler %d times", ex, hran[id]);
        vh_count("nested_handlers", 1);
    }
    if (vh_chance(1, 40)) { vh_count("handler_exits", 1); begin(me, NEXIT, 0, INT64_MAX); neco_exit(); VIOL("neco_exit returned"); }
}
static int pickop(void) {
    int sum = 0; for (int i = 0; i < 11; i++) sum += wt[i];
    int v = (int)vh_rn((uint32_t)sum);
    for (int i = 0; i < 11; i++) { v -= wt[i]; if (v < 0) return i; }
    return YIELD;
}
static void ops(int me, int n) {
    for (int k = 0; k < n && !stop; k++) {
        switch (pickop()) {
        case START: do_start(me); break;
        case JOIN: do_join(me); break;
        case SLEEP: do_sleep(me); break;
        case YIELD: do_yield(me, vh_range(1, 5)); break;
        case SUSPEND: do_suspend(me); break;
        case RESUME: do_resume(me, (int)vh_rn((uint32_t)ncreated)); break;
        case CANCEL: if (use_cancel) do_cancel(me, focus >= 0 && focus < ncreated && vh_chance(2, 3) ? focus : (int)vh_rn((uint32_t)ncreated)); break;
        case CSTATE: if (use_cancel) set_disabled(me, !co[me].disabled); break;
        case CTYPE: if (use_cancel) {
            int old = 0; bool was = co[me].async; co[me].async = vh_chance(1, 2);
            if (neco_setcanceltype(co[me].async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, &old) != NECO_OK || old != (was ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE)) VIOL("setcanceltype: old type %d", old);
            } break;
        case BUSY: anybusy = true; vh_now += vh_range(1, 3000) * US; vh_log(me, BUSY, 0, 0, 0); break;
        case NEXIT: if (vh_chance(1, 4)) { begin(me, NEXIT, 0, INT64_MAX); neco_exit(); VIOL("neco_exit returned"); } break;
        }
    }
}
static void level(int me, int depth) {
    int id = nexthandler++;
    if (nexthandler >= 19999) vh_error("too many handlers");
    hran[id] = 0; hargs[id] = (struct harg){ me, id };
    co[me].hstack[co[me].nh++] = id;
    bool execute = vh_chance(1, 2); int before = 0;
    neco_cleanup_push(handler, &hargs[id]);
    ops(me, (int)vh_rn((uint32_t)(co[me].script + 1)));
    if (depth > 0 && vh_chance(2, 3)) level(me, depth - 1);
    ops(me, (int)vh_rn(3));
    before = hran[id];
    if (!execute) { if (co[me].nh == 0 || co[me].hstack[co[me].nh-1] != id) VIOL("handler stack out of step"); else co[me].nh--; }
    neco_cleanup_pop(execute);
    if (hran[id] - before != (execute ? 1 : 0)) VIOL("cleanup_pop(%d) ran its handler %d times", execute, hran[id] - before);
}
static void bottom(void *arg) { // always the first handler: the end of an exit
    int me = (int)(intptr_t)arg; struct cos *x = &co[me]; vh_pend[me] = INT64_MAX;
    if (!x->exiting && x->cur >= 0) {
        struct rec *r = &recs[x->cur];
        if (r->kind != NEXIT) {
            if (!pend_possible(me)) VIOL("co %d was canceled in %s without a deliverable cancelation", me, names[r->kind]);
            if (!x->async) VIOL("co %d has inline cancelation but was exited in %s", me, names[r->kind]);
            vh_count("async_exit", 1);
        }
        r->asyncexit = true; r->ny = 0;
        if (r->kind == CANCEL) r->spent = true;
        r->ret = vh_log(me, RET, r->obj, r->kind, r->res = r->kind == CANCEL ? NECO_OK : NECO_CANCELED);
        x->cur = -1;
    }
    if (x->nh) VIOL("co %d exited with %d cleanup handlers not run", me, x->nh);
    x->exitev = vh_log(me, EXIT, 0, 1, 0); x->exited = true; x->alive = false; ndone++;
    for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == me) recs[i].cleared = recs[i].ret >= 0;
}
static void checkargs(int me, int argc, void *argv[], const char *when) {
    struct cos *x = &co[me];
    if (argc != x->argc) VIOL("coroutine %d started with %d arguments instead of %d (%s)", me, argc, x->argc, when);
    for (int i = 0; i < argc && i < x->argc; i++) if (argv[i] != x->args[i]) VIOL("argument %d of coroutine %d is wrong (%s)", i, me, when);
}
static void co_entry(int argc, void *argv[]) {
    int me = argc == 0 ? nextidx : (int)(intptr_t)argv[0];
    if (me < 0 || me >= ncreated) vh_fatal("coroutine started with a wrong argument");
    struct cos *x = &co[me];
    if (x->started) VIOL("coroutine %d started twice", me);
    x->id = neco_getid(); x->alive = x->started = true; x->cur = -1;
    checkargs(me, argc, argv, "entry");
    if (x->id <= 0) VIOL("coroutine id %lld", (long long)x->id);
    for (int i = 0; i < ncreated; i++) if (i != me && co[i].started && co[i].id == x->id) VIOL("coroutines %d and %d have the same id", i, me);
    if (x->id <= minid) VIOL("coroutine id %lld was used before", (long long)x->id);
    if (neco_starterid() != x->parent) VIOL("starterid is %lld instead of %lld", (long long)neco_starterid(), (long long)x->parent);
    if (neco_lastid() != 0) VIOL("lastid of a new coroutine is %lld", (long long)neco_lastid());
    int old = 0; neco_setcanceltype(x->async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, &old);
    if (old != NECO_CANCEL_ASYNC && old != NECO_CANCEL_INLINE) VIOL("initial cancel type %d", old);
    neco_setcancelstate(NECO_CANCEL_ENABLE, &old);
    if (old != NECO_CANCEL_ENABLE) VIOL("initial cancel state %d", old);
    neco_cleanup_push(bottom, (void*)(intptr_t)me);
    if (me == focus) { if (use_cancel && vh_chance(2, 3)) set_disabled(me, true); for (int i = vh_range(1, 4); i > 0 && !stop; i--) do_sleep(me); if (stampede == 2 && co[me].disabled && vh_chance(2, 3)) set_disabled(me, false); }
    else if (stampede && me < focus) { for (int i = 0; i < 60 && ncreated <= focus && !stop; i++) do_yield(me, 1); if (ncreated > focus) { if (stampede == 1) do_join(me); else if (use_cancel) do_cancel(me, focus); } }
    level(me, vh_chance(1, 10) ? vh_range(4, 40) : 3);
    neco_cleanup_pop(0);
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    checkargs(me, argc, argv, "exit");
    if (neco_starterid() != x->parent) VIOL("starterid changed");
    if (neco_lastid() != x->lastchild) VIOL("lastid is %lld instead of %lld", (long long)neco_lastid(), (long long)x->lastchild);
    x->exitev = vh_log(me, EXIT, 0, 0, 0); x->exited = true; x->alive = false; ndone++;
    for (int i = 0; i < nrec; i++) if (recs[i].kind == CANCEL && recs[i].obj == me) recs[i].cleared = recs[i].ret >= 0;
}
static void mainco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    co[0].id = neco_getid(); co[0].alive = co[0].started = true; co[0].cur = -1;
    if (neco_starterid() != 0) VIOL("starterid of the first coroutine is %lld", (long long)neco_starterid());
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0); co[0].disabled = true;
    int n = stampede ? vh_range(focus + 1, maxco - 1) : crowd ? vh_range(12, maxco - 1) : vh_range(2, 7);
    for (int i = 0; i < n; i++) do_start(0);
    int64_t tend = vh_time() + 3 * NECO_SECOND;
    while (vh_time() < tend) neco_sleep_dl(tend);
    do_yield(0, 10);
    qidx = vh_log(0, QUIESCE, 0, 0, 0);
    stop = true;
    for (int round = 0; ndone < ncreated - 1; round++) {
        if (round > 200) for (int i = 1; i < ncreated; i++) if (!co[i].exited)
            vh_fatal("coroutine %d is stuck in %s (%d)", i, co[i].cur >= 0 ? names[recs[co[i].cur].kind] : "nothing", co[i].cur >= 0 ? recs[co[i].cur].obj : -1);
        for (int i = 1; i < ncreated; i++) if (!co[i].exited && co[i].started) do_resume(0, i);
        neco_sleep(1 * MS);
    }
    co[0].exited = true;
}
static int first_time(int from, int64_t t) { for (int i = from; i < vh_nev; i++) if (vh_evs[i].t >= t) return i; return vh_nev; }
static void check(void) {
    for (int i = 0; i < nrec; i++) {
        struct rec *r = &recs[i];
        if (r->ret < 0) continue;
        r->cend = r->ret; if (r->precancel) r->cend = r->call;
        for (int k = 0; k < nrec; k++) if (recs[k].kind == CANCEL && recs[k].obj == r->co) {
            if (recs[k].call >= r->call && recs[k].call < r->cend) r->cend = recs[k].call;
            if (recs[k].call < r->call && recs[k].ret > r->call) r->cend = r->call;
        }
        if (r->dl < INT64_MAX) { int e = first_time(r->call, r->dl); if (e < r->cend) r->cend = e; }
        // Deadlines are honoured within a few scheduler rounds, and on time if nothing else delays them.
        if ((r->kind == SLEEP || r->kind == JOIN || r->kind == SUSPEND || r->kind == CANCEL) && r->dl < INT64_MAX) {
            int from = first_time(r->call, r->dl + 1000);
            for (int k = 0; k < nrec; k++) if (recs[k].kind == YIELD && recs[k].ny >= 4 && !recs[k].asyncexit && recs[k].call > from && recs[k].ret > 0 && recs[k].ret < r->ret)
                VIOL("co %d: %s still blocked %d scheduler rounds after its deadline", r->co, names[r->kind], recs[k].ny);
            if (!anybusy && vh_jitter == 0 && r->ret < vh_nev && vh_evs[r->ret].t > (r->dl > r->tcall ? r->dl : r->tcall) + 50 * US && !r->asyncexit && co[r->co].hmode == 0)
                VIOL("co %d: %s returned %lld ns after its deadline", r->co, names[r->kind], (long long)(vh_evs[r->ret].t - r->dl));
        }
        if (r->kind == SLEEP && r->res == NECO_OK) { // order of the wake-ups
            for (int k = 0; k < nrec; k++) {
                struct rec *b = &recs[k];
                if (b->kind == SLEEP && b->res == NECO_OK && b->ret > 0 && r->dl < b->dl - 10 && b->ret < r->ret && r->call < b->ret && !r->asyncexit && !b->asyncexit && r->cend >= 0) {
                    // a cancelation can disturb the order
                    bool disturbed = false;
                    for (int q = 0; q < nrec; q++) if (recs[q].kind == CANCEL && (recs[q].obj == r->co || recs[q].obj == b->co)) disturbed = true;
                    if (!disturbed && b->call < b->ret - 1) VIOL("sleeper co %d (until %lld) woke before co %d (until %lld)", b->co, (long long)b->dl, r->co, (long long)r->dl);
                }
            }
        }
        if (r->kind == SUSPEND && !r->asyncexit) {
            int n = 0, nb = -1;
            for (int k = 0; k < nrec; k++) if (recs[k].kind == RESUME && recs[k].obj == r->co && recs[k].call > r->call && recs[k].call < r->ret) {
                if (recs[k].res == NECO_OK) { n++; if (nb < 0) nb = recs[k].call; }
                if (recs[k].res == NECO_NOTSUSPENDED && recs[k].call < r->cend && n == 0) VIOL("resume at event %d returned NOTSUSPENDED for co %d suspended since event %d", recs[k].call, r->co, r->call);
            }
            if (r->res == NECO_OK && n != 1) VIOL("suspend of co %d returned OK after %d successful resumes", r->co, n);
            if (r->res != NECO_OK && n != 0) VIOL("suspend of co %d returned %d although a resume succeeded", r->co, r->res);
            if (n) {
                vh_count("suspends_resumed", 1);
                for (int k = 0; k < nrec; k++) if (recs[k].kind == YIELD && recs[k].ny >= 4 && !recs[k].asyncexit && recs[k].call > nb && recs[k].ret > 0 && recs[k].ret < r->ret)
                    VIOL("co %d did not run for %d scheduler rounds after it was resumed", r->co, recs[k].ny);
            }
        }
        if (r->kind == RESUME && r->res == NECO_OK) {
            bool ok = false;
            for (int k = 0; k < nrec; k++) if (recs[k].kind == SUSPEND && recs[k].co == r->obj && recs[k].call < r->call && (recs[k].ret < 0 || recs[k].ret > r->call)) ok = true;
            if (!ok) VIOL("resume at event %d succeeded for a coroutine that was not suspended", r->call);
        }
        if (r->kind == JOIN && r->obj != 999) {
            int ex = co[r->obj].exitev;
            if (ex > 0 && ex < r->ret && !r->asyncexit) {
                int from = ex > r->call ? ex : r->call;
                for (int k = 0; k < nrec; k++) if (recs[k].kind == YIELD && recs[k].ny >= 4 && !recs[k].asyncexit && recs[k].call > from && recs[k].ret > 0 && recs[k].ret < r->ret)
                    VIOL("co %d did not return from join for %d scheduler rounds", r->co, recs[k].ny);
                vh_count("joins_released", 1);
            }
        }
        // a canceler waits only while its target keeps cancelation disabled
        if (r->kind == CANCEL && r->begun_disabled && !r->deadtarget && !r->asyncexit && r->obj != r->co) {
            int ex = co[r->obj].exitev, from = ex > r->call && ex < r->ret ? ex : 0;
            if (r->enev > r->call && r->enev < r->ret && (!from || r->enev < from)) from = r->enev;
            if (from) {
                for (int k = 0; k < nrec; k++) if (recs[k].kind == YIELD && recs[k].ny >= 5 && !recs[k].asyncexit && recs[k].call > from && recs[k].ret > 0 && recs[k].ret < r->ret)
                    VIOL("co %d still waits to cancel co %d, %d scheduler rounds after it %s", r->co, r->obj, recs[k].ny, from == ex ? "ended" : "enabled cancelation");
                vh_count("cancelers_released", 1);
            }
        }
        // a cancelation of a blocked, enabled coroutine ends its operation with CANCELED
        if (r->kind == CANCEL && r->res == NECO_OK && !r->asyncexit && !r->begun_disabled && !r->deadtarget && r->obj != r->co) {
            for (int k = 0; k < nrec; k++) {
                struct rec *b = &recs[k];
                if (b->co != r->obj || b->ret < 0 || !(b->call < r->call && r->call < b->ret)) continue;
                if (b->kind == SLEEP && b->res == NECO_OK && vh_evs[r->call].t < b->dl - 1000 && vh_jitter == 0) VIOL("co %d: canceled at event %d while asleep, but the sleep returned OK", b->co, r->call);
                if (b->kind == SLEEP && b->res == NECO_CANCELED) vh_count("cancels_delivered", 1);
                if ((b->kind == SUSPEND || b->kind == JOIN || b->kind == SLEEP) && b->res == NECO_CANCELED && !b->asyncexit)
                    for (int q = 0; q < nrec; q++) if (recs[q].kind == YIELD && recs[q].ny >= 4 && !recs[q].asyncexit && recs[q].call > r->call && recs[q].ret > 0 && recs[q].ret < b->ret && !recs[b - recs].disabled)
                        VIOL("co %d did not run for %d scheduler rounds after it was canceled", b->co, recs[q].ny);
            }
        }
    }
    for (int i = 0; i < nexthandler; i++) if (hran[i] > 1) VIOL("handler %d ran %d times", i, hran[i]);
    for (int i = 1; i < ncreated; i++) if (co[i].started && !co[i].exited) VIOL("the runtime ended although coroutine %d has not finished", i);
}
static uint64_t tracehash(void) {
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < vh_nev; i++) { struct vh_ev *e = &vh_evs[i]; h = (h ^ (uint64_t)(e->t * 31 + e->co * 7919 + e->op * 104729 + e->obj * 13 + e->a * 17 + e->r)) * 0x100000001b3ULL; h ^= h >> 31; }
    return h;
}
static void setw(int s, int j, int sl, int y, int su, int re, int ca, int cs, int ct, int bu, int ne) { int w[] = {s,j,sl,y,su,re,ca,cs,ct,bu,ne}; memcpy(wt, w, sizeof w); }
static void run1(void) {
    nrec = 0; ndone = 0; stop = false; qidx = 0; ncreated = 1; nco = 1; nexthandler = 0; anybusy = false; nextidx = -1;
    memset(co, 0, sizeof co); maxco = vh_range(4, MAXCO);
    const char *m = vh_mode;
    use_dl = vh_chance(2, 3); use_cancel = vh_chance(1, 2);
    if (vh_chance(1, 3)) { vh_jitter = vh_range(3, 40); vh_jitter_max = vh_chance(1, 4) ? 150 * MS : vh_range(1, 800) * US; }
    if (!strcmp(m, "life")) setw(16,22,10,12,4,6,4,2,1,4,3);
    else if (!strcmp(m, "sleep")) setw(5,5,40,12,3,3,3,2,1,vh_chance(1,2) ? 0 : 6,1);
    else if (!strcmp(m, "suspend")) setw(5,4,6,12,26,30,5,2,1,4,1);
    else if (!strcmp(m, "cancel")) { setw(8,8,14,12,10,6,24,9,4,3,2); use_cancel = true; }
    else if (!strcmp(m, "cleanup")) { setw(14,6,8,10,4,4,14,4,4,2,8); use_cancel = true; }
    else setw(10,10,12,12,8,8,8,4,2,4,2);
    crowd = maxco > 16 && vh_chance(1, 20); if (crowd) vh_count("big_cases", 1);
    vh_swarm(wt, 11, 1, crowd ? 2 : 5); focus = vh_chance(1, crowd ? 2 : 6) ? crowd ? vh_range(1, 12) : vh_range(1, 5) : -1;
    stampede = crowd && focus >= 0 && vh_chance(1, 2) ? vh_range(1, 2) : 0; if (stampede) { focus = vh_range(4, maxco - 2); vh_count("stampedes", 1); }
    co[0].cur = -1;
    long live0 = vh_track_live();
    int ret = vh_start(VH_NZ_EV|VH_NZ_SIG, mainco, 0);
    if (ret != NECO_OK) vh_fatal("neco_start %d", ret);
    if (ndone != ncreated - 1) VIOL("neco_start returned with %d of %d coroutines finished", ndone, ncreated - 1);
    if (vh_track_live() != live0) VIOL("%ld blocks leaked by the case", vh_track_live() - live0);
    if (neco_getid() != NECO_PERM) VIOL("getid outside of a coroutine");
    for (int i = 0; i < ncreated; i++) if (co[i].id > minid) minid = co[i].id;
    check();
}
uint64_t vh_rng_get(void); void vh_rng_set(uint64_t);
static void one(uint64_t seed) {
    vh_opnames(names, NOPS);
    if (!strcmp(vh_mode, "det")) {
        uint64_t r0 = vh_rng_get(); int64_t t0 = vh_now;
        run1(); uint64_t h1 = tracehash(); int n1 = vh_nev;
        vh_rng_set(r0); vh_now = t0; vh_nev = 0; vh_jitter = 0;
        run1(); uint64_t h2 = tracehash();
        if (h1 != h2 || n1 != vh_nev) VIOL("the same program under the same clock ran differently (%d and %d events)", n1, vh_nev);
        (void)seed;
    } else run1();
    if (nrec < 5) vh_trivial();
    vh_count("coroutines", ncreated);
}
int main(int argc, char **argv) { vh_track_install(); return vh_run(argc, argv, one); }
