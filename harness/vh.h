// Common runtime for the neco monitors: seeded cases, virtual time, event log,
// violation reporting, coverage accounting, hang watchdog, tracking allocator.
#ifndef VH_H
#define VH_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include "neco.h"

#define MS NECO_MILLISECOND
#define US NECO_MICROSECOND

// ---- private-but-exported functions of neco.c used by some monitors
int neco_mutex_destroy(neco_mutex *mutex);
int neco_waitgroup_destroy(neco_waitgroup *wg);
int neco_cond_destroy(neco_cond *cond);
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t size);
int neco_stream_release(neco_stream *stream);

// ---- random
uint64_t vh_rng_get(void);
void vh_rng_set(uint64_t v);
uint64_t vh_rand(void);                 // per-case generator
uint32_t vh_rn(uint32_t n);             // [0,n)
static inline int vh_range(int lo, int hi) { return lo + (int)vh_rn((uint32_t)(hi-lo+1)); }
static inline bool vh_chance(int num, int den) { return (int)vh_rn((uint32_t)den) < num; }

// ---- virtual time
extern bool vh_virtual;                 // virtual clock on/off
extern int64_t vh_now;                  // virtual now
extern int vh_jitter;                   // 1/vh_jitter clock reads jump (0 off)
extern int64_t vh_jitter_max;           // maximum jump
int64_t vh_time(void);                  // peek, without advancing (virtual), or real
int64_t vh_realtime(void);
// The deadline of the operation that coroutine k is in (INT64_MAX: none): the
// runtime must not sleep while one has passed, or past one.
#define VH_NPEND 128
extern int64_t vh_pend[VH_NPEND];

// ---- events
struct vh_ev { int64_t t; int32_t co; int16_t op; int16_t obj; int64_t a; int64_t r; };
extern int vh_nev;                      // events of the current case
extern struct vh_ev *vh_evs;
int vh_log(int co, int op, int obj, int64_t a, int64_t r); // returns index
void vh_opnames(const char *const *names, int n);
void vh_hash(uint64_t v);               // add to the trace hash of the case
void vh_trivial(void);                  // mark the case as trivial
void vh_count(const char *name, long n);// named coverage counter

// ---- verdicts
extern int vh_nviol;
extern uint64_t vh_seed;                // seed of the current case
extern const char *vh_mode;
extern int vh_hooks_fired;
#define VIOL(...) vh_viol(__func__, __LINE__, __VA_ARGS__)
void vh_viol(const char *fn, int line, const char *fmt, ...) __attribute__((format(printf,3,4)));
void vh_fatal(const char *fmt, ...) __attribute__((noreturn,format(printf,1,2))); // violation that ends the process
void vh_error(const char *fmt, ...) __attribute__((noreturn,format(printf,1,2))); // harness error, not a verdict
bool vh_optb(const char *name);         // --name given?
long vh_opti(const char *name, long def);
void vh_pet(void);                      // reset the hang watchdog
void vh_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));

// ---- tracking allocator (installed when --track or by the harness)
void vh_track_install(void);
long vh_track_live(void);               // live blocks
long vh_track_total(void);
void vh_track_reset(void);
extern bool (*vh_mmap_fail)(void);      // should this mapping fail?
long vh_mapped(void);                   // bytes of live mappings
extern long vh_fail_at;                 // fail the n-th allocation from now (1=next), 0=off
extern bool vh_fail_sticky;             // and all following
extern long vh_alloc_seen;

int vh_run(int argc, char **argv, void (*one)(uint64_t seed));
int vh_high(int fd);                     // in some cases, the same descriptor with a high number
int vh_pipe(int fds[2]);                 // non-blocking pipe
int vh_spair(int fds[2]);                // non-blocking stream socket pair
int vh_nfds(void);                        // number of open descriptors
void vh_fd0(int kind);                    // closes descriptor 0 if this case is to do so here
int vh_nthreads(void);                  // number of threads of the process

// sanitizer presence
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
// ---- background noise: in some cases, coroutines that are parked in every kind
// of wait from the beginning of the case to its end, and that nothing may wake
#define VH_NZ_EV 1   // descriptor waits too (the clock then runs in milliseconds)
#define VH_NZ_SIG 2  // signal waits too
int vh_start(int flags, void (*fn)(int, void*[]), void *arg); // runs fn as the main coroutine of a runtime
void vh_swarm(int *w, int n, int num, int den); // now and then skew the weights of the operations
#endif
