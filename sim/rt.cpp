// Deterministic simulation runtime.
//
// The library under test, jsoncpp and the scenarios are compiled with -fsanitize=thread but linked against this
// file instead of the sanitizer: every memory access, atomic operation, lock, thread operation, allocation, clock
// read, random draw and file operation of theirs arrives here. Threads are real threads, but exactly one runs at a
// time, and which one is decided here from one seed. This file is compiled without instrumentation and uses no
// C++ library templates, so that it shares no inline function with the code under test.
#include "rt.h"
#include <thread>
#include <typeinfo>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

const char *const sim_fault_names[] = {
    "weak_cas_spurious_failure", "thread_creation_failure", "allocation_failure", "thread_stall", "preemption",
    "open_failure", "disk_full", "write_error", "short_write", "interrupted_call", "read_error", "short_read", "close_failure", "interrupted_read",
    "torn_write", "lost_sector", "bit_flip", "document_edit", "crash", "restart",
    "frame_lost", "frame_duplicated", "frame_reordered", "frame_delayed", "frame_nonfinite", "frame_extreme",
    "bad_training_data", "random_source", "cancel", "destroy_in_training" };

enum { MAXT = 120 };
#define ARENA 0x100000000000ULL
#define ARENA_SIZE (192ULL << 20)
#define SHADOW_W 0x110000000000ULL
#define SHADOW_R 0x120000000000ULL
#define SHADOW_WP 0x130000000000ULL
#define SHADOW_RP 0x140000000000ULL
#define FREED 0xFFFFFFFFu
extern "C" char __data_start, _end, __executable_start;

enum State { S_NONE, S_RUN, S_JOIN, S_MUTEX, S_COND, S_SLEEP, S_FUTEX, S_DONE };
struct Thread {
    int id; volatile int baton; State st; void *wait_on; u64 wake; int timed_out;
    void *(*fn)(void *); void *arg; void *ret; pthread_t real; bool detached, joined;
    u32 vc[MAXT]; u32 relf[MAXT]; bool has_relf; u32 acqp[MAXT]; bool has_acqp;
    u64 points, nowrite, prio; u64 stalled_until; u32 dec_pos;
    u64 n_cas, n_alloc, n_create;
    int quiet, worker, initing; int depth; u64 stack[256];
};
static Thread T[MAXT]; static int NT; static Thread *cur;
static __thread Thread *self __attribute__((tls_model("initial-exec")));
static volatile int g_active;
static sim_config C; static sim_result *R; static sim_result dummyR;
static u64 rng_sched, rng_fault, rng_user, steps, now_ns, last_write_step;
static u32 strategy, p_plain, p_sync; static u64 next_preempt;
static u64 pct_change[16]; static int npct, pct_i; static u64 pct_low;
static u64 stall_at[3]; static int nstall, stall_i;
static u32 fillbyte; static int alloc_faults_on; static size_t alloc_cap = 48u << 20;
static u64 watch_lo, watch_hi, watch_n;
static u64 NDATA; // bytes of static data with shadow
static u8 *exe_lo, *exe_hi; // writable static data of the executable

static inline u64 rnd(u64 *s) { // splitmix64
    u64 z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31);
}
static inline u32 rndn(u64 *s, u32 n) { return (u32)((rnd(s) >> 16) % n); }
static inline void hash_u64(u64 *h, u64 v) { *h = (*h ^ v) * 0x100000001B3ULL; *h ^= *h >> 29; }

static void die() __attribute__((noreturn));
static void die() { g_active = 0; syscall(SYS_exit_group, 0); for (;;) {} }

static void copy_stack(int slot, Thread *t, u64 pc) {
    int n = 0; if (pc) R->pcs[slot][n++] = pc;
    if (t) for (int i = (t->depth > 256 ? 256 : t->depth) - 1; i >= 0 && n < 24; i--) R->pcs[slot][n++] = t->stack[i];
    R->npcs[slot] = n;
}
static void finish_stats() {
    R->steps = R->base_steps + steps; R->sim_ns = R->base_ns + now_ns; R->threads += NT;
    u64 h = 1469598103934665603ULL;
    for (u32 i = 0; i < R->loglen; i++) h = (h ^ (u8)R->log[i]) * 0x100000001B3ULL;
    hash_u64(&h, R->steps); hash_u64(&h, R->schedhash); hash_u64(&h, R->ndec); R->hash = h;
}
static void verdict(int v, const char *cls, const char *fmt, va_list ap, u64 pc) __attribute__((noreturn));
static void verdict(int v, const char *cls, const char *fmt, va_list ap, u64 pc) {
    g_active = 0;
    R->verdict = v; snprintf(R->cls, sizeof R->cls, "%s", cls); vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    copy_stack(0, self, pc);
    finish_stats(); die();
}
static void failpc(u64 pc, const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
static void failpc(u64 pc, const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); verdict(1, cls, fmt, ap, pc); }
extern "C" void sim_fail(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); verdict(1, cls, fmt, ap, 0); }
extern "C" void sim_error(const char *fmt, ...) { va_list ap; va_start(ap, fmt); verdict(2, "error", fmt, ap, 0); }
#define RET ((u64)__builtin_return_address(0))
#define LIVE() (g_active && self && !self->quiet)

extern "C" void sim_count(int k) { R->counts[k]++; }
extern "C" uint64_t sim_count_of(int k) { return R->counts[k]; }
extern "C" void sim_probe(const char *name) {
    for (u32 i = 0; i < R->nprobe; i++) if (!strncmp(R->probe[i].name, name, 39)) { R->probe[i].n++; return; }
    if (R->nprobe < 64) { snprintf(R->probe[R->nprobe].name, 40, "%s", name); R->probe[R->nprobe++].n = 1; }
}
static u64 progress_at; // when something was last reported
extern "C" void sim_log(const char *fmt, ...) {
    progress_at = steps;
    va_list ap; va_start(ap, fmt);
    if (R->loglen + 512 < SIM_LOGSZ) {
        int n = vsnprintf(R->log + R->loglen, 510, fmt, ap); if (n > 509) n = 509;
        R->loglen += n; R->log[R->loglen++] = '\n';
    } else { // keep hashing
        char b[512]; int n = vsnprintf(b, 510, fmt, ap); if (n > 509) n = 509;
        for (int i = 0; i < n; i++) hash_u64(&R->schedhash, (u8)b[i]);
    }
    va_end(ap);
}
extern "C" void sim_log_hash(const void *p, size_t n) { for (size_t i = 0; i < n; i++) hash_u64(&R->schedhash, ((const u8 *)p)[i]); }

// ------------------------------------------------------------------ scheduling
static void futex_wait(volatile int *w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(volatile int *w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void hand_over(Thread *t) {
    Thread *me = self; if (t == me) return;
    R->switches++; hash_u64(&R->schedhash, (u64)t->id << 32 ^ steps);
    cur = t;
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE); futex_wake(&t->baton);
    while (!__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE)) futex_wait(&me->baton, 0);
    __atomic_store_n(&me->baton, 0, __ATOMIC_RELAXED);
}
static void record(Thread *me, u64 point, Thread *to) {
    if (R->ndec < SIM_MAXDEC) { R->dec[R->ndec].tid = me->id + 100 * R->stage; R->dec[R->ndec].point = point; R->dec[R->ndec].target = to->id; R->ndec++; }
}
static bool can_preempt() { return R->ndec < SIM_MAXDEC - 5000; }
// runnable threads other than skip
static int runnable(Thread **out, Thread *skip) {
    int n = 0;
    for (int i = 0; i < NT; i++) if (&T[i] != skip && T[i].st == S_RUN) out[n++] = &T[i];
    return n;
}
static Thread *next_cyclic(Thread *me) {
    for (int k = 1; k <= NT; k++) { Thread *t = &T[(me->id + k) % NT]; if (t != me && t->st == S_RUN) return t; }
    return 0;
}
static const sim_decision *replay_decision(Thread *me) {
    // the list is sorted by (tid, point)
    while (me->dec_pos < C.ndec && C.dec[me->dec_pos].tid == (u32)me->id + 100 * R->stage && C.dec[me->dec_pos].point < me->points) me->dec_pos++;
    if (me->dec_pos < C.ndec && C.dec[me->dec_pos].tid == (u32)me->id + 100 * R->stage && C.dec[me->dec_pos].point == me->points) return &C.dec[me->dec_pos++];
    return 0;
}
static Thread *choose(Thread *me, Thread **r, int n) {
    // pick among runnable threads r (n >= 1)
    Thread *g[MAXT]; g[0] = r[0]; int m = 0;
    for (int i = 0; i < n; i++) if (r[i]->stalled_until <= steps) g[m++] = r[i];
    if (!m) { for (int i = 0; i < n; i++) g[i] = r[i]; m = n; }
    if (strategy == 2) { Thread *b = g[0]; for (int i = 1; i < m; i++) if (g[i]->prio > b->prio) b = g[i]; return b; }
    if (strategy == 4) { for (int i = 0; i < m; i++) if (g[i]->id == 0) return g[i]; }
    if (strategy == 5) { Thread *b = 0; for (int i = 0; i < m; i++) if (g[i]->id != 0 && (!b || rndn(&rng_sched, 2))) b = g[i]; if (b) return b; }
    if (strategy == 6) { for (int k = 1; k <= NT; k++) { Thread *t = &T[(me->id + k) % NT]; for (int i = 0; i < m; i++) if (g[i] == t) return t; } }
    return g[rndn(&rng_sched, m)];
}
static u64 next_wake = ~0ULL;
static void wake_sleepers() {
    next_wake = ~0ULL;
    for (int i = 0; i < NT; i++)
        if ((T[i].st == S_SLEEP || ((T[i].st == S_COND || T[i].st == S_MUTEX || T[i].st == S_FUTEX) && T[i].wake)) && T[i].wake <= now_ns) {
            T[i].st = S_RUN; T[i].timed_out = 1; T[i].wake = 0;
        } else if (T[i].wake && T[i].st != S_RUN && T[i].st != S_DONE && T[i].wake < next_wake) next_wake = T[i].wake;
}
static void describe_threads(char *b, size_t n) {
    static const char *const s[] = { "-", "runnable", "joining", "waiting for a lock", "waiting for a condition", "sleeping", "waiting", "finished" };
    int o = 0; b[0] = 0;
    for (int i = 0; i < NT && o < (int)n - 40; i++) o += snprintf(b + o, n - o, "%st%d %s", i ? ", " : "", i, s[T[i].st]);
}
// The running thread gives up the processor; it is either not runnable any more or spinning / yielding.
static void reschedule(bool voluntary) {
    Thread *me = self; Thread *r[MAXT]; int n;
    for (;;) {
        n = runnable(r, voluntary ? me : 0);
        if (n) break;
        if (voluntary && me->st == S_RUN) { // nobody else: maybe a sleeper's time comes
            u64 t = ~0ULL; for (int i = 0; i < NT; i++) if (T[i].wake && T[i].st != S_RUN && T[i].st != S_DONE && T[i].wake < t) t = T[i].wake;
            if (t == ~0ULL) return;
            if (t > now_ns) now_ns = t; wake_sleepers(); continue;
        }
        u64 t = ~0ULL; for (int i = 0; i < NT; i++) if (T[i].wake && T[i].st != S_RUN && T[i].st != S_DONE && T[i].wake < t) t = T[i].wake;
        if (t == ~0ULL) { char b[600]; describe_threads(b, sizeof b); failpc(0, "deadlock", "deadlock: no thread can run (%s)", b); }
        if (now_ns > 24ull * 3600 * 1000000000) failpc(0, "hang", "no progress within 24 simulated hours");
        if (t > now_ns) now_ns = t; wake_sleepers();
    }
    me->points++;
    Thread *def = next_cyclic(me); if (!def) def = r[0];
    if (me->st == S_RUN && !voluntary) def = me;
    Thread *to = def;
    if (C.replay) {
        const sim_decision *d = replay_decision(me);
        if (d && d->target < (u32)NT && T[d->target].st == S_RUN) { to = &T[d->target]; if (to != def) record(me, me->points, to); }
    } else {
        if (strategy == 2 && voluntary) me->prio = --pct_low;
        to = choose(me, r, n);
        if (to != def) record(me, me->points, to);
    }
    hand_over(to);
}
static void draw_next_preempt() {
    next_preempt = p_plain ? steps + 1 + rndn(&rng_sched, 2 * p_plain) : ~0ULL;
}
enum Kind { K_PLAIN, K_SYNC, K_RACY };
static void switch_here(Thread *me) { // involuntary
    Thread *r[MAXT]; int n = runnable(r, me); if (!n) return;
    Thread *to;
    if (strategy == 2) { to = choose(me, r, n); if (to->prio < me->prio) return; }
    else to = choose(me, r, n);
    record(me, me->points, to); R->counts[F_PREEMPT]++;
    hand_over(to);
}
static inline void point(Kind k, bool write) {
    Thread *me = self;
    me->points++; steps++; now_ns += 2; if (__builtin_expect(now_ns >= next_wake, 0)) wake_sleepers();
    if (write) { me->nowrite = 0; last_write_step = steps; } else me->nowrite++;
    if (__builtin_expect(steps - progress_at > C.step_cap || steps > 20 * C.step_cap, 0)) { char b[600]; describe_threads(b, sizeof b); failpc(0, "hang", "still running after %llu steps (%s)", (unsigned long long)steps, b); }
    if (NT == 1) { if (__builtin_expect(steps - last_write_step > 8000000, 0)) failpc(0, "hang", "livelock: no thread has written anything for 8000000 steps"); return; }
    if (__builtin_expect(me->nowrite >= 160, 0)) { // spinning, or a long read-only computation
        if (steps - last_write_step > 4000000) { char b[600]; describe_threads(b, sizeof b); failpc(0, "hang", "livelock: no thread has written anything for 4000000 steps (%s)", b); }
        me->nowrite = 0; reschedule(true); return;
    }
    if (C.replay) {
        const sim_decision *d = replay_decision(me);
        if (d && d->target < (u32)NT && T[d->target].st == S_RUN && &T[d->target] != me) {
            record(me, me->points, &T[d->target]); R->counts[F_PREEMPT]++; hand_over(&T[d->target]);
        }
        return;
    }
    if (!can_preempt()) return;
    if (stall_i < nstall && steps >= stall_at[stall_i]) {
        stall_i++; Thread *r[MAXT]; int n = runnable(r, 0);
        if (n > 1) { Thread *v = r[rndn(&rng_sched, n)]; v->stalled_until = steps + 2000 + rndn(&rng_sched, 400000); R->counts[F_STALL]++;
            if (v == me) { switch_here(me); return; } }
    }
    switch (strategy) {
        case 2:
            if (pct_i < npct && steps >= pct_change[pct_i]) { pct_i++; me->prio = --pct_low; switch_here(me); return; }
            if (k != K_PLAIN) { Thread *r[MAXT]; int n = runnable(r, me); for (int i = 0; i < n; i++) if (r[i]->prio > me->prio && r[i]->stalled_until <= steps) { switch_here(me); return; } }
            return;
        case 4: // caller first: workers run only while the caller waits; the caller regains control at its first chance
            if (me->id != 0 && T[0].st == S_RUN && T[0].stalled_until <= steps && k != K_PLAIN) { record(me, me->points, &T[0]); hand_over(&T[0]); }
            return;
        case 5: // workers first: the caller runs only when every worker waits
            if (me->id == 0 && k != K_PLAIN) switch_here(me);
            return;
        case 6:
            if (steps >= next_preempt) { draw_next_preempt(); switch_here(me); }
            return;
        default:
            if (k != K_PLAIN && p_sync && rndn(&rng_sched, p_sync) == 0) { switch_here(me); return; }
            if (steps >= next_preempt) { draw_next_preempt(); switch_here(me); }
    }
}
extern "C" void sim_event(void) { if (LIVE()) point(K_SYNC, true); }
extern "C" void sim_yield(void) { if (LIVE()) { point(K_SYNC, false); if (NT > 1) reschedule(true); } }
static void block(State st, void *on) { if (self->wake && self->wake < next_wake) next_wake = self->wake; self->st = st; self->wait_on = on; reschedule(false); }
static void wake_all(State st, void *on) { for (int i = 0; i < NT; i++) if (T[i].st == st && T[i].wait_on == on) { T[i].st = S_RUN; T[i].wake = 0; } }

// ------------------------------------------------------------------ happens-before and memory shadow
static u32 *const SW = (u32 *)SHADOW_W, *const SR = (u32 *)SHADOW_R, *const SWP = (u32 *)SHADOW_WP, *const SRP = (u32 *)SHADOW_RP;
static inline void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static inline void vc_copy(u32 *a, const u32 *b) { for (int i = 0; i < NT; i++) a[i] = b[i]; }
static inline u32 epoch(Thread *t) { return (u32)t->id << 24 | t->vc[t->id]; }
static void tick(Thread *t) { if (++t->vc[t->id] >= 0xFFFFF0) { va_list ap; (void)ap; failpc(0, "hang", "too many synchronisation operations"); } }

struct RVC { u32 v[MAXT]; };
enum { NRVC = 1 << 16 };
static RVC *rvc; static u32 nrvc;

static inline long sidx(u64 a) {
    if (a - ARENA < ARENA_SIZE) return (long)(a - ARENA);
    if (a - (u64)exe_lo < NDATA) return (long)(ARENA_SIZE + (a - (u64)exe_lo));
    return -1;
}
struct Hdr { u64 magic; u64 size; u64 serial; u32 kind; unsigned short freed, lasting; };
enum { MAGIC = 0x51AD5EED };
static u64 last_block_info(u64 a, char *b, size_t n) {
    // find the block around a by walking back to a header
    for (u64 p = (a & ~15ULL); p >= ARENA && a - p < (1u << 20); p -= 16) {
        Hdr *h = (Hdr *)p; if (h->magic == MAGIC) {
            long off = (long)(a - (p + sizeof(Hdr)));
            snprintf(b, n, "offset %ld of a block of %llu bytes", off, (unsigned long long)h->size); return p; }
    }
    snprintf(b, n, "no block"); return 0;
}
static void mem_bad(u64 a, u32 n, bool write, u64 pc, bool freed) __attribute__((noreturn));
static void mem_bad(u64 a, u32 n, bool write, u64 pc, bool freed) {
    char b[128]; last_block_info(a, b, sizeof b);
    failpc(pc, freed ? "use-after-free" : "out-of-bounds", "%s of %u bytes %s (%s) by thread t%d", write ? "write" : "read", n,
           freed ? "in freed memory" : "outside any allocated block", b, self->id);
}
static void race(u64 a, u32 n, bool write, u64 pc, u32 other, bool other_write, u32 opc) __attribute__((noreturn));
static void race(u64 a, u32 n, bool write, u64 pc, u32 other, bool other_write, u32 opc) {
    R->pcs[1][0] = (u64)opc; R->npcs[1] = opc ? 1 : 0;
    char b[128] = "static data"; if (a - ARENA < ARENA_SIZE) last_block_info(a, b, sizeof b);
    failpc(pc, "data-race", "%s of %u bytes by t%d is not ordered with an earlier %s by t%u (%s)", write ? "write" : "read", n, self->id,
           other_write ? "write" : "read", other >> 24, b);
}
static inline bool ordered(Thread *t, u32 e) { return (e & 0xFFFFFF) <= t->vc[e >> 24]; }

static inline __attribute__((always_inline)) void access(u64 a, u32 n, bool write, u64 pc) {
    long i = sidx(a); Thread *me = self;
    Kind k = K_PLAIN;
    if (i >= 0) {
        bool arena = i < (long)ARENA_SIZE;
        if (!C.threads || NT == 1) {
            if (arena) {
                u32 w = SW[i], w2 = SW[i + n - 1];
                if (__builtin_expect(w == 0 || w == FREED, 0)) mem_bad(a, n, write, pc, w == FREED);
                if (__builtin_expect(w2 == 0 || w2 == FREED, 0)) mem_bad(a, n, write, pc, w2 == FREED);
            }
            if (C.threads) { // still the only thread, but others may come: remember the access
                u32 e = epoch(me);
                for (u32 b = 0; b < n; b++) { if (write) { SW[i + b] = e; SR[i + b] = 0; SWP[i + b] = (u32)pc; } else if (SW[i + b] != e) { SR[i + b] = e; SRP[i + b] = (u32)pc; } }
            }
        } else {
            if (__builtin_expect(a < watch_hi && a + n > watch_lo, 0) && me->id != 0) watch_n++;
            u32 e = epoch(me);
            for (u32 b = 0; b < n; b++) {
                u32 w = SW[i + b];
                if (w != e) {
                    if (arena && __builtin_expect(w == 0 || w == FREED, 0)) mem_bad(a + b, n, write, pc, w == FREED);
                    if (w && (int)(w >> 24) != me->id && !ordered(me, w)) { k = K_RACY; if (C.races) race(a + b, n, write, pc, w, true, SWP[i + b]); }
                }
                u32 r = SR[i + b];
                if (write) {
                    if (r && r != e) {
                        if ((r >> 24) == 0xFE) {
                            u32 *v = rvc[r & 0xFFFFFF].v;
                            for (int t = 0; t < NT; t++) if (t != me->id && v[t] > me->vc[t]) { k = K_RACY; if (C.races) race(a + b, n, write, pc, (u32)t << 24, false, SRP[i + b]); }
                        } else if ((int)(r >> 24) != me->id && !ordered(me, r)) { k = K_RACY; if (C.races) race(a + b, n, write, pc, r, false, SRP[i + b]); }
                    }
                    SW[i + b] = e; SR[i + b] = 0; SWP[i + b] = (u32)pc;
                } else if (r != e) {
                    if (r == 0 || ((r >> 24) != 0xFE && ((int)(r >> 24) == me->id || ordered(me, r)))) { SR[i + b] = e; SRP[i + b] = (u32)pc; }
                    else if ((r >> 24) == 0xFE) rvc[r & 0xFFFFFF].v[me->id] = e & 0xFFFFFF;
                    else if (nrvc < NRVC) {
                        u32 x = nrvc++; for (int t = 0; t < MAXT; t++) rvc[x].v[t] = 0;
                        rvc[x].v[r >> 24] = r & 0xFFFFFF; rvc[x].v[me->id] = e & 0xFFFFFF; SR[i + b] = 0xFE000000u | x; SRP[i + b] = (u32)pc;
                    } else SR[i + b] = e;
                }
            }
        }
    } else if (a < 4096) failpc(pc, "null-access", "%s of %u bytes at address %llu by thread t%d", write ? "write" : "read", n, (unsigned long long)a, me->id);
    point(k, write);
}
static void access_range(u64 a, u64 n, bool write, u64 pc) {
    if (!n) return;
    while (n > 64) { access(a, 64, write, pc); a += 64; n -= 64; if (!LIVE()) return; }
    access(a, (u32)n, write, pc);
}

// synchronisation objects by address
struct Sync { u64 addr; u32 vc[MAXT]; int owner; int count; int rd; };
enum { NSYNC = 1 << 15 };
static Sync *syncs;
static Sync *sync_of(const volatile void *p) {
    u64 a = (u64)p; u32 h = (u32)((a >> 0) * 0x9E3779B97F4A7C15ULL >> 40) & (NSYNC - 1);
    for (int k = 0; k < NSYNC; k++, h = (h + 1) & (NSYNC - 1)) {
        if (syncs[h].addr == a) return &syncs[h];
        if (!syncs[h].addr) { syncs[h].addr = a; syncs[h].owner = -1; return &syncs[h]; }
    }
    sim_error("too many synchronisation objects");
}
static inline void acquire(Sync *s) { vc_join(self->vc, s->vc); }
static inline void release_set(Sync *s) { vc_copy(s->vc, self->vc); tick(self); }
static inline void release_join(Sync *s) { vc_join(s->vc, self->vc); tick(self); }

static void at_state(u64 a, u32 n, bool write, u64 pc) { // memory state and plain accesses that race with this atomic one
    long i = sidx(a); if (i < 0) { if (a < 4096) failpc(pc, "null-access", "atomic access at address %llu", (unsigned long long)a); return; }
    if (a < watch_hi && a + n > watch_lo && self->id != 0) watch_n++;
    for (u32 b = 0; b < n; b++) {
        u32 w = SW[i + b];
        if (i < (long)ARENA_SIZE && (w == 0 || w == FREED)) mem_bad(a, n, write, pc, w == FREED);
        if (C.threads && NT > 1 && w && (int)(w >> 24) != self->id && !ordered(self, w) && C.races) race(a + b, n, write, pc, w, true, SWP[i + b]);
        if (write && C.threads && NT > 1 && C.races) { u32 r = SR[i + b]; if (r && (r >> 24) != 0xFE && (int)(r >> 24) != self->id && !ordered(self, r)) race(a + b, n, write, pc, r, false, SRP[i + b]); }
    }
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load(const volatile void *p, int mo) {
    if (!C.threads) return;
    Sync *s = sync_of(p);
    if (is_acq(mo)) acquire(s); else { vc_join(self->acqp, s->vc); self->has_acqp = true; }
}
static void hb_store(const volatile void *p, int mo) {
    if (!C.threads) return;
    Sync *s = sync_of(p);
    if (is_rel(mo)) release_set(s); else if (self->has_relf) vc_copy(s->vc, self->relf); else for (int i = 0; i < NT; i++) s->vc[i] = 0;
}
static void hb_rmw(const volatile void *p, int mo) {
    if (!C.threads) return;
    Sync *s = sync_of(p);
    if (is_acq(mo)) acquire(s); else { vc_join(self->acqp, s->vc); self->has_acqp = true; }
    if (is_rel(mo)) release_join(s); else if (self->has_relf) vc_join(s->vc, self->relf);
}
static bool fault_hit(int kind, u64 n, u32 p, u64 *arg) {
    bool hit = false;
    if (C.replay) { for (u32 i = 0; i < C.nfault; i++) if (C.fault[i].kind == (u32)kind && C.fault[i].tid == (u32)self->id + 100 * R->stage && C.fault[i].n == n) { hit = true; if (arg) *arg = C.fault[i].arg; } }
    else hit = p && rndn(&rng_fault, p) == 0;
    if (hit) {
        R->counts[kind]++;
        if (R->nfault < SIM_MAXFAULT) { sim_fault *f = &R->fault[R->nfault++]; f->kind = kind; f->tid = self->id + 100 * R->stage; f->n = n; f->arg = arg ? *arg : 0; }
    }
    return hit;
}
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { Thread *t = self; if (g_active && t) { if (t->depth < 256 && t->depth >= 0) t->stack[t->depth] = (u64)pc; t->depth++; } }
void __tsan_func_exit(void) { Thread *t = self; if (g_active && t && t->depth > 0) t->depth--; }
#define RW(N) \
    void __tsan_read##N(void *a) { if (LIVE()) access((u64)a, N, false, RET); } \
    void __tsan_write##N(void *a) { if (LIVE()) access((u64)a, N, true, RET); } \
    void __tsan_unaligned_read##N(void *a) { if (LIVE()) access((u64)a, N, false, RET); } \
    void __tsan_unaligned_write##N(void *a) { if (LIVE()) access((u64)a, N, true, RET); } \
    void __tsan_volatile_read##N(void *a) { if (LIVE()) access((u64)a, N, false, RET); } \
    void __tsan_volatile_write##N(void *a) { if (LIVE()) access((u64)a, N, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (LIVE()) access_range((u64)a, n, false, RET); }
void __tsan_write_range(void *a, unsigned long n) { if (LIVE()) access_range((u64)a, n, true, RET); }
void __tsan_vptr_update(void **p, void *v) { if (LIVE()) access((u64)p, 8, *p != v, RET); }
void __tsan_vptr_read(void **p) { if (LIVE()) access((u64)p, 8, false, RET); }

#define ATOMIC(T, N) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { if (LIVE()) { point(K_SYNC, false); at_state((u64)p, sizeof(T), false, RET); hb_load(p, mo); } return *p; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_store(p, mo); } *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { if (LIVE()) { point(K_SYNC, true); at_state((u64)p, sizeof(T), true, RET); hb_rmw(p, mo); } T o = *p; *p = ~(o & v); return o; } \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int fmo) { \
        if (LIVE()) { bool w = *p == *e; point(K_SYNC, w); w = *p == *e; at_state((u64)p, sizeof(T), w, RET); if (w) hb_rmw(p, mo); else hb_load(p, fmo); } \
        if (*p == *e) { *p = d; return true; } *e = *p; return false; } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int fmo) { \
        if (LIVE()) { bool w = *p == *e; point(K_SYNC, w); w = *p == *e; at_state((u64)p, sizeof(T), w, RET); \
            if (w && fault_hit(F_CASWEAK, self->n_cas++, C.p_casweak, 0)) { hb_load(p, fmo); return false; } \
            if (w) hb_rmw(p, mo); else hb_load(p, fmo); } \
        if (*p == *e) { *p = d; return true; } *e = *p; return false; }
ATOMIC(u8, 8) ATOMIC(uint16_t, 16) ATOMIC(u32, 32) ATOMIC(u64, 64)
void __tsan_atomic_thread_fence(int mo) {
    if (!LIVE()) return; point(K_SYNC, false); if (!C.threads) return;
    if (is_acq(mo) && self->has_acqp) vc_join(self->vc, self->acqp);
    if (is_rel(mo)) { vc_copy(self->relf, self->vc); self->has_relf = true; tick(self); }
}
void __tsan_atomic_signal_fence(int) {}

// block operations, including those of the C++ library's strings and streams
static inline void raw_copy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void *memcpy(void *d, const void *s, size_t n) {
    if (g_active && n && LIVE()) { u64 pc = RET; access_range((u64)s, n, false, pc); access_range((u64)d, n, true, pc); }
    raw_copy(d, s, n); return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (g_active && n && LIVE()) { u64 pc = RET; access_range((u64)s, n, false, pc); access_range((u64)d, n, true, pc); }
    if ((u64)d - (u64)s >= n) raw_copy(d, s, n);
    else { u8 *dd = (u8 *)d + n - 1; const u8 *ss = (const u8 *)s + n - 1; asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory"); }
    return d;
}
void *memset(void *d, int c, size_t n) {
    if (g_active && n && LIVE()) access_range((u64)d, n, true, RET);
    void *p = d; asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); return d;
}
}

// ------------------------------------------------------------------ memory
static u64 arena_top, serial, live_blocks; static u8 *freelist[80]; static u64 quar_bytes; static u64 quar_head, quar_tail;
enum { NQ = 1 << 16 }; static u64 *quar;
static int cls_of(u64 total) { if (total <= 1024) return (int)(total / 16); int c = 64; u64 s = 1024; while (s < total) { s <<= 1; c++; } return c; }
static u64 cls_size(int c) { if (c <= 64) return 16ull * c; return 1024ull << (c - 64); }
static void *arena_alloc(size_t n, u32 kind, u64 pc, bool can_fail) {
    if (alloc_faults_on && can_fail) {
        if (n >= C.alloc_min && !(C.alloc_workers_only && !self->worker)) { u64 a = n; if (fault_hit(F_ALLOC, self->n_alloc++, C.p_alloc, &a)) return 0; }
    }
    if (n > alloc_cap) { R->counts[F_ALLOC]++; return 0; }
    u64 total = sizeof(Hdr) + ((n + 15) & ~15ULL) + 16; int c = cls_of(total); u64 sz = cls_size(c); u64 p;
    if (freelist[c]) { p = (u64)freelist[c]; freelist[c] = *(u8 **)(p + sizeof(Hdr)); }
    else {
        p = arena_top; if (p + sz > ARENA + ARENA_SIZE) sim_error("simulated heap exhausted");
        arena_top += sz;
    }
    Hdr *h = (Hdr *)p; h->magic = MAGIC; h->size = n; h->serial = serial++; h->kind = kind; h->freed = 0; h->lasting = self && self->initing;
    u64 a = p + sizeof(Hdr); long i = (long)(a - ARENA);
    for (u64 b = 0; b < n; b++) SW[i + b] = 1;
    if (C.threads) for (u64 b = 0; b < n; b++) SR[i + b] = 0;
    for (u64 b = n; b < ((n + 15) & ~15ULL) + 16; b++) SW[i + b] = 0;
    u8 *q = (u8 *)a; u32 f = fillbyte;
    if (f < 256) for (u64 b = 0; b < n; b++) q[b] = (u8)f;
    else { u64 x = h->serial * 0x9E3779B97F4A7C15ULL ^ C.seed; for (u64 b = 0; b < n; b++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; q[b] = (u8)(x >> 56); } }
    live_blocks++; (void)pc;
    return q;
}
static inline bool in_arena(void *p) { return (u64)p - ARENA < ARENA_SIZE; }
static void arena_free(void *p, u32 kind, u64 pc) {
    u64 a = (u64)p; Hdr *h = (Hdr *)(a - sizeof(Hdr)); long i = (long)(a - ARENA);
    static const char *const kn[] = { "new", "new[]", "malloc" };
    bool ok = (a & 15) == 0 && a >= ARENA + sizeof(Hdr) && h->magic == MAGIC;
    if (g_active && self) {
        if (!ok) failpc(pc, "bad-free", "free of an address that was not allocated");
        if (h->freed) failpc(pc, "double-free", "block of %llu bytes freed twice", (unsigned long long)h->size);
        if (h->kind != kind) failpc(pc, "bad-free", "block from %s freed as from %s", kn[h->kind], kn[kind]);
        if (C.threads && NT > 1 && !self->quiet) {
            for (u64 b = 0; b < h->size; b++) {
                u32 w = SW[i + b], r = SR[i + b];
                if (w && (int)(w >> 24) != self->id && !ordered(self, w) && C.races) race(a + b, 1, true, pc, w, true, SWP[i + b]);
                if (r && (r >> 24) != 0xFE && (int)(r >> 24) != self->id && !ordered(self, r) && C.races) race(a + b, 1, true, pc, r, false, SRP[i + b]);
                if ((r >> 24) == 0xFE && C.races) { u32 *v = rvc[r & 0xFFFFFF].v; for (int t = 0; t < NT; t++) if (t != self->id && v[t] > self->vc[t]) race(a + b, 1, true, pc, (u32)t << 24, false, SRP[i + b]); }
            }
        }
    } else if (!ok || h->freed) return;
    h->freed = 1; live_blocks--;
    for (u64 b = 0; b < h->size; b++) { SW[i + b] = FREED; SWP[i + b] = (u32)pc; ((u8 *)p)[b] = 0xDB; }
    // quarantine, then reuse
    quar[quar_tail & (NQ - 1)] = a; quar_tail++; quar_bytes += h->size + 64;
    while ((quar_bytes > C.quarantine || quar_tail - quar_head >= NQ) && quar_head < quar_tail) {
        u64 v = quar[quar_head & (NQ - 1)]; quar_head++; Hdr *vh = (Hdr *)(v - sizeof(Hdr)); quar_bytes -= vh->size + 64;
        u64 total = sizeof(Hdr) + ((vh->size + 15) & ~15ULL) + 16; int c = cls_of(total);
        *(u8 **)v = freelist[c]; freelist[c] = (u8 *)(v - sizeof(Hdr));
    }
}
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { if (LIVE()) { point(K_PLAIN, true); return arena_alloc(n, 2, RET, true); } return __real_malloc(n); }
void __wrap_free(void *p) { if (!p) return; if (in_arena(p)) { if (LIVE()) point(K_PLAIN, true); arena_free(p, 2, RET); } else __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (LIVE()) { void *p = arena_alloc(a * b, 2, RET, true); if (p) for (size_t i = 0; i < a * b; i++) ((u8 *)p)[i] = 0; return p; } return __real_calloc(a, b); }
void *__wrap_realloc(void *o, size_t n) {
    if (o && !in_arena(o)) return __real_realloc(o, n);
    if (!LIVE() && !o) return __real_realloc(o, n);
    void *p = arena_alloc(n, 2, RET, true); if (!p) return 0;
    if (o) { u64 s = ((Hdr *)((u64)o - sizeof(Hdr)))->size; raw_copy(p, o, s < n ? s : n); arena_free(o, 2, RET); }
    return p;
}
}
static void *op_new(size_t n, u32 kind, u64 pc, bool nothrow) {
    if (LIVE()) {
        point(K_PLAIN, true);
        void *p = arena_alloc(n, kind, pc, true);
        if (!p) { if (nothrow) return 0; throw std::bad_alloc(); }
        return p;
    }
    void *p = __real_malloc(n ? n : 1); if (!p) { if (nothrow) return 0; throw std::bad_alloc(); } return p;
}
static void op_del(void *p, u32 kind, u64 pc) {
    if (!p) return;
    if (in_arena(p)) { if (LIVE()) point(K_PLAIN, true); arena_free(p, kind, pc); } else __real_free(p);
}
void *operator new(size_t n) { return op_new(n, 0, RET, false); }
void *operator new[](size_t n) { return op_new(n, 1, RET, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 0, RET, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 1, RET, true); }
void operator delete(void *p) noexcept { op_del(p, 0, RET); }
void operator delete[](void *p) noexcept { op_del(p, 1, RET); }
void operator delete(void *p, size_t) noexcept { op_del(p, 0, RET); }
void operator delete[](void *p, size_t) noexcept { op_del(p, 1, RET); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p, 0, RET); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p, 1, RET); }

extern "C" uint64_t sim_live_blocks(void) { return live_blocks; }
extern "C" uint64_t sim_live_mark(void) { return serial; }
extern "C" uint64_t sim_live_since(uint64_t mark) {
    u64 n = 0; u64 p = ARENA;
    while (p < arena_top) {
        Hdr *h = (Hdr *)p; if (h->magic != MAGIC) break;
        if (!h->freed && h->serial >= mark && !h->lasting) n++; // statics initialised during the run stay
        u64 total = sizeof(Hdr) + ((h->size + 15) & ~15ULL) + 16; p += cls_size(cls_of(total));
    }
    return n;
}
extern "C" void sim_alloc_faults(int on) { alloc_faults_on = on; }
extern "C" void sim_alloc_cap(size_t b) { alloc_cap = b; }
extern "C" void sim_watch(const void *p, size_t n) { watch_lo = (u64)p; watch_hi = watch_lo + n; watch_n = 0; }
extern "C" uint64_t sim_watch_hits(void) { return watch_n; }
extern "C" void sim_unwatch(void) { watch_lo = watch_hi = 0; }
extern "C" void sim_quiet(int d) { if (self) self->quiet += d; }

// ------------------------------------------------------------------ threads, locks, conditions
static void thread_exit(Thread *me) {
    me->st = S_DONE; wake_all(S_JOIN, me);
    Thread *r[MAXT]; int n = runnable(r, me);
    if (!n) { // only sleepers, or a deadlock
        reschedule(false);
        for (;;) futex_wait(&me->baton, 0);
    }
    reschedule(false);
    for (;;) syscall(SYS_pause);
}
static void *trampoline(void *p) {
    Thread *me = (Thread *)p; self = me;
    while (!__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE)) futex_wait(&me->baton, 0);
    __atomic_store_n(&me->baton, 0, __ATOMIC_RELAXED);
    me->ret = me->fn(me->arg);
    tick(me);
    thread_exit(me);
    return 0;
}
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static Thread *by_pthread(pthread_t t) { for (int i = 0; i < NT; i++) if (T[i].real == t) return &T[i]; return 0; }
static void zero(void *p, size_t n) { for (u8 *c = (u8 *)p, *e = c + n; c < e; c++) *(volatile u8 *)c = 0; } // (memset is instrumented)
// Allocation failures are injected into the threads that train one class. The thread that finishes the training of a
// model also runs in the background, but what happens when memory runs out there is not part of any property.
struct AnyState { virtual ~AnyState(); };
static void *(*std_thread_fn)(void *);
static int trains_class(void *(*fn)(void *), void *arg) { return self->id == 0 && fn == std_thread_fn && !strstr(typeid(*(AnyState *)arg).name(), "5ModelI"); }
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!g_active) { std_thread_fn = fn; if (!real_pthread_create) *(void **)&real_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); return real_pthread_create(t, 0, fn, arg); }
    point(K_SYNC, true);
    if (fault_hit(F_THREAD, self->n_create++, C.p_thread, 0)) return EAGAIN;
    if (NT >= MAXT) { sim_probe("out-of-threads"); sim_end(); } // (the run ends here)
    Thread *n = &T[NT]; zero(n, sizeof *n); n->id = NT; n->fn = fn; n->arg = arg; n->st = S_RUN; n->worker = trains_class(fn, arg);
    vc_copy(n->vc, self->vc); n->vc[n->id] = 2; tick(self);
    n->prio = (1ull << 40) + rndn(&rng_sched, 1000000); n->dec_pos = 0;
    while (n->dec_pos < C.ndec && C.replay && C.dec[n->dec_pos].tid < (u32)n->id + 100 * R->stage) n->dec_pos++;
    int e = real_pthread_create(&n->real, 0, trampoline, n);
    if (e) sim_error("the host cannot create a thread");
    NT++; *t = n->real; if ((u32)NT > R->maxthreads) R->maxthreads = NT;
    point(K_SYNC, true);
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    if (!g_active) return 0;
    Thread *o = by_pthread(t); if (!o) return ESRCH;
    point(K_SYNC, false);
    if (o == self) return EDEADLK;
    if (o->detached || o->joined) return EINVAL;
    while (o->st != S_DONE) block(S_JOIN, o);
    vc_join(self->vc, o->vc); o->joined = true; if (ret) *ret = o->ret;
    return 0;
}
int pthread_detach(pthread_t t) { if (!g_active) return 0; Thread *o = by_pthread(t); if (!o) return ESRCH; if (o->detached || o->joined) return EINVAL; point(K_SYNC, true); o->detached = true; return 0; }
pthread_t pthread_self(void) { return self ? self->real : (pthread_t)1; }

static int mutex_lock(pthread_mutex_t *m, bool tryl, u64 deadline) {
    if (!g_active) return 0;
    point(K_SYNC, true);
    if (!self->quiet) at_state((u64)m, 8, false, RET);
    Sync *s = sync_of(m); int kind = m->__data.__kind & 3;
    for (;;) {
        if (s->owner == -1) { s->owner = self->id; s->count = 1; acquire(s); return 0; }
        if (s->owner == self->id) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        if (tryl) return EBUSY;
        if (deadline && now_ns >= deadline) return ETIMEDOUT;
        self->wake = deadline; self->timed_out = 0;
        block(S_MUTEX, m);
    }
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, true, 0); }
static u64 ts2ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mutex_lock(m, false, ts2ns(t) + 1); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return mutex_lock(m, false, ts2ns(t) + 1); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!g_active) return 0;
    if (!self->quiet) at_state((u64)m, 8, false, RET);
    Sync *s = sync_of(m);
    if (s->owner != self->id) return EPERM;
    if (--s->count > 0) return 0;
    s->owner = -1; release_set(s); wake_all(S_MUTEX, m);
    point(K_SYNC, true);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (g_active && self) { Sync *s = sync_of(m); s->owner = -1; s->count = 0; } return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!g_active) return 0; point(K_SYNC, true); Sync *s = sync_of(l); while (s->owner != -1 || s->rd) block(S_MUTEX, l); s->owner = self->id; acquire(s); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!g_active) return 0; point(K_SYNC, true); Sync *s = sync_of(l); if (s->owner != -1 || s->rd) return EBUSY; s->owner = self->id; acquire(s); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!g_active) return 0; point(K_SYNC, true); Sync *s = sync_of(l); while (s->owner != -1) block(S_MUTEX, l); s->rd++; acquire(s); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!g_active) return 0; point(K_SYNC, true); Sync *s = sync_of(l); if (s->owner != -1) return EBUSY; s->rd++; acquire(s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!g_active) return 0; Sync *s = sync_of(l); if (s->owner == self->id) { s->owner = -1; release_join(s); } else { if (s->rd) s->rd--; release_join(s); } wake_all(S_MUTEX, l); point(K_SYNC, true); return 0; }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
    if (!g_active) return 0;
    point(K_SYNC, true);
    Sync *s = sync_of(m); s->owner = -1; s->count = 0; release_set(s); wake_all(S_MUTEX, m);
    self->wake = deadline; self->timed_out = 0;
    block(S_COND, c);
    int to = self->timed_out; self->timed_out = 0; self->wake = 0;
    mutex_lock(m, false, 0);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, ts2ns(t) + 1); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return cond_wait(c, m, ts2ns(t) + 1); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!g_active) return 0; point(K_SYNC, true);
    Thread *w[MAXT]; int n = 0; for (int i = 0; i < NT; i++) if (T[i].st == S_COND && T[i].wait_on == c) w[n++] = &T[i];
    if (n) { Thread *t = w[(int)((steps * 2654435761u) >> 7) % n]; t->st = S_RUN; t->wake = 0; } return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!g_active) return 0; point(K_SYNC, true); wake_all(S_COND, c); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!g_active) { if (!*o) { *o = 2; f(); } return 0; }
    point(K_SYNC, true);
    Sync *s = sync_of(o);
    while (s->owner != -1 && s->owner != self->id) block(S_MUTEX, o);
    if (*o != 2) { s->owner = self->id; *o = 1; try { f(); } catch (...) { *o = 0; s->owner = -1; wake_all(S_MUTEX, o); throw; } *o = 2; s->owner = -1; release_set(s); wake_all(S_MUTEX, o); }
    acquire(s);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(u64 *g) {
    if (!g_active || !self) { if (*(u8 *)g) return 0; return 1; }
    point(K_SYNC, true);
    Sync *s = sync_of(g);
    while (s->owner != -1 && s->owner != self->id) block(S_MUTEX, g);
    if (*(u8 *)g) { acquire(s); return 0; }
    s->owner = self->id; self->initing++; return 1;
}
void __cxa_guard_release(u64 *g) { *(u8 *)g = 1; if (g_active && self) { self->initing--; Sync *s = sync_of(g); s->owner = -1; release_set(s); wake_all(S_MUTEX, g); } }
void __cxa_guard_abort(u64 *g) { if (g_active && self) { self->initing--; Sync *s = sync_of(g); s->owner = -1; wake_all(S_MUTEX, g); } }

int sem_init(sem_t *s, int, unsigned v) { *(volatile int *)s = (int)v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_wait(sem_t *m) { if (!g_active) return 0; point(K_SYNC, true); while (*(volatile int *)m <= 0) block(S_FUTEX, m); --*(volatile int *)m; acquire(sync_of(m)); return 0; }
int sem_trywait(sem_t *m) { if (!g_active) return 0; point(K_SYNC, true); if (*(volatile int *)m <= 0) { errno = EAGAIN; return -1; } --*(volatile int *)m; acquire(sync_of(m)); return 0; }
int sem_post(sem_t *m) { if (!g_active) return 0; ++*(volatile int *)m; release_join(sync_of(m)); wake_all(S_FUTEX, m); point(K_SYNC, true); return 0; }

int sched_yield(void) { if (LIVE()) { point(K_SYNC, false); if (NT > 1) reschedule(true); } return 0; }
static int sim_sleep(u64 ns) { if (!LIVE()) return 0; point(K_SYNC, false); self->wake = now_ns + ns + 1; self->timed_out = 0; self->nowrite = 0; block(S_SLEEP, 0); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { return sim_sleep(ts2ns(t)); }
int clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *) { u64 n = ts2ns(t); if (fl & TIMER_ABSTIME) n = n > now_ns ? n - now_ns : 0; return sim_sleep(n); }
int usleep(useconds_t u) { return sim_sleep((u64)u * 1000); }
unsigned sleep(unsigned s) { sim_sleep((u64)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t, struct timespec *t) {
    if (!g_active) return (int)syscall(SYS_clock_gettime, CLOCK_MONOTONIC, t);
    t->tv_sec = now_ns / 1000000000ull; t->tv_nsec = now_ns % 1000000000ull; if (LIVE()) point(K_PLAIN, false); return 0;
}
int gettimeofday(struct timeval *t, void *) { t->tv_sec = now_ns / 1000000000ull; t->tv_usec = now_ns % 1000000000ull / 1000; return 0; }
time_t time(time_t *t) { time_t v = (time_t)(now_ns / 1000000000ull); if (t) *t = v; return v; }
long random(void) { if (g_active) { R->counts[F_RANDOM]++; } return (long)(rnd(&rng_user) & 0x7FFFFFFF); }
int rand(void) { return (int)random(); }
void srandom(unsigned) {}
void srand(unsigned) {}
int rand_r(unsigned *) { return (int)random(); }
double drand48(void) { return random() / 2147483648.0; }

static long futex_call(int *w, int op, int v, const struct timespec *to) {
    op &= ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        point(K_SYNC, false); if (*(volatile int *)w != v) { errno = EAGAIN; return -1; }
        self->wake = to ? now_ns + ts2ns(to) + 1 : 0; self->timed_out = 0; block(S_FUTEX, w); acquire(sync_of(w));
        if (self->timed_out) { errno = ETIMEDOUT; return -1; } return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { release_join(sync_of(w)); wake_all(S_FUTEX, w); point(K_SYNC, true); return 1; }
    errno = ENOSYS; return -1;
}
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
static bool rt_word(long a) { return (u64)a >= (u64)T && (u64)a < (u64)(T + MAXT); }
extern "C" long syscall(long n, ...) noexcept(true) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && g_active && self && !rt_word(a)) return futex_call((int *)a, (int)b, (int)c, (const struct timespec *)d);
    return raw_syscall(n, a, b, c, d, e, f);
}

extern "C" int sim_tid(void) { return self ? self->id : -1; }
extern "C" uint64_t sim_now(void) { return now_ns; }
extern "C" uint64_t sim_steps(void) { return steps; }
extern "C" void sim_drain(void) {
    for (;;) {
        int alive = 0; for (int i = 0; i < NT; i++) if (&T[i] != self && T[i].st != S_DONE) alive++;
        if (!alive) return;
        point(K_SYNC, false); self->nowrite = 0; self->points--; // drain's own polling is not a schedule point of the scenario
        self->points++;
        bool any = false; for (int i = 0; i < NT; i++) if (&T[i] != self && (T[i].st == S_RUN || T[i].wake)) any = true;
        if (!any) { char b[600]; describe_threads(b, sizeof b); failpc(0, "deadlock", "threads of the library never finish (%s)", b); }
        reschedule(true);
    }
}
extern "C" int sim_threads_alive(void) { int n = 0; for (int i = 0; i < NT; i++) if (&T[i] != self && T[i].st != S_DONE) n++; return n; }
extern "C" int sim_threads_unreleased(void) { int n = 0; for (int i = 1; i < NT; i++) if (!T[i].joined && !T[i].detached) n++; return n; }

// ------------------------------------------------------------------ set-up
static void on_signal(int sig, siginfo_t *si, void *) {
    int was = g_active; g_active = 0;
    if (was) {
        R->verdict = 1; const char *n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "illegal instruction" : "bus error";
        snprintf(R->cls, sizeof R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "%s in thread t%d at address %p", n, self ? self->id : -1, si->si_addr);
        copy_stack(0, self, 0); finish_stats();
    }
    die();
}
static void on_terminate() {
    const char *what = "std::terminate called";
    static char b[300];
    if (std::exception_ptr e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (std::exception &x) { snprintf(b, sizeof b, "uncaught exception: %s", x.what()); what = b; } catch (...) { what = "uncaught exception of unknown type"; }
    }
    failpc(0, "terminate", "process terminated in thread t%d: %s", self ? self->id : -1, what);
}
static void *map_at(u64 a, u64 n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p;
}
extern "C" void disk_setup();
extern "C" void sim_setup(void) {
    *(void **)&real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    exe_lo = (u8 *)&__data_start; exe_hi = (u8 *)&_end; NDATA = exe_hi - exe_lo;
    u64 S = (ARENA_SIZE + NDATA + 65536) * 4;
    map_at(ARENA, ARENA_SIZE); map_at(SHADOW_W, S); map_at(SHADOW_R, S); map_at(SHADOW_WP, S); map_at(SHADOW_RP, S);
    rvc = (RVC *)map_at(0, sizeof(RVC) * NRVC); syncs = (Sync *)map_at(0, sizeof(Sync) * NSYNC); quar = (u64 *)map_at(0, NQ * 8);
    R = &dummyR; rng_user = 12345;
    { static volatile int up; std::thread([]() { __atomic_store_n(&up, 1, __ATOMIC_RELEASE); }).detach(); while (!__atomic_load_n(&up, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); } // learns how a std::thread starts
    disk_setup();
    static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }; for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, 0);
    std::set_terminate(on_terminate);
}
extern "C" void sim_force_strategy(int s) { if (!C.replay) strategy = s; }
extern "C" void sim_begin(const sim_config *c, sim_result *r) {
    C = *c; R = r;
    if (!C.step_cap) C.step_cap = 40000000;
    u64 sd = C.seed + 7919ull * R->stage; rng_sched = sd * 0x9E3779B97F4A7C15ULL + 1; rng_fault = sd * 0xD1342543DE82EF95ULL + 2; rng_user = sd * 0xDA942042E4DD58B5ULL + 3;
    for (int i = 0; i < 4; i++) { rnd(&rng_sched); rnd(&rng_fault); rnd(&rng_user); }
    steps = 0; progress_at = 0; now_ns = 1000; arena_top = ARENA; NT = 1;
    Thread *m = &T[0]; zero(m, sizeof *m); m->id = 0; m->st = S_RUN; m->real = (pthread_t)1; m->vc[0] = 2; m->prio = (1ull << 40) + rndn(&rng_sched, 1000000);
    if (!R->maxthreads) R->maxthreads = 1;
    m->dec_pos = 0; while (C.replay && m->dec_pos < C.ndec && C.dec[m->dec_pos].tid < 100u * R->stage) m->dec_pos++;
    R->again = 0;
    // schedule strategy
    static const u32 pp[] = { 15, 60, 300, 2000, 20000, 0 }, ps[] = { 0, 2, 3, 6, 20 };
    u32 d = rndn(&rng_sched, 100);
    strategy = d < 30 ? 1 : d < 60 ? 2 : d < 80 ? 3 : d < 87 ? 4 : d < 94 ? 5 : 6;
    p_plain = pp[rndn(&rng_sched, 5)]; p_sync = ps[rndn(&rng_sched, 5)];
    if (strategy == 3) { p_plain = rndn(&rng_sched, 2) ? 0 : 5000; p_sync = 2 + rndn(&rng_sched, 4); }
    if (strategy == 6) p_plain = 20 + rndn(&rng_sched, 300);
    npct = 1 + (int)rndn(&rng_sched, 6); u64 span = 200ull << rndn(&rng_sched, 12);
    for (int i = 0; i < npct; i++) pct_change[i] = rnd(&rng_sched) % span;
    for (int i = 0; i < npct; i++) for (int j = i + 1; j < npct; j++) if (pct_change[j] < pct_change[i]) { u64 t = pct_change[i]; pct_change[i] = pct_change[j]; pct_change[j] = t; }
    pct_i = 0; pct_low = 1ull << 40; nstall = rndn(&rng_sched, 3) == 0 && !C.strategy ? 1 + (int)rndn(&rng_sched, 3) : 0; stall_i = 0;
    for (int i = 0; i < nstall; i++) stall_at[i] = (rnd(&rng_sched) % span) + (i ? stall_at[i - 1] : 0);
    if (C.strategy) strategy = C.strategy;
    draw_next_preempt();
    static const u32 fb[] = { 0x00, 0xFF, 0x01, 0x7F, 256, 256 };
    u32 fd = rndn(&rng_fault, 6); fillbyte = C.fill == 256 ? fb[fd] : C.fill == 257 ? 256 : C.fill;
    alloc_faults_on = 0;
    self = m; cur = m; g_active = 1;
}
extern "C" void sim_end(void) {
    g_active = 0; R->done = 1; finish_stats(); die();
}
static void stage_over(int how) __attribute__((noreturn));
static void stage_over(int how) {
    g_active = 0; finish_stats(); R->again = how; R->stage++; R->base_steps = R->steps; R->base_ns = R->sim_ns; die();
}
extern "C" void sim_crash(void) { sim_count(F_CRASH); stage_over(1); }
extern "C" void sim_next_stage(void) { sim_count(F_RESTART); stage_over(2); }
