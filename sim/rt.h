// Deterministic simulation runtime: interface for the scenarios.
// The runtime owns scheduling, memory, clock, randomness and disk of one simulated run.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- outcome of a run (lives in memory shared with the supervising process)
enum { SIM_MAXDEC = 60000, SIM_LOGSZ = 1 << 18, SIM_MAXFAULT = 4096 };
struct sim_decision { uint32_t tid; uint32_t target; uint64_t point; };
struct sim_fault { uint32_t kind; uint32_t tid; uint64_t n; uint64_t arg; };
enum sim_fault_kind {
    F_CASWEAK = 0,   // spurious failure of a weak compare-and-swap
    F_THREAD,        // thread creation fails
    F_ALLOC,         // allocation fails
    F_STALL,         // a thread is not scheduled for a while
    F_PREEMPT,       // involuntary thread switch
    F_DISK_OPEN, F_DISK_ENOSPC, F_DISK_EIO, F_DISK_SHORT, F_DISK_EINTR, F_DISK_READERR, F_DISK_SHORTREAD, F_DISK_CLOSE, F_DISK_RINTR,
    F_TORN, F_LOSTSECTOR, F_BITFLIP, F_EDIT, F_CRASH, F_RESTART,  // applied by the workload, counted here
    F_DROP, F_DUP, F_REORDER, F_DELAY, F_NONFINITE, F_HUGE,
    F_BADDATA, F_RANDOM, F_CANCEL, F_DESTROY,
    F_KINDS
};
extern const char *const sim_fault_names[];
struct sim_result {
    int done;                     // run completed its scenario
    int stage;                    // simulated processes that ended before this one
    int again;                    // 1: a crash, 2: a regular end; start the next stage in a new process
    uint64_t base_steps, base_ns;
    int verdict;                  // 0 ok, 1 violation, 2 error of the simulator or workload
    char cls[64];                 // class of the violation
    char msg[2048];
    uint64_t pcs[3][24]; int npcs[3];
    uint64_t steps, switches, sim_ns, hash, schedhash;
    uint64_t counts[F_KINDS];
    uint32_t threads, maxthreads;
    uint32_t ndec; struct sim_decision dec[SIM_MAXDEC];
    uint32_t nfault; struct sim_fault fault[SIM_MAXFAULT];
    uint32_t nprobe; struct { char name[40]; uint64_t n; } probe[64];
    uint32_t loglen; char log[SIM_LOGSZ];
};

struct sim_config {
    uint64_t seed;          // scheduler + faults + fill pattern
    int replay;             // follow dec/fault lists below instead of drawing
    uint32_t ndec; const struct sim_decision *dec;
    uint32_t nfault; const struct sim_fault *fault;
    int races;              // report data races
    int threads;            // the scenario uses threads (track accesses for schedules)
    int strategy;           // 0 draw, 1 random, 2 pct, 3 sync-biased, 4 caller first, 5 workers first, 6 round robin
    uint64_t step_cap;
    uint32_t p_casweak;     // 1/n chance, 0 off
    uint32_t p_thread;
    uint32_t p_alloc; uint32_t alloc_min; int alloc_workers_only;
    uint32_t fill;          // fill pattern of fresh memory (0..255), or 256 = draw
    uint64_t quarantine;
};

void sim_setup(void);                       // once, in the supervising process
void sim_begin(const struct sim_config *c, struct sim_result *r);  // in the child, main thread
void sim_end(void) __attribute__((noreturn));                        // scenario finished without violation
void sim_crash(void) __attribute__((noreturn));                      // the simulated process dies now; only the disk survives
void sim_next_stage(void) __attribute__((noreturn));                 // this simulated process ends normally; a new one follows
void sim_drain(void);                       // let every other thread finish
int sim_threads_alive(void);                // unfinished threads besides the caller
int sim_threads_unreleased(void);           // finished threads neither joined nor detached
void sim_watch(const void *p, size_t n);    // count accesses of other threads to this object
uint64_t sim_watch_hits(void);
void sim_unwatch(void);
uint64_t sim_live_blocks(void);             // library blocks alive now
uint64_t sim_live_mark(void);               // serial number of the next allocation
uint64_t sim_live_since(uint64_t mark);     // blocks allocated at or after mark and still alive
void sim_quiet(int delta);                  // +1/-1: accesses of this thread are not simulated
void sim_alloc_faults(int on);
void sim_alloc_cap(size_t bytes);           // one allocation larger than this fails
void sim_event(void);                       // a scheduling point with sync weight
void sim_yield(void);                       // the caller polls: let somebody else run
int sim_tid(void);
uint64_t sim_now(void);
uint64_t sim_steps(void);
void sim_count(int kind);
uint64_t sim_count_of(int kind);
void sim_probe(const char *name);
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_log_hash(const void *p, size_t n);
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
uint64_t sim_caller_random(void);           // value stream of random()
void sim_force_strategy(int s);

// ---- simulated disk: every path starting with /simdisk/
void disk_reset(void);
int disk_exists(const char *path);
size_t disk_size(const char *path);
size_t disk_read(const char *path, char *buf, size_t n);
void disk_put(const char *path, const char *buf, size_t n);
void disk_remove(const char *path);
// one planned fault of the write/read path: at the nth call of that kind
void disk_plan(int kind, uint64_t nth, uint64_t arg);
void disk_plan_clear(void);
int disk_fired(void);                       // planned faults that actually fired since the last plan_clear
uint64_t disk_writes(void);
int disk_unsynced(const char *path, uint64_t *off, uint64_t *len, int max);
#ifdef __cplusplus
}
struct SimQuiet { SimQuiet() { sim_quiet(1); } ~SimQuiet() { sim_quiet(-1); } };
#endif
#endif
