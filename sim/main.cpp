// The supervisor: one simulated run per child process, all of them forked from the same pristine state.
//   simx batch PROP SEED FIRST STEP COUNT SECONDS     runs indices FIRST, FIRST+STEP, ...; one line per run
//   simx plan PROP SEED INDEX                         prints the plan
//   simx run FILE                                     runs a plan or replay file; prints the outcome and the trace
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
extern "C" { int scen_plan(const char *, unsigned long long, unsigned long long); int scen_parse(const char *, char *, size_t); size_t scen_text(char *, size_t); void scen_config(sim_config *); void scen_run(int); }
void *sim_shared; // survives simulated processes: what an outside observer wrote down
static sim_result *R; static char *text_buf; enum { TEXT = 8 << 20, RUN_LIMIT = 30 };
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void raw_sleep(long ns) { struct timespec t = { 0, ns }; syscall(SYS_nanosleep, &t, 0); }
static void child(const char *prop, unsigned long long seed, unsigned long long index, const char *text) __attribute__((noreturn));
static void child(const char *prop, unsigned long long seed, unsigned long long index, const char *text) {
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    char err[200];
    if (text) { if (scen_parse(text, err, sizeof err)) { R->verdict = 2; snprintf(R->msg, sizeof R->msg, "%s", err); _exit(0); } }
    else {
        if (scen_plan(prop, seed, index)) { R->verdict = 2; snprintf(R->msg, sizeof R->msg, "unknown property"); _exit(0); }
        scen_text(text_buf, TEXT);
        if (scen_parse(text_buf, err, sizeof err)) { R->verdict = 2; snprintf(R->msg, sizeof R->msg, "%s", err); _exit(0); } // the same start as when the plan comes from a file
    }
    sim_config c; scen_config(&c);
    int stage = R->stage;
    sim_begin(&c, R);
    scen_run(stage);
    sim_end();
}
static void one(const char *prop, unsigned long long seed, unsigned long long index, const char *text, double timeout) {
    memset(R, 0, sizeof *R); memset(sim_shared, 0, 1 << 20); disk_reset();
    for (;;) {
        R->again = 0;
        pid_t p = fork();
        if (p == 0) child(prop, seed, index, text);
        if (p < 0) { R->verdict = 2; snprintf(R->msg, sizeof R->msg, "fork failed"); return; }
        double t0 = wall(); int st = 0, k = 0; bool killed = false;
        for (;;) {
            pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
            raw_sleep(k < 50 ? 200000 : 3000000); k++;
            if (wall() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
        }
        if (R->again && !R->verdict && !killed && WIFEXITED(st)) continue;
        if (killed) { R->verdict = 2; snprintf(R->cls, 64, "timeout"); snprintf(R->msg, sizeof R->msg, "the run took longer than %g s of real time", timeout); }
        else if (!WIFEXITED(st)) { if (!R->verdict) { R->verdict = 1; snprintf(R->cls, 64, "crash"); snprintf(R->msg, sizeof R->msg, "the process was killed by signal %d", WTERMSIG(st)); R->hash = 1; } }
        else if (!R->done && !R->verdict) { R->verdict = 1; snprintf(R->cls, 64, "exit"); snprintf(R->msg, sizeof R->msg, "the code under test ended the process"); R->hash = 2; }
        return;
    }
}
static void one_line(unsigned long long index) {
    printf("R %llu %d %016llx %016llx %llu %llu %llu %u %u %d", index, R->verdict, (unsigned long long)R->hash, (unsigned long long)R->schedhash, (unsigned long long)R->steps,
           (unsigned long long)R->sim_ns, (unsigned long long)R->switches, R->maxthreads, R->ndec, R->stage + 1);
    for (int k = 0; k < F_KINDS; k++) if (R->counts[k]) printf(" f%d=%llu", k, (unsigned long long)R->counts[k]);
    for (unsigned k = 0; k < R->nprobe; k++) printf(" p:%s=%llu", R->probe[k].name, (unsigned long long)R->probe[k].n);
    if (R->verdict) { char m[2200]; snprintf(m, sizeof m, "%s: %s", R->cls, R->msg); for (char *c = m; *c; c++) if (*c == '\n' || *c == '\t') *c = ' '; printf("\tV %s", m); }
    printf("\n"); fflush(stdout);
}
static void print_full(bool trace) {
    printf("verdict %d\nclass %s\nmessage %s\nhash %016llx\nschedhash %016llx\nsteps %llu\nsim_ns %llu\nswitches %llu\nthreads %u\nstages %d\n", R->verdict, R->cls, R->msg, (unsigned long long)R->hash,
           (unsigned long long)R->schedhash, (unsigned long long)R->steps, (unsigned long long)R->sim_ns, (unsigned long long)R->switches, R->maxthreads, R->stage + 1);
    for (int s = 0; s < 3; s++) { if (!R->npcs[s]) continue; printf("stack%d", s); for (int i = 0; i < R->npcs[s]; i++) printf(" %llx", (unsigned long long)R->pcs[s][i]); printf("\n"); }
    for (int k = 0; k < F_KINDS; k++) if (R->counts[k]) printf("count %s %llu\n", sim_fault_names[k], (unsigned long long)R->counts[k]);
    if (!trace) return;
    printf("log-begin\n%.*slog-end\n", (int)R->loglen, R->log);
    for (unsigned i = 0; i < R->nfault; i++) printf("fault %u %u %llu %llu\n", R->fault[i].kind, R->fault[i].tid, (unsigned long long)R->fault[i].n, (unsigned long long)R->fault[i].arg);
    for (unsigned i = 0; i < R->ndec; i++) printf("dec %u %llu %u\n", R->dec[i].tid, (unsigned long long)R->dec[i].point, R->dec[i].target);
}
int main(int argc, char **argv) {
    if (!getenv("SIMX_NOASLR")) { personality(ADDR_NO_RANDOMIZE); setenv("SIMX_NOASLR", "1", 1); setenv("LC_ALL", "C", 1); execv("/proc/self/exe", argv); }
    R = (sim_result *)mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    text_buf = (char *)mmap(0, TEXT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sim_shared = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sim_setup();
    if (argc >= 7 && !strcmp(argv[1], "batch")) {
        unsigned long long seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        double lim = argc > 7 ? atof(argv[7]) : 1e9, t0 = wall();
        for (unsigned long long k = 0; k < count && wall() - t0 < lim; k++) { one(argv[2], seed, first + k * step, 0, RUN_LIMIT); one_line(first + k * step); }
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "plan")) {
        if (scen_plan(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10))) return 2;
        scen_text(text_buf, TEXT); fputs(text_buf, stdout); return 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "run")) {
        FILE *f = strcmp(argv[2], "-") ? fopen(argv[2], "r") : stdin; if (!f) { perror(argv[2]); return 2; }
        char *t = (char *)mmap(0, TEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t n = fread(t, 1, TEXT - 1, f); t[n] = 0;
        one(0, 0, 0, t, 120); print_full(argc > 3); return R->verdict;
    }
    // plans from standard input, separated by a line "==": one result line each (for minimisation)
    if (argc >= 2 && !strcmp(argv[1], "many")) {
        char *t = (char *)mmap(0, TEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t n = 0; char line[4096]; unsigned long long k = 0;
        while (fgets(line, sizeof line, stdin)) {
            if (!strcmp(line, "==\n")) { t[n] = 0; one(0, 0, 0, t, RUN_LIMIT); one_line(k++); n = 0; continue; }
            size_t l = strlen(line); if (n + l < TEXT - 1) { memcpy(t + n, line, l); n += l; }
        }
        return 0;
    }
    if (argc >= 2 && !strcmp(argv[1], "kinds")) { for (int k = 0; k < F_KINDS; k++) printf("%d %s\n", k, sim_fault_names[k]); return 0; }
    fprintf(stderr, "usage: simx batch|plan|run|many|kinds ...\n"); return 2;
}
