#ifndef VSIM_INTERNAL_H
#define VSIM_INTERNAL_H
#include "sim.h"

#define MAXCH   60000
#define TRACE_SZ (1 << 20)
#define MAXPROBE 48

struct result {
    volatile int done;          /* 0 running, 1 ok, 2 violation, 3 discarded */
    char cls[96];
    char msg[2048];
    uint64_t hash, state_hash;
    uint64_t steps, steplimit, switches, preempts, simns, syscalls;
    uint32_t faults[FT_COUNT];
    uint32_t nprobe;
    char probe[MAXPROBE][40];
    uint32_t probe_n[MAXPROBE];
    uint32_t nch[NSTREAM];
    uint32_t ch[NSTREAM][MAXCH];
    uint64_t trace_len;
    char trace[TRACE_SZ];
};
extern struct result *R;
extern int sim_verbose;
extern int sim_in_child;

/* replay input */
struct choices { uint32_t n[NSTREAM]; uint32_t *v[NSTREAM]; };
extern struct choices *sim_replay;
extern uint64_t sim_run_seed;

/* tasks */
#define MAXTASK 320
#define STACKSZ (256 * 1024)
enum tstate { T_FREE, T_READY, T_BLOCKED, T_DONE };
struct tlsent { void *ctl; void *mem; size_t size; };
struct task {
    void *sp;
    int id;
    char name[24];
    enum tstate st;
    int (*pred)(void *); void *parg;
    uint64_t wake;              /* 0 = none */
    int timed_out;
    int saved_errno;
    void (*fn)(void *); void *arg;
    proc *p;
    char *stack_lo, *stack_hi;
    struct tlsent tls[64]; int ntls;
    /* pthread */
    void *(*pfn)(void *); void *pret; int is_pthread, joined, detached;
    void *spec[64];
    uint64_t blocks;
    int last_errno; char last_call[24]; uint64_t injected[3], injected_rd[3] /* by anything but closing */;  /* last error injected into this task */
    int label;
    int kill;                   /* must terminate at next chance (simulated process killed) */
};
extern struct task tasks[MAXTASK];
extern int ntasks;

void sim_core_init(void);
void sim_run_body(const struct check *c);
void sim_switch_away(void);
void sim_task_exit(void) __attribute__((noreturn));
task *sim_spawn_in(proc *p, const char *name, void (*fn)(void *), void *arg);
void sim_fold(uint64_t v);
uint64_t sim_hash_now(void);
void mem_init(void);
void mem_access(const void *p, size_t n, int write);
void mem_tls_release(task *t);
void os_init(void);
void os_child_fault_plan(void);
int  os_child_fault(const char *call);
void pth_init(void);
void pth_task_exit(task *t);
proc *sim_proc0(void);
int  sim_inject(const char *call, int e);
extern const struct check *const all_checks[];
void cov_merge(void);
int run_one(const struct check *c, uint64_t seed, struct choices *rep, int verbose, struct result *res);
#endif
