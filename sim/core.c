/* Choices, log, scheduler. */
#define _GNU_SOURCE
#include "internal.h"
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

struct result *R;
int sim_verbose, sim_in_child;
struct choices *sim_replay;
uint64_t sim_run_seed;
uint64_t sim_now, sim_seq;
uint64_t sim_step_limit = 3000000;
int sim_nopreempt;
struct task tasks[MAXTASK];
int ntasks;
task *sim_cur;
static uint64_t steps, switches, preempts, sim_h, state_h;
static uint64_t since_switch;

uint64_t sim_steps(void) { return steps; }

/* ------------------------------------------------------------- choices */
static uint64_t rng_s[NSTREAM];
static uint32_t nch[NSTREAM];

static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void sim_fold(uint64_t v)
{
    sim_h = (sim_h ^ v) * 0x100000001B3ull;
    sim_h ^= sim_h >> 29;
}
void sim_state(uint64_t v)
{
    state_h = (state_h ^ v) * 0x9FB21C651E98DF25ull;
    state_h ^= state_h >> 32;
}

uint64_t sim_hash_now(void) { return sim_h; }

static uint32_t put(int st, uint32_t v)
{
    if (nch[st] >= MAXCH) sim_discard("too many choices");
    R->ch[st][nch[st]++] = v;
    R->nch[st] = nch[st];
    sim_fold(((uint64_t) st << 40) | v);
    return v;
}

static int rep_next(int st, uint32_t *v)
{
    if (!sim_replay) return 0;
    if (nch[st] < sim_replay->n[st]) *v = sim_replay->v[st][nch[st]];
    else *v = 0;
    return 1;
}

uint32_t ch(int st, uint32_t n)
{
    uint32_t v;
    if (n <= 1) return 0;
    if (sim_in_child) return 0;
    if (!rep_next(st, &v)) v = (uint32_t) (splitmix(&rng_s[st]) % n);
    return put(st, v % n);
}
uint32_t chr_(int st, uint32_t lo, uint32_t hi) { return lo + ch(st, hi - lo + 1); }
int chp(int st, uint32_t permille)
{
    uint32_t v;
    if (sim_in_child) return 0;
    if (!rep_next(st, &v)) v = (splitmix(&rng_s[st]) % 1000) < permille;
    return put(st, v & 1);
}
/* choose index by weights; index 0 is simplest */
static uint32_t chw(int st, const uint32_t *w, uint32_t n)
{
    uint32_t v, i, tot = 0;
    if (sim_in_child) return 0;
    if (!rep_next(st, &v)) {
        uint32_t r;
        for (i = 0; i < n; i++) tot += w[i];
        r = (uint32_t) (splitmix(&rng_s[st]) % tot);
        for (v = 0; v < n - 1; v++) { if (r < w[v]) break; r -= w[v]; }
    }
    return put(st, v % n);
}

/* ------------------------------------------------------------- log */
static void trace_raw(const char *s, size_t n)
{
    if (R->trace_len + n + 1 < TRACE_SZ) {
        memcpy(R->trace + R->trace_len, s, n);
        R->trace_len += n;
        R->trace[R->trace_len] = 0;
    }
}
void sim_log(const char *fmt, ...)
{
    char buf[700]; va_list ap; int n, i;
    int e = errno;
    va_start(ap, fmt); n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n >= (int) sizeof buf) n = sizeof buf - 1;
    sim_seq++;
    for (i = 0; i < n; i++) sim_h = (sim_h ^ (unsigned char) buf[i]) * 0x100000001B3ull;
    if (sim_verbose) {
        char l[800]; int m;
        m = snprintf(l, sizeof l, "%8.3fus #%llu [%s%s] %s\n", sim_now / 1000.0,
                     (unsigned long long) sim_seq, sim_in_child ? "forked child of " : "",
                     sim_cur ? sim_cur->name : "-", buf);
        if (m >= (int) sizeof l) m = sizeof l - 1;
        trace_raw(l, m);
    }
    errno = e;
}
void sim_probe(const char *name)
{
    uint32_t i;
    for (i = 0; i < R->nprobe; i++)
        if (!strncmp(R->probe[i], name, 39)) { R->probe_n[i]++; return; }
    if (R->nprobe < MAXPROBE) {
        strncpy(R->probe[i], name, 39); R->probe_n[i] = 1; R->nprobe++;
    }
}

static void finish(int done)
{
    R->hash = sim_h; R->state_hash = state_h;
    R->steps = steps; R->steplimit = sim_step_limit; R->switches = switches; R->preempts = preempts; R->simns = sim_now;
    R->syscalls = sim_syscalls();
    cov_merge();
    __sync_synchronize();
    R->done = done;
    _exit(0);
}
void sim_fail(const char *cls, const char *fmt, ...)
{
    va_list ap;
    sim_nopreempt++;
    va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    sim_log("VIOLATION %s: %s", cls, R->msg);
    finish(2);
    __builtin_unreachable();
}
void sim_discard(const char *why)
{
    snprintf(R->msg, sizeof R->msg, "discarded: %s", why);
    finish(3);
    __builtin_unreachable();
}
void sim_end_ok(void) { finish(1); __builtin_unreachable(); }

/* ------------------------------------------------------------- faults */
const char *const fault_names[FT_COUNT] = {
    "interrupted_call", "short_read", "short_write", "read_error", "write_error", "disk_full",
    "open_error", "pipe_error", "fcntl_error", "fork_error", "dup2_error", "chdir_error",
    "exec_error", "close_error", "allocation_failure", "thread_create_error", "stat_error",
    "mkdir_error", "rmdir_error", "unlink_error", "opendir_error", "readdir_error",
    "getcwd_error", "clock_jump", "external_fs_change", "process_killed", "stall", "callback_failure",
    "thread_join_error", "thread_key_error", "setenv_error"
};
static uint32_t frate[FT_COUNT];
static int fbudget = -1;
int sim_faults_off;
void sim_fault_enable(enum fault k, uint32_t pm) { frate[k] = pm; }
void sim_fault_budget(int n) { fbudget = n; }
void sim_fault_note(enum fault k) { R->faults[k]++; sim_log("FAULT %s", fault_names[k]); }
int sim_fault(enum fault k)
{
    if (!frate[k] || sim_faults_off || sim_in_child || fbudget == 0) return 0;
    if (!chp(F, frate[k])) return 0;
    if (fbudget > 0) fbudget--;
    R->faults[k]++;
    sim_log("FAULT %s", fault_names[k]);
    return 1;
}
uint32_t sim_fault_count(enum fault k) { return R->faults[k]; }
uint32_t sim_faults_total(void)
{
    uint32_t i, t = 0;
    for (i = 0; i < FT_COUNT; i++) t += R->faults[i];
    return t;
}

/* ------------------------------------------------------------- tasks */
#define STACK_BASE 0x200000000000ull
void sim_ctx_switch(void **save, void *to);
__asm__(
    ".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\n"
    "sim_ctx_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n"
    " ret\n");

static void *sched_sp;           /* the driver's stack, for the very end */

static void task_entry(void)
{
    task *t = sim_cur;
    t->fn(t->arg);
    sim_task_exit();
}

task *sim_spawn_in(proc *p, const char *name, void (*fn)(void *), void *arg)
{
    task *t; void **sp;
    if (ntasks >= MAXTASK) sim_discard("too many tasks");
    t = &tasks[ntasks];
    memset(t, 0, sizeof *t);
    t->id = ntasks++;
    snprintf(t->name, sizeof t->name, "%s", name);
    t->st = T_READY; t->fn = fn; t->arg = arg; t->p = p;
    t->stack_lo = (char *) (STACK_BASE + (uint64_t) t->id * 2 * STACKSZ);
    t->stack_hi = t->stack_lo + STACKSZ;
    if (mmap(t->stack_lo, STACKSZ, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != t->stack_lo)
        sim_discard("no stack");
    sp = (void **) (t->stack_hi - 64);
    *--sp = 0;                                /* alignment */
    *--sp = (void *) task_entry;
    sp -= 6; memset(sp, 0, 48);
    t->sp = sp;
    return t;
}
task *sim_spawn(const char *name, void (*fn)(void *), void *arg)
{
    task *t = sim_spawn_in(sim_cur->p, name, fn, arg);
    sim_log("spawn %s", name);
    return t;
}
int sim_task_id(void) { return sim_cur ? sim_cur->id : -1; }
int sim_task_done(task *t) { return t->st == T_DONE; }

static int runnable(task *t)
{
    if (t->st == T_READY) return 1;
    if (t->st == T_BLOCKED) {
        if (t->kill) return 1;
        if (t->wake && t->wake <= sim_now) return 1;
        if (t->pred && t->pred(t->parg)) return 1;
    }
    return 0;
}
int sim_others_runnable(void)
{
    int i, n = 0;
    for (i = 0; i < ntasks; i++) if (&tasks[i] != sim_cur && runnable(&tasks[i])) n++;
    return n;
}

static void switch_to(task *t)
{
    task *me = sim_cur;
    if (t == me) return;
    me->saved_errno = errno;
    sim_cur = t;
    switches++;
    since_switch = 0;
    sim_fold(0x51000000u + t->id);
    if (sim_verbose) {
        char l[128]; int m = snprintf(l, sizeof l, "%8.3fus     -- %s -> %s\n", sim_now / 1000.0, me->name, t->name);
        trace_raw(l, m);
    }
    sim_ctx_switch(&me->sp, t->sp);
    errno = sim_cur->saved_errno;
}

/* preemption plan: how many points until the next forced switch */
static const uint32_t gaps[14] = { 0 /* never */, 1, 2, 3, 4, 6, 9, 14, 25, 50, 120, 300, 800, 2500 };
static uint32_t gapw[14];
static int plain_points;         /* plain accesses count as points */
static uint64_t gap_left;        /* 0 = never */
static int multi;                /* there is somebody to switch to */
static uint64_t mode_set;
uint64_t sim_blocked_ns;
static uint32_t freeze_left, freeze_for;   /* a task that gets no processor for very long, at an arbitrary point */

static void draw_gap(void) { gap_left = gaps[chw(S, gapw, 14)]; }

static void sched_mode(void)
{
    static const uint32_t wts[7][14] = {
        { 1, 0,0,0,0,0,0,0,0,0,0,0,0,0 },                    /* none: switch only when blocked */
        { 2, 6,6,4,4,3,2,2,1,0,0,0,0,0 },                    /* dense */
        { 2, 1,1,2,2,3,4,4,4,3,2,0,0,0 },                    /* medium */
        { 4, 0,0,0,0,1,1,2,2,4,5,5,4,2 },                    /* sparse */
        { 3, 2,2,2,2,2,2,2,2,2,2,2,1,1 },                    /* mixed */
        { 0, 0,0,0,1,1,1,2,2,3,3,3,3,2 },                    /* steady: never stops preempting */
        { 0, 0,1,2,2,3,3,3,3,2,2,1,1,0 },                    /* steady and dense */
    };
    static const uint32_t mw[7] = { 1, 4, 5, 5, 4, 4, 2 };
    uint32_t m = chw(S, mw, 7);
    memcpy(gapw, wts[m], sizeof gapw);
    plain_points = m == 0 ? 0 : chp(S, 650);
    if (ch(S, 30) == 29) { static const uint32_t at[] = { 40, 300, 4000 }; freeze_left = 1 + ch(S, at[ch(S, 3)]); freeze_for = 1 + ch(S, ch(S, 4) == 3 ? 250 : 12); }
    mode_set = 1;
    draw_gap();
}

static int gather(task **v, int include_self)
{
    int i, n = 0, base = sim_cur->id;
    for (i = 1; i <= ntasks; i++) {
        task *t = &tasks[(base + i) % ntasks];
        if (t == sim_cur && !include_self) continue;
        if (runnable(t)) v[n++] = t;
    }
    return n;
}

static int advance_clock(void)
{
    int i; uint64_t w = 0;
    for (i = 0; i < ntasks; i++)
        if (tasks[i].st == T_BLOCKED && tasks[i].wake && (!w || tasks[i].wake < w)) w = tasks[i].wake;
    if (!w) return 0;
    if (w > sim_now) sim_now = w;
    return 1;
}

static void deadlock(void)
{
    char b[900]; int i, n = 0;
    b[0] = 0;
    for (i = 0; i < ntasks; i++)
        if (tasks[i].st == T_BLOCKED && n < 800)
            n += snprintf(b + n, sizeof b - n, " %s", tasks[i].name);
    sim_fail("deadlock", "no simulated thread or process can make progress; blocked:%s", b);
}

/* current task cannot continue (blocked or done): run somebody else */
void sim_switch_away(void)
{
    task *v[MAXTASK]; int n;
    for (;;) {
        n = gather(v, 1);
        if (n) break;
        if (!advance_clock()) deadlock();
    }
    switch_to(v[ch(S, n)]);
}

static void check_limits(void)
{
    if (steps > sim_step_limit)
        sim_fail("no-progress", "no termination within %llu scheduling points (%.3f ms simulated)",
                 (unsigned long long) sim_step_limit, sim_now / 1e6);
}

void sim_point(int sync)
{
    if (!sim_cur) return;
    steps++;
    sim_now++;
    if (sim_in_child) {
        if (steps > sim_step_limit) check_limits();
        return;
    }
    if (sim_nopreempt) return;
    since_switch++;
    if (steps > sim_step_limit) check_limits();
    if (!mode_set) sched_mode();
    if (ntasks < 2) return;
    if (freeze_left && (sync || plain_points) && --freeze_left == 0 && !sim_faults_off) {
        uint32_t k = freeze_for; task *me = sim_cur; uint64_t b = me->blocks, bn = sim_blocked_ns;
        sim_fault_note(FT_STALL); sim_probe("a thread frozen at an arbitrary point");
        while (k-- > 0 && steps < sim_step_limit / 2) sim_sleep(1);   /* whoever waits for it spins 3000 points each time */
        me->blocks = b; sim_blocked_ns = bn;
        return;
    }
    if ((sync || plain_points) && gap_left && --gap_left == 0) {
        task *v[MAXTASK]; int n = gather(v, 0);
        if (n) {
            task *t = v[ch(S, n)];
            preempts++;
            draw_gap();
            switch_to(t);
        } else draw_gap();
    }
    if (since_switch > 3000) {
        task *v[MAXTASK]; int n = gather(v, 0);
        since_switch = 0;
        if (!n && advance_clock()) n = gather(v, 0);
        if (n) switch_to(v[0]);
    }
}
void sim_yield(void)
{
    task *v[MAXTASK]; int n;
    if (sim_in_child) return;
    n = gather(v, 0);
    if (n) switch_to(v[ch(S, n)]);
}

static int block_common(int (*pred)(void *), void *arg, uint64_t wake)
{
    task *me = sim_cur;
    uint64_t t0 = sim_now;
    if (sim_in_child) {
        if (pred && pred(arg)) return 1;
        if (wake) { if (wake > sim_now) sim_now = wake; return 0; }
        sim_fail("child-blocked", "the forked child blocks forever before running its body");
    }
    if (pred && pred(arg)) return 1;
    me->blocks++;
    me->st = T_BLOCKED; me->pred = pred; me->parg = arg; me->wake = wake;
    for (;;) {
        sim_switch_away();
        if (me->kill) break;
        if (pred && pred(arg)) break;
        if (wake && wake <= sim_now) break;
    }
    me->st = T_READY; me->pred = 0; me->wake = 0;
    sim_blocked_ns += sim_now - t0;
    return pred ? pred(arg) : 0;
}
void sim_block(int (*pred)(void *), void *arg) { block_common(pred, arg, 0); }
int sim_block_until(int (*pred)(void *), void *arg, uint64_t d) { return block_common(pred, arg, d ? d : 1); }
void sim_sleep(uint64_t ns) { block_common(0, 0, sim_now + (ns ? ns : 1)); }

uint64_t sim_my_blocks(void) { return sim_cur->blocks; }

static int done_pred(void *a) { return ((task *) a)->st == T_DONE; }
void sim_join(task *t) { sim_block(done_pred, t); }

void sim_task_exit(void)
{
    task *me = sim_cur;
    pth_task_exit(me);
    mem_tls_release(me);
    me->st = T_DONE;
    sim_log("exit of %s", me->name);
    if (me->id == 0) sim_end_ok();
    for (;;) {
        task *v[MAXTASK]; int n;
        for (;;) {
            n = gather(v, 0);
            if (n) break;
            if (!advance_clock()) deadlock();
        }
        switch_to(v[ch(S, n)]);
    }
}

/* ------------------------------------------------------------- crashes */
static void on_crash(int sig)
{
    const char *n = sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGFPE ? "crash:SIGFPE" :
                    sig == SIGBUS ? "crash:SIGBUS" : sig == SIGILL ? "crash:SIGILL" :
                    sig == SIGABRT ? "crash:SIGABRT" : "hang";
    sim_nopreempt++;
    sim_fail(n, sig == SIGPROF ? "a loop without any memory access does not end" :
             "the code under test crashed in %s", sim_cur ? sim_cur->name : "?");
}

void sim_core_init(void)
{
    static char alt[64 * 1024];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
    struct sigaction sa; int i;
    struct itimerval it = { { 0, 0 }, { 20, 0 } };
    int sigs[] = { SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGPROF };
    sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (i = 0; i < 6; i++) sigaction(sigs[i], &sa, 0);
    setitimer(ITIMER_PROF, &it, 0);
    for (i = 0; i < NSTREAM; i++) {
        rng_s[i] = sim_run_seed * 0xD1342543DE82EF95ull + 0x1234567ull * (i + 1);
        splitmix(&rng_s[i]);
        nch[i] = 0;
    }
    sim_h = 0xcbf29ce484222325ull; state_h = 1;
    sim_now = 1000;
}

static const struct check *cur_check;
static void main_body(void *a) { extern int sim_heap_fill, sim_alloc_scribble; static const int fill[] = { 0xa5, 0, 1, 0xff }; (void) a; uint32_t v = ch(F, 8); sim_heap_fill = fill[v & 3]; sim_alloc_scribble = v >> 2; cur_check->run(); }

void sim_run_body(const struct check *c)
{
    task boot, *t;
    cur_check = c;
    memset(&boot, 0, sizeof boot);
    sim_core_init();
    mem_init(); os_init(); pth_init();
    strcpy(boot.name, "boot"); boot.st = T_DONE; boot.id = 0;
    t = sim_spawn_in(sim_proc0(), "main", main_body, 0);
    sim_cur = t;
    (void) multi;
    sim_ctx_switch(&sched_sp, t->sp);
}

/* ------------------------------------------------------------- helpers */
uint64_t sim_hash_bytes(const void *p, size_t n)
{
    const unsigned char *c = p; uint64_t h = 0xcbf29ce484222325ull;
    while (n--) h = (h ^ *c++) * 0x100000001B3ull;
    return h;
}
char *sim_pattern(size_t n, uint32_t salt, char *buf)
{
    size_t i; uint64_t x = salt * 2654435761u + 99991;
    for (i = 0; i < n; i++) {
        if ((i & 7) == 0) splitmix(&x);
        buf[i] = (char) ("abcdefghijklmnopqrstuvwxyz0123456789ABCDEF\n"[(x >> ((i & 7) * 8)) % 43]);
    }
    return buf;
}
