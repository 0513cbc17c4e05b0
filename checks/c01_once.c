/* C01: one-time initialisation. */
#include "common.h"
#include "u.h"

static struct { int begun, ended, by, recursed; } st[2][3];
static uint32_t recurse_mask;        /* which points recurse, at which step */
static uint32_t nest;                /* nested initialisation of another point */
static int passed[2][3];
static int very_slow;                /* one initialiser takes very long */

void once_init_begin(int rec, int k)
{
    CHECK(st[rec][k].begun == 0, "C01:init-twice", "the initialiser of point %d/%d ran a second time (first by task %d, now by %d)",
          rec, k, st[rec][k].by, sim_task_id());
    st[rec][k].begun++; st[rec][k].by = sim_task_id();
    sim_log("init %d/%d begins", rec, k);
    if (ch(F, 4) == 1) { sim_fault_note(FT_STALL); sim_sleep(1 + ch(F, 5000)); }
    if (very_slow && ch(F, 3) == 0) {
        int i, m = ch(F, very_slow);
        very_slow = 0; sim_fault_note(FT_STALL); sim_probe("an initialiser that takes very long");
        for (i = 0; i < m; i++) sim_sleep(1);      /* whoever waits spins 3000 points each time */
    }
}
void once_init_end(int rec, int k)
{
    if (ch(F, 4) == 1) { sim_fault_note(FT_STALL); sim_sleep(1 + ch(F, 5000)); }
    st[rec][k].ended++;
    sim_log("init %d/%d ends", rec, k);
}
void once_maybe_recurse(int k, int i)
{
    int e, d;
    if (!((recurse_mask >> (k * 4 + i)) & 1)) return;
    st[1][k].recursed++;
    e = st[1][k].ended; d = st[1][k].begun;
    u_once_reach(1, k);
    CHECK(st[1][k].begun == d && st[1][k].ended == e, "C01:recursion-reinit", "re-entering ran the initialiser again");
    sim_probe("recursive re-entry");
}
void once_maybe_nested(int rec, int k)
{
    /* point 0 initialises point 1 (plain) or 2 (recursive) from within: no cycles */
    if (k == 0 && (nest & 1)) { u_once_reach(0, 1); CHECK(st[0][1].ended == 1, "C01:passed-early", "nested point passed before its initialiser finished"); }
    if (k == 0 && (nest & 2)) { u_once_reach(1, 2); CHECK(st[1][2].ended == 1, "C01:passed-early", "nested point passed before its initialiser finished"); }
    (void) rec;
}
static void body(struct thr *t)
{
    int i, n = 1 + rndn(&t->rng, 4);
    for (i = 0; i < n; i++) {
        int rec = rndn(&t->rng, 2), k = rndn(&t->rng, 3), j, was = st[rec][k].begun && !st[rec][k].ended;
        if (was) sim_probe("reached while initialising");
        u_once_reach(rec, k);
        CHECK(st[rec][k].begun == 1 && st[rec][k].ended == 1, "C01:passed-early",
              "task %d got past point %d/%d although its initialiser had %s", sim_task_id(), rec, k,
              st[rec][k].begun ? "not finished" : "not run");
        for (j = 0; j < 4; j++)
            CHECK(u_once_data[rec][k][j] == 1, "C01:data", "point %d/%d: initialised datum %d is %d", rec, k, j, u_once_data[rec][k][j]);
        passed[rec][k]++;
        sim_state(rec * 16 + k + was * 64);
    }
}
static int unused(void *a) { (void) a; return 0; }
static void run(void)
{
    struct thr th[6]; int n = 2 + ch(W, 4), i;
    uint64_t seeds[6];
    recurse_mask = ch(W, 4096);
    nest = ch(W, 4);
    if (ch(F, 100) == 99) { very_slow = ch(F, 4) ? 60 : 900; sim_step_limit = 12000000; }
    if (ch(W, 50) == 49) {                  /* a program that has seen many threads: identifiers beyond a byte */
        int k = 240 + ch(W, 20);
        while (k-- > 0) cork_thread_free(cork_thread_new("x", 0, 0, unused));
        sim_probe("many identifiers given out before");
    }
    for (i = 0; i < n; i++) seeds[i] = rnd_seed();
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, seeds[i], body, 0);
    if (ch(W, 2)) { struct thr self; memset(&self, 0, sizeof self); self.rng = rnd_seed(); body(&self); }
    for (i = 0; i < n; i++) thr_join(&th[i]);
}
DEFCHECK(C01, run);
