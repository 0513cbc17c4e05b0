/* C25: independent objects in different threads. */
#include "common.h"
#include "u.h"

static struct { uint64_t seed, d[1500]; int kind[1500], n; } T_[5];
void (*u_indep_cb)(int kind);           /* somebody else's business */
static int reference, cur_; static uint32_t mask; static int sections;

static int me(void)
{
    return reference ? cur_ : -1;
}
static struct thr *th_of[128];
void u_indep_step(int kind, uint64_t dig)
{
    if (u_indep_cb) { u_indep_cb(kind); return; }
    if (me() >= 0) {
        int i = cur_, k = T_[i].n++;
        CHECK(T_[i].kind[k] == kind && T_[i].d[k] == dig, "C25:interference", "thread %d got a different result in step %d (kind %d) than when running alone", i, k, kind);
    } else {
        struct thr *t = th_of[sim_task_id()];
        T_[t->id].kind[T_[t->id].n] = kind; T_[t->id].d[T_[t->id].n++] = dig;
        sim_state(kind);
        sim_yield();
    }
}
static void body(struct thr *t)
{
    th_of[sim_task_id()] = t;
    u_indep(T_[t->id].seed, sections, mask);
}
static void run(void)
{
    struct thr th[5]; int n = 2 + ch(W, 3), i, same = ch(W, 3);
    sim_step_limit = 12000000;
    sections = 3 + ch(W, 8);
    mask = same == 0 ? U_ALL : same == 1 ? 1u << ch(W, U_KINDS) : ch(W, U_ALL + 1);
    if (same == 1) sections = 60;
    cork_env_add(0, "HOME", "/home/me"); cork_env_add(0, "A", "outer");
    for (i = 0; i < n; i++) T_[i].seed = rnd_seed();
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, 0, body, 0);
    for (i = 0; i < n; i++) thr_join(&th[i]);
    for (i = 0; i < n; i++) { reference = 1; cur_ = i; T_[i].n = 0; u_indep(T_[i].seed, sections, mask); }
    end_process(0);
}
DEFCHECK(C25, run);
