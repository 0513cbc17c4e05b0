/* C09: output and exit status of subprocesses are captured completely. */
#include "sub_common.h"

struct job { int group, mode; struct member *m[40]; int n; struct cork_subprocess_group *g; uint64_t rng; struct thr t; };

static int job_finished(struct job *j)
{
    int i, e = 1, f;
    if (j->group) { for (i = 0; i < j->n; i++) e &= sub_ended(j->m[i]); f = cork_subprocess_group_is_finished(j->g); }
    else { e = sub_ended(j->m[0]); f = cork_subprocess_is_finished(j->m[0]->sub); }
    CHECK(!f || e, "C09:finished-too-early", "said to be finished, but a child or an output stream is still open");
    CHECK(f || !e, "C09:never-finished", "everything ended, but it is not said to be finished");
    return f;
}
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; int i, rc;
    if (rndn(&j->rng, 4) == 0) cork_error_clear();      /* the first use of the error API anywhere may be this one */
    rc = j->group ? cork_subprocess_group_start(j->g) : cork_subprocess_start(j->m[0]->sub);
    CHECK(rc == 0, "C09:start", "start failed with error %d", cork_error_code());
    if (j->mode >= 1) {
        int k = j->mode == 1 ? -1 : (int) rndn(&j->rng, 6);
        while (!job_finished(j) && k--) {
            if (j->group) cork_subprocess_group_drain(j->g); else cork_subprocess_drain(j->m[0]->sub);
            if (rndn(&j->rng, 3)) sim_sleep(1000ull * (1 + rndn(&j->rng, 60000))); else sim_yield();
        }
    }
    if (j->mode != 1) {
        rc = j->group ? cork_subprocess_group_wait(j->g) : cork_subprocess_wait(j->m[0]->sub);
        CHECK(rc == 0, "C09:wait", "wait failed with error %d although nothing failed", cork_error_code());
    }
    CHECK(job_finished(j), "C09:not-finished", "not finished after waiting");
    for (i = 0; i < j->n; i++) { sub_check_result(j->m[i]); sim_state(j->m[i]->r[1].calls * 16 + j->m[i]->r[2].calls); }
}
static void run(void)
{
    struct job jb[2]; int nj, i, k, nfd0;
    memset(jb, 0, sizeof jb);
    sub_pick_env(); sub_init(); sub_guard(); nfd0 = sim_nfds();
    if (ch(F, 3)) sim_fault_enable(FT_SHORT_READ, chr_(F, 20, 400));
    if (ch(F, 3)) sim_fault_enable(FT_EINTR, chr_(F, 5, 200));
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    nj = ch(W, 3) == 2 ? 2 : 1;
    for (k = 0; k < nj; k++) {
        struct job *j = &jb[k]; int many;
        j->group = ch(W, 2); j->n = j->group ? 1 + ch(W, 3) : 1; many = nj == 1 && j->group && ch(W, 30) == 29; if (many) { j->n = 9 + (int) ch(W, ch(W, 2) ? 12 : 32); sim_probe("a group of many"); } j->mode = ch(W, 3); j->rng = rnd_seed();
        if (j->group) j->g = cork_subprocess_group_new();
        for (i = 0; i < j->n; i++) {
            j->m[i] = sub_add(many ? G_KILL | G_QUIET : G_KILL | G_SPAWN);
            sub_make(j->m[i]);
            if (j->group) cork_subprocess_group_add(j->g, j->m[i]->sub);
        }
    }
    if (nj == 2) {
        for (k = 0; k < nj; k++) thr_start(&jb[k].t, k ? TK_PTHREAD : TK_TASK, k + 1, rnd_seed(), job_run, &jb[k]);
        for (k = 0; k < nj; k++) thr_join(&jb[k].t);
    } else { jb[0].t.ctx = &jb[0]; job_run(&jb[0].t); }
    for (k = 0; k < nj; k++) { if (jb[k].group) cork_subprocess_group_free(jb[k].g); else cork_subprocess_free(jb[k].m[0]->sub); }
    for (i = 0; i < sub_nm; i++) { struct child_obs *o = sub_obs(&mem_[i]); if (o->killed_by) sim_probe("child killed"); if (o->out_len[1] + o->out_len[2] > sim_pipe_cap) sim_probe("more output than a pipe holds"); }
    CHECK(sim_nfds() == nfd0, "C09:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    cork_error_clear();
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C09, run);
