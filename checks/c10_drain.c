/* C10: draining never blocks, delivers what is there, tells the truth about progress. */
#include "sub_common.h"

struct job { struct member *m[40]; int n; struct cork_subprocess_group *g; uint64_t rng; struct thr t; };
#define CH(n) ((int) rndn(&j->rng, n))
static int EV(struct job *j) { int i, k = 0; for (i = 0; i < j->n; i++) k += j->m[i]->events; return k; }
static int RP(struct job *j) { int i, k = 0; for (i = 0; i < j->n; i++) { struct child_obs *o = sub_obs(j->m[i]); if (o) k += o->reaped; } return k; }
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; struct member **m = j->m; struct cork_subprocess_group *g = j->g; int n = j->n, i, f, rc, steps, after = 0;
    sim_label(t->id);
    if (CH(6) == 5) {
        bool p = g ? cork_subprocess_group_drain(g) : cork_subprocess_drain(m[0]->sub);
        CHECK(!p, "C10:false-progress", "progress on something that was not started");
    }
    rc = g ? cork_subprocess_group_start(g) : cork_subprocess_start(m[0]->sub);
    CHECK(rc == 0, "C10:start", "start failed with error %d", cork_error_code());
    steps = 3 + CH(40);
    for (;;) {
        size_t have[40][3]; uint64_t blocks = sim_my_blocks(), slow = 0, eintr = sim_fault_count(FT_EINTR); int ev = EV(j), rp = RP(j), all = 1, one; bool p;
        if (g && CH(8) == 7) { one = CH(n); } else one = -1;     /* a member may also be drained on its own */
        for (i = 0; i < n; i++) {
            struct child_obs *o = sub_obs(m[i]);
            all &= sub_ended(m[i]);
            for (f = 1; f < 3; f++) { have[i][f] = o ? o->out_len[f] : 0; m[i]->r[f].limit = m[i]->r[f].got + 4 * sim_pipe_cap + 16384; }
            slow -= m[i]->blocks;
        }
        if (all && after++ == 3) break;
        sim_log("drain");
        dirty_stack();
        p = one >= 0 ? cork_subprocess_drain(m[one]->sub) : g ? cork_subprocess_group_drain(g) : cork_subprocess_drain(m[0]->sub);
        for (i = 0; i < n; i++) slow += m[i]->blocks;
        CHECK(sim_my_blocks() == blocks + slow, "C10:blocked", "draining waited for somebody");
        CHECK(p == (EV(j) > ev || RP(j) > rp), p ? "C10:false-progress" : "C10:hidden-progress",
              "drain returned %d after %d callbacks and %d reaped children", p, EV(j) - ev, RP(j) - rp);
        if (all) CHECK(!p && EV(j) == ev, "C10:not-idle", "everything had ended, but drain did something");
        CHECK(!cork_error_occurred(), "C10:error", "error %d although nothing failed", cork_error_code());
        if (sim_fault_count(FT_EINTR) == eintr)
            for (i = 0; i < n; i++) for (f = 1; f < 3; f++)
                if (m[i]->want[f] && (one < 0 || one == i)) CHECK(m[i]->r[f].got >= have[i][f], "C10:left-output", "stream %d of member %d: %zu bytes were there, %zu were delivered", f, i, have[i][f], m[i]->r[f].got);
        if (p) sim_probe("drain made progress");
        else { int alive = 0; for (i = 0; i < n; i++) alive |= sub_kid(m[i]) >= 0 && sim_child_alive(sub_kid(m[i])); if (alive) sim_probe("drain while a child runs and there is nothing to do"); }
        sim_state(((EV(j) - ev) % 8) * 4 + (RP(j) - rp));
        if (--steps == 0) {                 /* those that would run forever are ended */
            rc = g ? cork_subprocess_group_abort(g) : cork_subprocess_abort(m[0]->sub);
            if (rc) { CHECK(sim_fault_count(FT_EINTR), "C10:abort", "abort failed with error %d", cork_error_code()); cork_error_clear(); sim_kill_all(); }
        }
        switch (CH(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep(1000ull * (1 + CH(3000))); break; case 3: sim_sleep(1000ull * (1 + CH(200000))); break; }
        if (steps < -3000) sim_fail("C10:never-finished", "drained %d times since everybody was terminated, still not finished", -steps);
        if (steps <= 0) sim_sleep(1000000ull);
    }
    CHECK(g ? cork_subprocess_group_is_finished(g) : cork_subprocess_is_finished(m[0]->sub), "C10:never-finished", "everything ended, but it is not said to be finished");
    for (i = 0; i < n; i++) sub_check_result(m[i]);
    if (g) cork_subprocess_group_free(g); else cork_subprocess_free(m[0]->sub);
    sim_label(0);
}
static void run(void)
{
    struct job jb[2]; int i, k, nj, nfd0;
    memset(jb, 0, sizeof jb);
    sub_pick_env(); sub_init(); sub_guard(); nfd0 = sim_nfds();
    if (ch(F, 3)) sim_fault_enable(FT_SHORT_READ, chr_(F, 20, 400));
    if (ch(F, 3) == 2) sim_fault_enable(FT_EINTR, chr_(F, 5, 200));
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    nj = ch(W, 4) == 3 ? 2 : 1;
    for (k = 0; k < nj; k++) {
        struct job *j = &jb[k]; int many = 0;
        j->rng = rnd_seed(); j->n = 1;
        if (ch(W, 2)) { j->g = cork_subprocess_group_new(); j->n = 1 + ch(W, 3); if (nj == 1 && ch(W, 40) == 39) { j->n = 9 + (int) ch(W, ch(W, 2) ? 12 : 32); many = 1; sim_probe("a group of many"); } }
        for (i = 0; i < j->n; i++) {
            struct member *m = j->m[i] = sub_add(many ? G_KILL | G_QUIET : G_KILL | G_SPAWN | G_FOREVER | G_FLOOD);
            m->label = k + 1; m->nth = i;
            sub_make(m);
            if (j->g) cork_subprocess_group_add(j->g, m->sub);
        }
    }
    if (nj == 2) {
        for (k = 0; k < nj; k++) thr_start(&jb[k].t, k ? TK_PTHREAD : TK_TASK, k + 1, rnd_seed(), job_run, &jb[k]);
        for (k = 0; k < nj; k++) thr_join(&jb[k].t);
        sim_probe("two threads with subprocesses of their own");
    } else { jb[0].t.ctx = &jb[0]; jb[0].t.id = 1; job_run(&jb[0].t); }
    cork_error_clear();
    CHECK(sim_nfds() == nfd0, "C10:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C10, run);
