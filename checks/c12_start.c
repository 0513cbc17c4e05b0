/* C12: a failed start leaves nothing behind. */
#include "sub_common.h"
#include <fcntl.h>

static const int hard_errs[] = { EMFILE, ENFILE, EINVAL, ENOMEM, EAGAIN, ENOSYS };
/* another thread with a subprocess of its own, which may not be harmed */
struct other { struct member *m; uint64_t rng; int abort; struct thr t; };
static void other_run(struct thr *t)
{
    struct other *x = t->ctx; int rc, k;
    sim_label(t->id);
    for (k = rndn(&x->rng, 4); k > 0; k--) if (rndn(&x->rng, 2)) sim_yield(); else sim_sleep(1 + rndn(&x->rng, 3000));
    sim_clear_last_injected(); cork_error_clear();
    rc = cork_subprocess_start(x->m->sub);
    if (rc) { CHECK(sim_was_injected(cork_error_code()), "C12:bystander", "starting another thread's subprocess fails with error %d", cork_error_code()); sim_probe("start fails in two threads"); }
    else {
        cork_error_clear();
        if (x->abort) CHECK(cork_subprocess_abort(x->m->sub) == 0, "C12:bystander", "aborting another thread's subprocess fails");
        rc = cork_subprocess_wait(x->m->sub);
        CHECK(rc == 0 || sim_last_errno_injected(), "C12:bystander", "waiting for another thread's subprocess fails with error %d", cork_error_code());
        if (rc == 0) sub_check_result(x->m);
    }
    cork_subprocess_free(x->m->sub);
    sim_label(0);
}
static int count(int label) { int i, k = 0; for (i = 0; i < sim_nchildren(); i++) k += sim_child(i)->label == label; return k; }
static void run(void)
{
    struct other ot; int nt;
    struct cork_subprocess_group *g = NULL; struct member *m[40], *by = NULL;
    int many = 0, n, i, k, rc, e, nfd0, nfd1, started, hard = 0, canary[6], nc = 0, held = 0, bykids; void *cofd[6];
    sub_pick_env(); sub_init(); sub_guard();
    sim_faults_off++;
    nfd0 = sim_nfds();
    if (ch(W, 3) == 2) {                    /* somebody else is already running, with open pipes */
        by = sub_add(G_SPAWN | G_QUIET); sub_make(by);
        CHECK(cork_subprocess_start(by->sub) == 0, "C12:start", "start failed");
    }
    bykids = sim_nchildren();
    nfd1 = sim_nfds();
    memset(&ot, 0, sizeof ot);
    nt = ch(W, 4) == 3;
    if (nt) { ot.m = sub_add(G_KILL | G_SPAWN | G_QUIET); ot.m->label = 2; ot.rng = rnd_seed(); ot.abort = ch(W, 3) == 2; sub_make(ot.m); }
    n = 1;
    if (ch(W, 3)) { g = cork_subprocess_group_new(); n = 1 + ch(W, 4); many = !nt && ch(W, 40) == 39; if (many) { n = 9 + (int) ch(W, ch(W, 2) ? 12 : 32); sim_probe("a group of many"); } }
    for (i = 0; i < n; i++) {
        m[i] = sub_add(G_KILL | G_FOREVER | G_QUIET);
        m[i]->label = 1; m[i]->nth = i;
        sub_make(m[i]);
        if (g) cork_subprocess_group_add(g, m[i]->sub);
    }
    k = many ? 20 : 1;                      /* rarer, so that later members are reached */
    if (ch(F, 2)) sim_fault_enable(FT_PIPE_ERR, 1 + chr_(F, 20, 300) / k);
    if (ch(F, 2)) sim_fault_enable(FT_FCNTL_ERR, 1 + chr_(F, 20, 300) / k);
    if (ch(F, 2)) sim_fault_enable(FT_FORK_ERR, 1 + chr_(F, 20, 500) / k);
    if (ch(F, 3) == 2) sim_fault_enable(FT_CLOSE_ERR, 1 + chr_(F, 20, 400) / k);
    if (ch(F, 3) == 2) sim_fault_enable(FT_EINTR, chr_(F, 20, 400));
    if (ch(F, 3) == 2) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    sim_faults_off--;
    sim_label(1);
    if (nt) thr_start(&ot.t, ch(W, 2) ? TK_TASK : TK_PTHREAD, 2, rnd_seed(), other_run, &ot);
    cork_error_clear(); sim_clear_last_injected();
    dirty_stack();
    rc = g ? cork_subprocess_group_start(g) : cork_subprocess_start(m[0]->sub);
    e = cork_error_code();
    for (i = 0; i < 6; i++) if (sim_was_injected(hard_errs[i])) hard = hard_errs[i];
    started = count(1);
    sim_log("start returned %d, error %d, %d children", rc, e, started);
    sim_state(rc * 64 + hard * 8 + started);
    sim_faults_off++;
    if (rc == 0) {
        CHECK(!cork_error_occurred(), "C12:error-on-success", "start succeeded, but left error condition %d", e);
        CHECK(!hard, "C12:failure-hidden", "a call failed with %d, but start reports success", hard);
        CHECK(started == n, "C12:not-started", "%d of %d processes were started", started, n);
    } else {
        CHECK(rc == -1 && cork_error_occurred(), "C12:no-error", "start returned %d, error condition %d", rc, e);
        CHECK(sim_was_injected(e) && (!hard || e == hard), "C12:wrong-error", "the system reported %d, start reports %d", hard, e);
        for (i = bykids; i < sim_nchildren(); i++) {
            struct child_obs *o = sim_child(i);
            if (o->label != 1) continue;
            CHECK(o->exited, "C12:left-running", "start failed, but child %d still runs", i);
            CHECK(o->reaped == 1, "C12:zombie", "start failed, but child %d was not reaped", i);
        }
        for (i = 0; i < started && i < n; i++) held += 1 + m[i]->want[1] + m[i]->want[2];
        if (!nt) CHECK(sim_nfds() <= nfd1 + held, "C12:fd-leak", "%d descriptors are open after the failure, %d before, %d belong to members that were started", sim_nfds(), nfd1, held);
        if (started < n) CHECK(cork_subprocess_is_finished(m[started]->sub), "C12:not-finished", "the member that could not be started does not count as finished");
        sim_probe(started ? "later member failed" : "first member failed");
        if (e == EIO) sim_probe("close failure reported");
    }
    /* descriptors opened by somebody else must not be hit by a second close */
    fs_mk("/canary", 'f', "x", 0644);
    nc = ch(W, 7);
    for (k = 0; k < nc; k++) { canary[k] = sim_open_file_fd("/canary", O_RDONLY); cofd[k] = sim_fd_ofd(canary[k]); }
    cork_error_clear();
    if (rc && !g && ch(W, 2)) {             /* try again */
        sim_kill_all();
        rc = cork_subprocess_start(m[0]->sub);
        CHECK(rc == 0, "C12:restart", "a second start failed with error %d", cork_error_code());
        m[0]->nth = count(1) - 1;
        started = 1;
        sim_probe("started at the second attempt");
    }
    if (rc == 0) for (i = 0; i < n; i++) { /* end those that run forever */
        struct child_obs *o = sub_obs(m[i]);
        if (m[i]->s.n && m[i]->s.ins[m[i]->s.n - 1].op == OP_WAITTERM && !o->exited) CHECK(cork_subprocess_abort(m[i]->sub) == 0, "C12:abort", "abort failed");
    }
    CHECK((g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[0]->sub)) == 0, "C12:wait", "wait failed with error %d", cork_error_code());
    CHECK(g ? cork_subprocess_group_is_finished(g) : cork_subprocess_is_finished(m[0]->sub), "C12:not-finished", "not finished after waiting");
    if (rc == 0) for (i = 0; i < n; i++) sub_check_result(m[i]);
    if (g) cork_subprocess_group_free(g); else cork_subprocess_free(m[0]->sub);
    for (k = 0; k < nc; k++) {
        CHECK(sim_fd_ofd(canary[k]) == cofd[k], "C12:foreign-close", "descriptor %d, opened by somebody else, was closed", canary[k]);
        sim_close(canary[k]);
    }
    if (nt) thr_join(&ot.t);
    CHECK(sim_nfds() == nfd1, "C12:fd-leak", "%d descriptors are open after freeing, %d before", sim_nfds(), nfd1);
    if (by) {
        CHECK(cork_subprocess_wait(by->sub) == 0, "C12:bystander", "waiting for the other subprocess failed");
        sub_check_result(by);
        cork_subprocess_free(by->sub);
    }
    CHECK(sim_zombies() == 0, "C12:zombie", "%d children were not reaped", sim_zombies());
    CHECK(sim_nfds() == nfd0, "C12:fd-leak", "%d descriptors are open after freeing, %d before", sim_nfds(), nfd0);
    sim_faults_off--;
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C12, run);
