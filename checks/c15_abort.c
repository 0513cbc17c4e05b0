/* C15: aborted and failing subprocesses are terminated and reaped, once. */
#include "sub_common.h"

struct job { struct member *m[40]; int n; struct cork_subprocess_group *g; uint64_t rng; struct thr t; };
#define CH(n) ((int) rndn(&j->rng, n))
static int failed_streams(struct job *j) { int i, f, k = 0; for (i = 0; i < j->n; i++) for (f = 1; f < 3; f++) k += j->m[i]->r[f].failed; return k; }
static void gone(struct job *j, int from, int to, const char *op)
{
    int i;
    for (i = from; i < to; i++) {
        struct child_obs *o = sub_obs(j->m[i]);
        if (!o) continue;
        CHECK(o->exited, "C15:left-running", "%s returned, but the child of member %d still runs", op, i);
        CHECK(o->reaped == 1, "C15:not-reaped", "%s returned, but the child of member %d was not reaped", op, i);
    }
}
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; struct member **m = j->m; struct cork_subprocess_group *g = j->g;
    int n = j->n, i, rc, steps, bad = 0, badm[40] = { 0 }, aborted = 0, frees_early;
    sim_label(t->id);
    if (CH(8) == 7) {                    /* nothing was started: nothing to do */
        rc = g ? cork_subprocess_group_abort(g) : cork_subprocess_abort(m[0]->sub);
        CHECK(rc == 0, "C15:abort", "aborting something not started failed with error %d", cork_error_code());
    }
    rc = g ? cork_subprocess_group_start(g) : cork_subprocess_start(m[0]->sub);
    CHECK(rc == 0, "C15:start", "start failed with error %d", cork_error_code());
    steps = 1 + CH(12);
    while (steps-- > 0 || !aborted) {
        int op = steps < 0 ? (bad ? 3 : CH(4) == 3 ? 1 : 3) : CH(6), one = g && CH(5) == 4 ? CH(n) : -1, fs = failed_streams(j), k, lo, hi, cause, e, forever = 0, code[40], re[40];
        uint32_t inj;
        lo = one >= 0 ? one : 0; hi = one >= 0 ? one + 1 : n;
        if (op >= 4) { if (op == 4) sim_sleep(1000ull * (1 + (uint64_t) CH(200000))); else sim_yield(); continue; }
        for (i = lo; i < hi; i++) { struct child_obs *o = sub_obs(m[i]); if (m[i]->s.n && (m[i]->s.ins[m[i]->s.n - 1].op == OP_WAITTERM || m[i]->s.ins[m[i]->s.n - 1].op == OP_FLOOD) && !(o && o->exited)) forever = 1; }
        if (op == 1 && forever) { op = 2; if (steps < 0) op = 3; }
        cork_error_clear(); sim_clear_last_injected();
        for (i = 0; i < n; i++) { struct child_obs *o = sub_obs(m[i]); code[i] = m[i]->code; re[i] = o ? o->reaped : 0; }
        (void) inj;
        switch (op) {
        case 1: {
            sim_log("wait");
            rc = one >= 0 ? cork_subprocess_wait(m[one]->sub) : g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[0]->sub);
            e = cork_error_code();
            cause = failed_streams(j) > fs ? 1 : sim_last_errno_injected() ? 2 : 0;
            CHECK((rc != 0) == (cause != 0), cause ? "C15:failure-hidden" : "C15:spurious-failure", "wait returned %d, error condition %d", rc, e);
            gone(j, lo, hi, "wait");
            sim_probe(cause ? "wait failed" : "wait succeeded");
            break; }
        case 2: case 0:
            sim_log("drain");
            if (one >= 0) cork_subprocess_drain(m[one]->sub); else if (g) cork_subprocess_group_drain(g); else cork_subprocess_drain(m[0]->sub);
            e = cork_error_code(); rc = 0;
            cause = failed_streams(j) > fs ? 1 : sim_last_errno_injected() ? 2 : 0;
            if (!cause) CHECK(!e, "C15:spurious-failure", "drain set error condition %d although nothing failed", e);
            if (cause) { gone(j, lo, hi, "failing drain"); sim_probe("drain failed"); }
            break;
        default:
            sim_log("abort");
            rc = one >= 0 ? cork_subprocess_abort(m[one]->sub) : g ? cork_subprocess_group_abort(g) : cork_subprocess_abort(m[0]->sub);
            CHECK(rc == 0, "C15:abort", "abort failed with error %d", cork_error_code());
            cause = 0; e = 0;
            gone(j, lo, hi, "abort");
            if (one < 0) aborted = 1;
            for (i = lo; i < hi; i++) if (re[i]) CHECK(m[i]->code == code[i], "C15:not-idle", "aborting member %d, which had ended, changed its exit status from %d to %d", i, code[i], m[i]->code);
            sim_probe("aborted");
            break;
        }
        if (cause) {
            if (cause == 1) CHECK((int) cork_error_code() == sub_fail_code, "C15:wrong-error", "the consumer failed with error %d, the error condition is %d", sub_fail_code, e);
            else CHECK(sim_reading_failed() ? sim_was_injected_reading(e) : sim_was_injected(e), "C15:wrong-error", "the system reported %d, the error condition is %d", sim_last_errno_injected(), e);
            bad = 1;
            for (i = lo; i < hi; i++) badm[i] = 1;
            for (k = lo; k < hi; k++) CHECK(cork_subprocess_is_finished(m[k]->sub), "C15:not-finished", "collecting output failed, everybody was terminated, but member %d does not count as finished", k);
        }
        for (i = 0; i < n; i++) { struct child_obs *o = sub_obs(m[i]); if (o) CHECK(o->reaped <= 1, "C15:reaped-twice", "member %d was reaped %d times", i, o->reaped); }
        sim_state(op * 4 + cause);
        if (bad && CH(3) == 0) break;
    }
    sim_faults_off++;
    frees_early = CH(3) == 0;
    /* somebody may still be running if only some members were terminated */
    if (bad) { CHECK((g ? cork_subprocess_group_abort(g) : cork_subprocess_abort(m[0]->sub)) == 0, "C15:abort", "abort failed with error %d", cork_error_code()); gone(j, 0, n, "abort"); }
    if (!frees_early) {
        int fs = failed_streams(j);
        rc = g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[0]->sub);
        CHECK(rc == 0 || failed_streams(j) > fs, "C15:wait", "wait after termination failed with error %d", cork_error_code());
        CHECK(g ? cork_subprocess_group_is_finished(g) : cork_subprocess_is_finished(m[0]->sub), "C15:not-finished", "not finished after waiting");
        if (rc == 0) for (i = 0; i < n; i++) if (!badm[i]) { sub_check_result(m[i]); }
    }
    gone(j, 0, n, "everything");
    if (g) cork_subprocess_group_free(g); else cork_subprocess_free(m[0]->sub);
    cork_error_clear();
    sim_faults_off--;
    sim_label(0);
}
static void run(void)
{
    struct job jb[2]; int i, f, k, nj, nfd0;
    memset(jb, 0, sizeof jb);
    sub_pick_env(); sub_init(); sub_guard(); nfd0 = sim_nfds();
    if (ch(F, 3)) sim_fault_enable(FT_SHORT_READ, chr_(F, 20, 300));
    if (ch(F, 3)) sim_fault_enable(FT_EINTR, chr_(F, 5, 300));
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    if (ch(F, 3) == 2) sim_fault_enable(FT_READ_ERR, chr_(F, 5, 100));
    if (ch(F, 4) == 3) sim_fault_enable(FT_CLOSE_ERR, chr_(F, 20, 400));
    sub_fail_code = ch(W, 3) ? 4242 : 0;
    nj = ch(W, 4) == 3 ? 2 : 1;
    for (k = 0; k < nj; k++) {
        struct job *j = &jb[k]; int many = 0;
        j->rng = rnd_seed(); j->n = 1;
        if (ch(W, 3)) { j->g = cork_subprocess_group_new(); j->n = 1 + ch(W, 3); if (nj == 1 && ch(W, 40) == 39) { j->n = 9 + (int) ch(W, ch(W, 2) ? 12 : 32); many = 1; sim_probe("a group of many"); } }
        for (i = 0; i < j->n; i++) {
            struct member *m = j->m[i] = sub_add(many ? G_KILL | G_FOREVER | G_QUIET : G_KILL | G_SPAWN | G_FOREVER | G_FLOOD);
            for (f = 1; f < 3; f++) if (ch(W, 5) == 4) m->r[f].fail_at = ch(W, 4);
            m->label = k + 1; m->nth = i;
            sub_make(m);
            if (j->g) cork_subprocess_group_add(j->g, m->sub);
        }
    }
    if (nj == 2) {
        for (k = 0; k < nj; k++) thr_start(&jb[k].t, k ? TK_PTHREAD : TK_TASK, k + 1, rnd_seed(), job_run, &jb[k]);
        for (k = 0; k < nj; k++) thr_join(&jb[k].t);
        sim_probe("two threads with subprocesses of their own");
    } else { jb[0].t.ctx = &jb[0]; jb[0].t.id = 1; job_run(&jb[0].t); }
    CHECK(sim_nfds() == nfd0, "C15:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    for (i = 0; i < sim_nchildren(); i++) CHECK(sim_child(i)->reaped == 1, "C15:not-reaped", "child %d was reaped %d times", i, sim_child(i)->reaped);
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C15, run);
