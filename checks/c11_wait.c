/* C11: waiting ends soon after the children have ended, whatever they write. */
#include "sub_common.h"

struct job { struct member *m[40]; int n; struct cork_subprocess_group *g; struct thr t; };
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; struct member **m = j->m; struct cork_subprocess_group *g = j->g; int n = j->n, i, f, rc, total = 0; uint64_t late;
    sim_label(t->id);
    rc = g ? cork_subprocess_group_start(g) : cork_subprocess_start(m[0]->sub);
    CHECK(rc == 0, "C11:start", "start failed with error %d", cork_error_code());
    rc = g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[0]->sub);
    CHECK(rc == 0, "C11:wait", "wait failed with error %d although nothing failed", cork_error_code());
    late = sim_now - sim_proc_event_ns;
    for (i = 0; i < n; i++) {
        sub_check_result(m[i]);
        for (f = 1; f < 3; f++) if (sub_obs(m[i])->out_len[f] > sim_pipe_cap) total++;
    }
    CHECK(late < 1000000000ull, "C11:late", "wait returned %.3f simulated seconds after the last child had ended", late / 1e9);
    rc = g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[0]->sub);
    CHECK(rc == 0, "C11:wait", "waiting again failed with error %d", cork_error_code());
    if (total > 1) sim_probe("several streams exceed their pipe");
    if (g) cork_subprocess_group_free(g); else cork_subprocess_free(m[0]->sub);
    sim_state(total * 1000 + late / 1000000);
    sim_label(0);
}
static void run(void)
{
    struct job jb[2]; int i, k, q, nj, nfd0;
    memset(jb, 0, sizeof jb);
    sub_pick_env(); sub_init(); sub_guard(); nfd0 = sim_nfds();
    if (ch(F, 3)) sim_fault_enable(FT_SHORT_READ, chr_(F, 20, 300));
    if (ch(F, 3)) sim_fault_enable(FT_EINTR, chr_(F, 5, 200));
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    nj = ch(W, 4) == 3 ? 2 : 1;
    for (q = 0; q < nj; q++) {
        struct job *j = &jb[q]; int flood = 0, many = 0;
        j->n = 1;
        if (ch(W, 3)) { j->g = cork_subprocess_group_new(); j->n = 1 + ch(W, 3); if (nj == 1 && ch(W, 40) == 39) { j->n = 9 + (int) ch(W, ch(W, 2) ? 12 : 32); many = 1; sim_probe("a group of many"); } }
        for (i = 0; i < j->n; i++) {
            struct script *s; struct member *m;
            m = j->m[i] = sub_add(many ? G_KILL | G_QUIET : G_KILL | G_SPAWN | G_BIG);
            m->label = q + 1; m->nth = i;
            s = &m->s;
            if (i > 0 && !flood && ch(W, 6) == 5 && (m->want[1] || m->want[2]) && s->n < 60) {     /* one writes and writes until another one has ended */
                int fd = m->want[1] ? 1 : 2, o = ch(W, i);
                for (k = 0; k < s->n; k++) if (s->ins[k].op == OP_KILLSELF || s->ins[k].op == OP_EXIT) s->n = k;
                script_add(s, OP_FLOOD, fd | (sim_pipe_cap > 4096 ? 255 + 256 * ch(W, 16) : ch(W, 256)) << 8, j->m[o]->id + 1);
                flood = 1; sim_probe("child writes until another one has ended");
                for (o = 0; o < i; o++) for (k = 0; k < j->m[o]->s.n; k++) if (j->m[o]->s.ins[k].op == OP_SLEEP && j->m[o]->s.ins[k].a > 26000) j->m[o]->s.ins[k].a = 26000;
            } else if (ch(W, 20) == 19) {              /* now and then somebody needs long */
                static const int us[] = { 3000000, 20000000, 60000000 };
                int at = ch(W, s->n + 1);
                for (k = s->n; k > at; k--) s->ins[k] = s->ins[k - 1];
                s->ins[at].op = OP_SLEEP; s->ins[at].a = us[ch(W, 3)]; s->n++;
                sim_probe("child sleeps for seconds");
            }
            sub_make(m);
            if (j->g) cork_subprocess_group_add(j->g, m->sub);
        }
    }
    if (nj == 2) {
        for (q = 0; q < nj; q++) thr_start(&jb[q].t, q ? TK_PTHREAD : TK_TASK, q + 1, rnd_seed(), job_run, &jb[q]);
        for (q = 0; q < nj; q++) thr_join(&jb[q].t);
        sim_probe("two threads with subprocesses of their own");
    } else { jb[0].t.ctx = &jb[0]; jb[0].t.id = 1; job_run(&jb[0].t); }
    CHECK(sim_zombies() == 0, "C11:not-reaped", "%d children were not reaped", sim_zombies());
    CHECK(sim_nfds() == nfd0, "C11:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    cork_error_clear();
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C11, run);
