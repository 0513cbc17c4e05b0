/* C13: what is sent to a subprocess's stdin arrives, then the end of file. */
#include "sub_common.h"
#include <fcntl.h>
#include <stdlib.h>

enum { READER, PARTIAL, CATTER, IDLE, QUITTER };
struct feed {
    struct member *m; int kind, quits, eof, failed, sent_eof, alive_at_call, viaconsume; char *data; size_t len, accepted;
};
struct job { int group, n; struct feed f[3]; struct cork_subprocess_group *g; uint64_t rng; struct thr t; };

/* does the child hold (or will it take over) the read end? */
static int can_read(struct feed *f) { struct child_obs *o = sub_obs(f->m); return o && !o->exited; }
static int is_reading_all(struct feed *f) { return f->kind == READER || f->kind == CATTER; }

static void send_some(struct job *j, struct feed *f)
{
    static const int z[] = { 1, 7, 100, 4095, 4096, 4097, 10000 };
    size_t n, i; char *b; int rc, e; struct cork_stream_consumer *c = cork_subprocess_stdin(f->m->sub);
    n = rndn(&j->rng, 2) ? z[rndn(&j->rng, 7)] : rndn(&j->rng, 60);
    if (rndn(&j->rng, 8) == 7) n = sim_pipe_cap + rndn(&j->rng, 3) - 1;
    if (rndn(&j->rng, 20) == 19) n = 50000 + rndn(&j->rng, 100000);
    if (n > 40 * sim_pipe_cap) n = 40 * sim_pipe_cap;
    if (f->kind == IDLE) { size_t room = sim_pipe_cap > f->len ? sim_pipe_cap - f->len : 0; if (n > room) n = room; if (n > 20) n = 20; }
    b = sim_malloc(n + 1);
    f->data = realloc(f->data, f->len + n + 1);
    for (i = 0; i < n; i++) b[i] = f->data[f->len + i] = (char) rnd(&j->rng);
    f->len += n;
    sim_clear_last_injected(); cork_error_clear();
    sim_log("send %zu bytes to member %d", n, f->m->id);
    if (f->viaconsume && rndn(&j->rng, 2)) {
        char p[32]; int src;
        sim_faults_off++;
        snprintf(p, sizeof p, "/src%d", f->m->id);
        fs_mk(p, 'f', "", 0644); fs_set_data(fs_look(p, 1), b, n);
        src = sim_open_file_fd(p, O_RDONLY);
        sim_faults_off--;
        rc = cork_consume_fd(c, src);
        e = cork_error_code();
        sim_faults_off++; sim_close(src); sim_faults_off--;
        if (rc && sim_was_injected(EIO) && strcmp(sim_last_call_injected(), "close") == 0) rc = 0;  /* only the final close */
        if (!rc) f->sent_eof = 1;
    } else { rc = cork_stream_consumer_data(c, b, n, f->len == n); e = cork_error_code(); }
    sim_free(b);
    if (rc == 0) { f->accepted = f->len; if (!f->sent_eof) CHECK(!cork_error_occurred(), "C13:error-on-success", "success with error condition %d", e); }
    else {
        f->failed = 1;
        CHECK(rc == -1 && cork_error_occurred(), "C13:no-error", "data returned %d, error condition %d", rc, e);
        if (sim_last_errno_injected()) CHECK(sim_was_injected(e), "C13:wrong-error", "the system reported %d, data reports %d", sim_last_errno_injected(), e);
        else {
            CHECK(e == EPIPE, "C13:spurious-failure", "data failed with error %d although nothing failed", e);
            CHECK(!is_reading_all(f) || !can_read(f), "C13:spurious-failure", "EPIPE although the child is reading");
            sim_probe("child closed its stdin early");
        }
    }
    cork_error_clear();
}
static void send_eof(struct feed *f)
{
    int rc;
    sim_clear_last_injected();
    sim_log("end of stdin of member %d", f->m->id);
    rc = cork_stream_consumer_eof(cork_subprocess_stdin(f->m->sub));
    if (rc) { CHECK(sim_last_errno_injected() && cork_error_code() == (cork_error) sim_last_errno_injected(), "C13:spurious-failure", "eof failed with error %d", cork_error_code()); cork_error_clear(); }
    f->sent_eof = 1;
}
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; int i, k, rc, steps, single_starts = 0;
    if (j->group) j->g = cork_subprocess_group_new();
    for (i = 0; i < j->n; i++) { sub_make(j->f[i].m); if (j->group) cork_subprocess_group_add(j->g, j->f[i].m->sub); }
    if (j->group) rc = cork_subprocess_group_start(j->g);
    else { rc = cork_subprocess_start(j->f[0].m->sub); single_starts = 1; }
    CHECK(rc == 0, "C13:start", "start failed with error %d", cork_error_code());
    steps = rndn(&j->rng, 16);
    while (steps--) {
        struct feed *f;
        if (single_starts && single_starts < j->n && rndn(&j->rng, 3) == 0) {
            CHECK(cork_subprocess_start(j->f[single_starts].m->sub) == 0, "C13:start", "start failed with error %d", cork_error_code());
            single_starts++;
        }
        f = &j->f[rndn(&j->rng, single_starts ? single_starts : j->n)];
        if (f->failed || f->sent_eof) continue;
        if (rndn(&j->rng, 6) == 5) send_eof(f); else send_some(j, f);
        if (rndn(&j->rng, 4) == 3) sim_sleep(1000ull * (1 + rndn(&j->rng, 30000)));
    }
    while (single_starts && single_starts < j->n) {
        CHECK(cork_subprocess_start(j->f[single_starts].m->sub) == 0, "C13:start", "start failed with error %d", cork_error_code());
        single_starts++;
    }
    /* now every reader gets its end of file, although others may live on */
    for (k = 0; k < j->n; k++) if (is_reading_all(&j->f[k])) {
        struct feed *f = &j->f[k]; struct child_obs *o = sub_obs(f->m); uint64_t limit;
        if (!f->sent_eof) send_eof(f);
        limit = sim_now + 20000000000ull;
        while (!cork_subprocess_is_finished(f->m->sub)) {
            if (sim_now > limit) sim_fail(o->in_eof ? "C13:not-ended" : "C13:eof-withheld", "the child of member %d was told the end of its stdin 20 simulated seconds ago and %s", f->m->id, o->in_eof ? "has not ended" : "has not seen it");
            cork_subprocess_drain(f->m->sub);
            sim_sleep(1000000ull);
        }
        for (i = 0; i < j->n; i++) if (i != k && sub_kid(j->f[i].m) >= 0 && sim_child_alive(sub_kid(j->f[i].m))) sim_probe("reader ended before its siblings");
    }
    for (k = 0; k < j->n; k++) if (!j->f[k].sent_eof && rndn(&j->rng, 2)) send_eof(&j->f[k]);
    for (k = 0; k < j->n; k++) if (j->f[k].kind == IDLE) CHECK(cork_subprocess_abort(j->f[k].m->sub) == 0, "C13:abort", "abort failed with error %d", cork_error_code());
    for (k = 0; k < j->n; k++) if (!j->f[k].sent_eof) send_eof(&j->f[k]);
    if (j->group) rc = cork_subprocess_group_wait(j->g);
    else for (rc = k = 0; k < j->n; k++) rc |= cork_subprocess_wait(j->f[k].m->sub);
    CHECK(rc == 0, "C13:wait", "wait failed with error %d", cork_error_code());
    for (k = 0; k < j->n; k++) {
        struct feed *f = &j->f[k]; struct child_obs *o = sub_obs(f->m);
        CHECK(o->in_len <= f->len && memcmp(o->in ? o->in : "", f->data ? f->data : "", o->in_len) == 0, "C13:wrong-data", "member %d read %zu bytes, which are not a prefix of the %zu bytes sent", f->m->id, o->in_len, f->len);
        if (is_reading_all(f)) {
            CHECK(o->in_eof, "C13:no-eof", "member %d has not seen the end of its stdin", f->m->id);
            CHECK(o->in_len >= f->accepted, "C13:lost", "member %d read %zu of the %zu bytes that were accepted", f->m->id, o->in_len, f->accepted);
        }
        sub_check_result(f->m);
        sim_state(o->in_len % 64 + f->kind * 64);
        free(f->data);
    }
    if (j->group) cork_subprocess_group_free(j->g); else for (k = 0; k < j->n; k++) cork_subprocess_free(j->f[k].m->sub);
}
static void run(void)
{
    static const int us[] = { 10, 300, 5000, 60000 };
    struct job jb[2]; int nj, i, k, nfd0;
    memset(jb, 0, sizeof jb);
    sub_pick_env(); sub_init(); sub_guard(); nfd0 = sim_nfds();
    if (ch(F, 3)) sim_fault_enable(FT_SHORT_WRITE, chr_(F, 20, 400));
    if (ch(F, 3)) sim_fault_enable(FT_EINTR, chr_(F, 5, 200));
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    if (ch(F, 4) == 3) sim_fault_enable(FT_WRITE_ERR, chr_(F, 5, 60));
    nj = ch(W, 4) == 3 ? 2 : 1;
    for (k = 0; k < nj; k++) {
        struct job *j = &jb[k];
        j->group = ch(W, 2); j->n = 1 + ch(W, 3); j->rng = rnd_seed();
        for (i = 0; i < j->n; i++) {
            struct feed *f = &j->f[i]; struct script *s; int p;
            f->m = sub_add(G_QUIET); f->m->ret_fail = 0; f->m->want[1] = ch(W, 2); f->m->want[2] = ch(W, 2);
            f->kind = ch(W, 5); f->viaconsume = ch(W, 5) == 4;
            s = &f->m->s; s->n = 0;
            if (ch(W, 3) == 2) script_add(s, OP_SLEEP, us[ch(W, 4)], 0);
            switch (f->kind) {
            case READER: for (p = ch(W, 3); p > 0; p--) { script_add(s, OP_READ, 1 + ch(W, 300), 1 + ch(W, 500)); script_add(s, OP_SLEEP, us[ch(W, 4)], 0); } script_add(s, OP_READ_ALL, ch(W, 2) ? 0 : 1 + (int) ch(W, 300), 0); break;
            case PARTIAL: script_add(s, OP_READ, 1 + ch(W, 300), 1 + ch(W, 500)); script_add(s, OP_CLOSE, 0, 0); script_add(s, OP_SLEEP, us[ch(W, 4)], 0); break;
            case CATTER: f->m->want[1] = 0; script_add(s, OP_CAT, ch(W, 2) ? 0 : 1 + (int) ch(W, 300), 0); break;
            case IDLE: script_add(s, OP_WAITTERM, 0, 0); break;
            case QUITTER: break;
            }
            if (f->kind != IDLE && f->kind != QUITTER && ch(W, 2)) script_add(s, OP_WRITE, 2, 1 + ch(W, 20));
        }
    }
    if (nj == 2) {
        for (k = 0; k < nj; k++) thr_start(&jb[k].t, k ? TK_PTHREAD : TK_TASK, k + 1, rnd_seed(), job_run, &jb[k]);
        for (k = 0; k < nj; k++) thr_join(&jb[k].t);
    } else { jb[0].t.ctx = &jb[0]; job_run(&jb[0].t); }
    CHECK(sim_nfds() == nfd0, "C13:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    cork_error_clear();
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C13, run);
