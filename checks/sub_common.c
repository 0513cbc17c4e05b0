/* Shared by C09-C15: subprocesses with scripted children and checking consumers. */
#include "sub_common.h"
#include <signal.h>

struct member mem_[NM];
int sub_nm, sub_events, sub_fail_code, sub_closed;

static int out_data(struct cork_stream_consumer *c, const void *buf, size_t n, bool first)
{
    struct rcv *r = cork_container_of(c, struct rcv, parent);
    struct member *m = r->m; struct child_obs *o;
    sim_point(0);
    sim_check_range(buf, n, 0, "data callback");
    o = sub_obs(m);
    sub_events++; m->events++;
    sim_log("member %d stream %d: %zu bytes%s", m->id, r->fd, n, first ? " (first)" : "");
    CHECK(n > 0, "C09:empty-chunk", "the consumer got an empty chunk");
    CHECK(!r->failed, "C15:delivery-after-failure", "stream %d of member %d: data after the consumer failed", r->fd, m->id);
    CHECK(!r->eofs, "C09:data-after-eof", "stream %d of member %d: data after the end of the stream", r->fd, m->id);
    CHECK(first == (r->calls == 0), "C09:first-flag", "stream %d of member %d: chunk %d is%s marked as the first one", r->fd, m->id, r->calls, first ? "" : " not");
    CHECK(o && r->got + n <= o->out_len[r->fd] && memcmp(o->out[r->fd] + r->got, buf, n) == 0, "C09:wrong-data",
          "stream %d of member %d: %zu bytes after %zu are not what the child wrote (%zu bytes so far)", r->fd, m->id, n, r->got, o ? o->out_len[r->fd] : 0);
    r->got += n;
    if (r->limit) CHECK(r->got <= r->limit, "C10:endless", "stream %d of member %d: one call goes on collecting what the child goes on writing", r->fd, m->id);
    if (m->slow_us) { uint64_t b = sim_my_blocks(); sim_sleep(1000ull * m->slow_us); m->blocks += sim_my_blocks() - b; }
    if (r->calls++ == r->fail_at) {
        r->failed = 1; sim_fault_note(FT_CALLBACK_FAIL);
        if (sub_fail_code) cork_error_set_printf(sub_fail_code, "consumer of member %d fails", m->id);
        return -1;
    }
    return 0;
}
static int out_eof(struct cork_stream_consumer *c)
{
    struct rcv *r = cork_container_of(c, struct rcv, parent);
    struct member *m = r->m; struct child_obs *o;
    sim_point(0);
    o = sub_obs(m);
    sub_events++; m->events++;
    sim_log("member %d stream %d: end of stream", m->id, r->fd);
    CHECK(!r->failed, "C15:delivery-after-failure", "stream %d of member %d: end of stream after the consumer failed", r->fd, m->id);
    CHECK(!r->eofs, "C09:two-eofs", "stream %d of member %d: second end of stream", r->fd, m->id);
    r->eofs++;
    CHECK(o, "C09:eof-too-early", "end of stream before the process was started");
    CHECK(r->got == o->out_len[r->fd], "C09:eof-too-early", "stream %d of member %d: end of stream after %zu of %zu bytes", r->fd, m->id, r->got, o->out_len[r->fd]);
    if (r->calls++ == r->fail_at) {
        r->failed = 1; sim_fault_note(FT_CALLBACK_FAIL);
        if (sub_fail_code) cork_error_set_printf(sub_fail_code, "consumer of member %d fails", m->id);
        return -1;
    }
    return 0;
}
static void out_free(struct cork_stream_consumer *c) { (void) c; }

static int body(void *ud)
{
    struct member *m = ud;
    if (m->uses) {                          /* the body may use the library, which was just in use when it forked */
        struct cork_exec *x = cork_exec_new_with_params("/bin/inner", "an argument", (char *) 0);
        struct cork_subprocess *s = cork_subprocess_new_exec(x, 0, 0, 0);
        struct cork_subprocess_group *g = cork_subprocess_group_new();
        cork_subprocess_group_add(g, s);
        CHECK(cork_subprocess_is_finished(s), "C09:body-library", "a new subprocess object is not finished in the body of member %d", m->id);
        if (m->uses == 2) cork_subprocess_group_abort(g);
        cork_subprocess_group_free(g);
    }
    sim_child_script(&m->s);
    if (m->ret_fail) { if (m->ret_fail == 2) cork_error_set_printf(77, "body of member %d fails", m->id); return m->ret_val; }
    return 0;
}
static int exec_cb(const char *program, struct script *out)
{
    int id; const char *b = strrchr(program, '/');
    if (b && (b - program > 2100 || strlen(b) > 20)) return ENAMETOOLONG;
    if (sscanf(b ? b + 1 : program, "prog%d", &id) != 1 || id < 0 || id >= sub_nm) return ENOENT;
    *out = mem_[id].s;
    return 0;
}
static void guard(const char *call)
{
    (void) call;
    if (sim_now - sim_activity_ns > 120ull * 1000000000ull)
        sim_fail("C11:no-end", "no child has done anything for 120 simulated seconds (%d still exist), and the library is still busy in %s", sim_procs_alive(), call);
}
void sub_guard(void) { sim_syscall_cb = guard; }

void sub_pick_env(void)
{
    static const size_t caps[] = { 65536, 4096, 512, 64, 16, 3 };
    int f;
    sub_closed = 0;
    sim_pipe_cap = caps[ch(F, 6)];
    if (ch(W, 10) == 9) {                   /* a daemon whose standard streams are closed: pipes get their numbers */
        sim_faults_off++;
        for (f = 0; f < 3; f++) if (ch(W, 2)) { sim_close(f); sub_closed = 1; }
        sim_faults_off--;
        if (sub_closed) sim_probe("standard descriptors closed");
    }
}
void sub_init(void)
{
    memset(mem_, 0, sizeof mem_); sub_nm = 0; sub_events = 0; sub_fail_code = 0;
    sim_exec_cb = exec_cb;
    sim_step_limit = 6000000;
}
static int size_pick(int flags)
{
    static const int z[] = { 1, 2, 40, 4095, 4096, 4097, 8192, 5000, 300, 12288 };
    int big = (flags & G_BIG) || sim_pipe_cap >= 512;
    int n = ch(W, 2) ? (int) ch(W, 200) : z[ch(W, 10)];
    if (ch(W, 5) == 0) n = (int) sim_pipe_cap + (int) ch(W, 3) - 1;
    if (flags & G_BIG && ch(W, 4) == 0) n = (int) sim_pipe_cap * 2 + (int) ch(W, 100);
    if (n > 150000) n = 150000;
    if (!big && n > 20 * (int) sim_pipe_cap) n = 20 * (int) sim_pipe_cap;
    return n;
}
void sub_script(struct member *m, int flags)
{
    static const int us[] = { 0, 10, 300, 2000, 26000, 90000, 400000 };
    int k, n = ch(W, flags & G_QUIET ? 3 : 7); struct script *s = &m->s;
    memset(s, 0, sizeof *s);
    s->tag = m->id + 1;
    for (k = 0; k < n; k++) switch (ch(W, 10)) {
    case 0: case 1: case 2: script_add(s, OP_WRITE, 1 | (ch(W, 3) ? 0 : 1 + ch(W, 700)) << 8, size_pick(flags)); break;
    case 3: case 4: case 5: script_add(s, OP_WRITE, 2 | (ch(W, 3) ? 0 : 1 + ch(W, 700)) << 8, size_pick(flags)); break;
    case 6: case 7: script_add(s, OP_SLEEP, us[ch(W, 7)], 0); break;
    case 8: if (ch(W, 2)) script_add(s, OP_CLOSE, 1 + ch(W, 2), 0); break;
    case 9: if (flags & G_SPAWN && ch(W, 2)) script_add(s, OP_SPAWN, us[ch(W, 7)], ch(W, 8)); break;
    }
    if (flags & G_FLOOD && (m->want[1] || m->want[2]) && ch(W, 6) == 5) {      /* as much as the parent takes, and more */
        int fd = !m->want[2] || (m->want[1] && ch(W, 2)) ? 1 : 2;
        script_add(s, OP_FLOOD, fd | (sim_pipe_cap > 4096 ? 255 + 256 * ch(W, 16) : ch(W, 256)) << 8, 0); sim_probe("child writes without end");
        return;
    }
    if (flags & G_FOREVER && ch(W, 3) == 0) { script_add(s, OP_WAITTERM, 0, 0); return; }
    if (flags & G_KILL && ch(W, 5) == 0) { static const int sg[] = { SIGKILL, SIGTERM, SIGSEGV, SIGINT, SIGABRT }; script_add(s, OP_KILLSELF, sg[ch(W, 5)], 0); return; }
    if (ch(W, 2)) { static const int ec[] = { 0, 1, 2, 127, 128, 143, 255 }; script_add(s, OP_EXIT, ch(W, 2) ? ec[ch(W, 7)] : (int) ch(W, 256), 0); }
}
struct member *sub_add(int flags)
{
    struct member *m = &mem_[sub_nm]; int f;
    memset(m, 0, sizeof *m);
    m->id = sub_nm++;
    m->nominal = -1;
    m->exec = ch(W, 2);
    m->want[1] = ch(W, 5) != 4; m->want[2] = ch(W, 5) != 4; m->want_code = ch(W, 4) != 3;
    m->ret_fail = m->exec ? 0 : ch(W, 5) == 4 ? 1 + ch(W, 2) : 0;
    m->uses = m->exec ? 0 : ch(W, 8) < 6 ? 0 : 1 + ch(W, 2);
    if (m->ret_fail) { static const int rv[] = { -1, 1, 256, 2, 255, 512, -256, INT_MIN, INT_MAX, 0x10000 }; m->ret_val = ch(W, 2) ? rv[ch(W, 10)] : -1; }
    for (f = 1; f < 3; f++) {
        struct rcv *r = &m->r[f];
        r->parent.data = out_data; r->parent.eof = out_eof; r->parent.free = out_free;
        r->m = m; r->fd = f; r->fail_at = -1;
    }
    m->code = -77;
    if (ch(W, 6) == 5) { static const int us[] = { 6, 20, 100, 1000 }; m->slow_us = us[ch(W, 4)]; }
    sub_script(m, flags);
    return m;
}
void sub_make(struct member *m)
{
    struct cork_stream_consumer *o = m->want[1] ? &m->r[1].parent : NULL, *e = m->want[2] ? &m->r[2].parent : NULL;
    int *code = m->want_code ? &m->code : NULL;
    if (m->exec) {
        char nm[20];
        snprintf(nm, sizeof nm, "prog%d", m->id);
        m->sub = cork_subprocess_new_exec(cork_exec_new_with_params(nm, "an argument", NULL), o, e, code);
    } else m->sub = cork_subprocess_new(m, NULL, body, o, e, code);
}
int sub_kid(struct member *m)
{
    int i;
    for (i = sim_nchildren() - 1; i >= 0; i--) if (sim_child(i)->tag == m->id + 1) return i;
    if (m->label) { int n = 0; for (i = 0; i < sim_nchildren(); i++) if (sim_child(i)->label == m->label && n++ == m->nth) return i; return -1; }
    return m->nominal >= 0 && m->nominal < sim_nchildren() ? m->nominal : -1;
}
struct child_obs *sub_obs(struct member *m) { int k = sub_kid(m); return k < 0 ? 0 : sim_child(k); }
int sub_ended(struct member *m)
{
    struct child_obs *o = sub_obs(m);
    return o && o->reaped && (!m->want[1] || m->r[1].eofs) && (!m->want[2] || m->r[2].eofs);
}
int sub_reaps(void) { int i, n = 0; for (i = 0; i < sim_nchildren(); i++) n += sim_child(i)->reaped; return n; }
static int has_exit(const struct script *s) { int k; for (k = 0; k < s->n; k++) if (s->ins[k].op == OP_EXIT) return 1; return 0; }
void sub_check_result(struct member *m)
{
    struct child_obs *o = sub_obs(m); int f;
    CHECK(o && o->exited, "C11:not-ended", "member %d is said to have finished, but its child still runs", m->id);
    CHECK(o->reaped == 1, "C11:not-reaped", "member %d finished, but its child was reaped %d times", m->id, o->reaped);
    for (f = 1; f < 3; f++) if (m->want[f]) {
        CHECK(m->r[f].got == o->out_len[f], "C09:lost-output", "stream %d of member %d: %zu of %zu bytes arrived", f, m->id, m->r[f].got, o->out_len[f]);
        CHECK(m->r[f].eofs == 1, "C09:no-eof", "stream %d of member %d: the end of the stream was signalled %d times", f, m->id, m->r[f].eofs);
    } else CHECK(m->r[f].calls == 0, "C09:unrequested", "stream %d of member %d was not requested", f, m->id);
    if (!m->exec && !o->killed_by && !has_exit(&m->s))
        CHECK((m->ret_fail != 0) == (o->exit_code != 0), "C09:body-result", "the body of member %d returned %d, its process exited with %d", m->id, m->ret_fail ? m->ret_val : 0, o->exit_code);
    if (m->want_code) {
        if (o->killed_by) CHECK(m->code != 0 && m->code != -77, "C09:killed-is-success", "member %d was killed by signal %d, the exit status reported is %d", m->id, o->killed_by, m->code);
        else CHECK(m->code == o->exit_code, "C09:exit-status", "member %d exited with %d, the exit status reported is %d", m->id, o->exit_code, m->code);
    }
}
