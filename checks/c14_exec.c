/* C14: a program is executed with exactly the requested arguments,
 * environment, working directory and standard streams. */
#include "sub_common.h"
#include <fcntl.h>
#include <stdlib.h>

#define NE 460
struct envm { int n; char name[NE][24]; char *val[NE]; };
static void em_del(struct envm *e, const char *nm)
{
    int i;
    for (i = 0; i < e->n; i++) if (!strcmp(e->name[i], nm)) {
        e->n--; memmove(e->name[i], e->name[e->n], sizeof e->name[0]); e->val[i] = e->val[e->n];
        return;
    }
}
static void em_set(struct envm *e, const char *nm, const char *v)
{
    em_del(e, nm);
    if (e->n == NE) return;
    snprintf(e->name[e->n], sizeof e->name[0], "%s", nm); e->val[e->n] = strdup(v); e->n++;
}
static const char *em_get(struct envm *e, const char *nm)
{
    int i;
    for (i = 0; i < e->n; i++) if (!strcmp(e->name[i], nm)) return e->val[i];
    return 0;
}
static const char *const names[] = { "HOME", "A", "AB", "PATH", "X_1", "a", "LONGER_NAME_12345", "TZ" };
#define LONG 6000
static uint64_t vr; static int longs, vast;                          /* this run has long arguments, values, directories and program names */
static char deep[2][4096];                 /* two long directories, absolute and relative to /w */
static void rnd_text(char *b, int max)      /* b: LONG bytes */
{
    static const char cs[] = "abcXYZ09 =%/:.-_\"'$";
    int i, n = ch(W, 4) ? (int) ch(W, 12) : (int) ch(W, max);
    if (longs && ch(W, 4) == 3) {
        n = 200 + (int) ch(W, LONG - 400);
        for (i = 0; i < n; i++) b[i] = cs[(i * 7 + i / 18 + n) % 18];
        b[n] = 0;
        return;
    }
    for (i = 0; i < n; i++) b[i] = cs[ch(W, sizeof cs - 1)];
    b[n] = 0;
}
/* a random history of edits, mirrored in the model */
static void env_edit(struct cork_env *env, struct envm *e)
{
    const char *nm, *g; char v[LONG], w[LONG], nb[24]; const char *x;
    if (vast && rndn(&vr, 16)) {            /* hundreds of them */
        snprintf(nb, sizeof nb, "VARIABLE_%u", rndn(&vr, 400)); snprintf(v, sizeof v, "%u", rndn(&vr, 5000));
        cork_env_add(env, nb, v); em_set(e, nb, v);
        return;
    }
    nm = names[ch(W, 8)];
    if (longs && ch(W, 2)) { snprintf(nb, sizeof nb, "VARIABLE_%u", ch(W, 60)); nm = nb; }
    rnd_text(v, 140);
    snprintf(w, sizeof w, "%s", v);
    switch (ch(W, 6)) {
    case 0: case 1: cork_env_add(env, nm, w); em_set(e, nm, v); memset(w, '!', 3); break;
    case 2: snprintf(w, sizeof w, "%d-%.100s", (int) strlen(v), v); cork_env_add_printf(env, nm, "%d-%.100s", (int) strlen(v), v); em_set(e, nm, w); break;
    case 3: cork_env_remove(env, nm); em_del(e, nm); break;
    default: break;
    }
    g = cork_env_get(env, nm); x = em_get(e, nm);
    CHECK(!g == !x && (!g || !strcmp(g, x)), "C14:env-get", "%s is \"%s\", should be \"%s\"", nm, g ? g : "(unset)", x ? x : "(unset)");
}
struct req {
    struct member *m; int argc, good, use_env, nget; char *argv[400]; struct envm e; char cwd[4096]; int want_cwd; char *desc, *prog;
};
static struct cork_env *make_env(struct req *q, struct envm *cur)
{
    struct cork_env *env; int k;
    if (ch(W, 2)) { env = cork_env_new(); q->e.n = 0; }
    else { env = cork_env_clone_current(); q->e = *cur; }
    for (k = ch(W, vast ? 500 : longs ? 60 : 8); k > 0; k--) env_edit(env, &q->e);
    return env;
}
static void build(struct req *q, struct envm *cur)
{
    struct cork_exec *x; char prog[2200]; int k, n, how = ch(W, 3); struct cork_stream_consumer *o, *e; struct member *m = q->m;
    static const char *const cwds[] = { "/w", "/w/a", "w", "w/a/", ".", "..", "/", "/missing", "/file", "/nope/x", "/denied" };
    snprintf(prog, sizeof prog, "prog%d", m->id);
    if (longs && ch(W, 2)) {                /* named by a long path */
        int l = ch(W, 3) ? (int) ch(W, 300) : (int) ch(W, 2000);
        for (k = 0; k < l; k++) prog[k] = k % 31 ? "bindlexc"[(k * 5 + l) & 7] : '/';
        snprintf(prog + l, sizeof prog - l, "/prog%d", m->id);
    }
    q->good = 1;
    if (ch(W, 8) == 7) { snprintf(prog, sizeof prog, "unknown"); q->good = 0; }
    q->prog = strdup(prog);
    n = ch(W, 6);
    for (k = 0; k < n; k++) { char t[LONG]; rnd_text(t, 150); q->argv[k] = strdup(t); }
    switch (how) {
    case 0:
        x = cork_exec_new(prog); q->argc = 0;
        break;
    case 1: {
        char a[3][LONG];
        for (k = 0; k < 3; k++) snprintf(a[k], sizeof a[k], "%s", k < n ? q->argv[k] : "fixed");
        q->argv[0] = strdup(prog);
        n = n > 3 ? 3 : n;
        for (k = 0; k < n; k++) q->argv[k + 1] = strdup(a[k]);
        q->argc = n + 1;
        x = n == 0 ? cork_exec_new_with_params(prog, NULL) : n == 1 ? cork_exec_new_with_params(prog, a[0], NULL)
            : n == 2 ? cork_exec_new_with_params(prog, a[0], a[1], NULL) : cork_exec_new_with_params(prog, a[0], a[1], a[2], NULL);
        memset(a, '#', sizeof a);
        break; }
    default: {
        char *v[17], buf[16][LONG];
        for (k = 0; k < n; k++) { snprintf(buf[k], sizeof buf[k], "%s", q->argv[k]); v[k] = buf[k]; }
        v[n] = 0; q->argc = n;
        x = cork_exec_new_with_param_array(prog, v);
        memset(buf, '#', sizeof buf);
        break; }
    }
    for (k = ch(W, vast ? 500 : longs ? 100 : 10); k > 0 && q->argc < (vast ? 330 : 75); k--) switch (vast && rndn(&vr, 8) ? 0 : ch(W, 4)) {
    case 0: case 1: { char t[LONG]; if (vast && rndn(&vr, 16)) snprintf(t, sizeof t, "%u", rndn(&vr, 5000)); else rnd_text(t, 150); cork_exec_add_param(x, t); q->argv[q->argc++] = strdup(t); memset(t, '#', sizeof t); break; }
    case 2: if (ch(W, 2)) { q->use_env = 1; cork_exec_set_env(x, make_env(q, cur)); } else if (q->use_env) env_edit(cork_exec_env(x), &q->e); break;
    case 3: { char t[4096]; const char *d = cwds[ch(W, ch(W, 4) ? 7 : 11)]; if (longs && ch(W, 2)) d = deep[ch(W, 2)]; snprintf(t, sizeof t, "%s", d); cork_exec_set_cwd(x, t); snprintf(q->cwd, sizeof q->cwd, "%s", t); q->want_cwd = 1; memset(t, '#', strlen(t)); break; }
    }
    { size_t len = 2300; for (k = 1; k < q->argc; k++) len += strlen(q->argv[k]) + 1; q->desc = malloc(len); strcpy(q->desc, prog); }
    for (k = 1; k < q->argc; k++) { strcat(q->desc, " "); strcat(q->desc, q->argv[k]); }
    CHECK(!strcmp(cork_exec_description(x), q->desc), "C14:description", "\"%s\", should be \"%s\"", cork_exec_description(x), q->desc);
    CHECK(!strcmp(cork_exec_program(x), prog), "C14:getter", "program is \"%s\"", cork_exec_program(x));
    CHECK((int) cork_exec_param_count(x) == q->argc, "C14:getter", "%zu parameters, should be %d", cork_exec_param_count(x), q->argc);
    for (k = 0; k < q->argc; k++) CHECK(!strcmp(cork_exec_param(x, k), q->argv[k]), "C14:getter", "parameter %d is \"%s\", should be \"%s\"", k, cork_exec_param(x, k), q->argv[k]);
    CHECK(q->want_cwd ? cork_exec_cwd(x) && !strcmp(cork_exec_cwd(x), q->cwd) : cork_exec_cwd(x) == NULL, "C14:getter", "working directory is %s", cork_exec_cwd(x) ? cork_exec_cwd(x) : "(none)");
    CHECK(!q->use_env == (cork_exec_env(x) == NULL), "C14:getter", "environment is %s", cork_exec_env(x) ? "set" : "not set");
    o = m->want[1] ? &m->r[1].parent : NULL; e = m->want[2] ? &m->r[2].parent : NULL;
    m->sub = cork_subprocess_new_exec(x, o, e, &m->code);
    m->want_code = 1;
}
static void check_env(struct child_obs *o, struct envm *e, int id)
{
    int i;
    CHECK(o->envc == e->n, "C14:environment", "program %d got %d environment variables, should be %d", id, o->envc, e->n);
    { uint64_t h = 0; for (i = 0; i < e->n; i++) { char full[LONG + 30]; snprintf(full, sizeof full, "%s=%s", e->name[i], e->val[i]); h += sim_text_hash(full); }
      if (o->envc > 100) { sim_probe("hundreds of variables"); CHECK(o->env_hash == h, "C14:environment", "program %d got other environment variables than it should", id); } }
    for (i = 0; i < o->envc && i < 100; i++) {
        char nm[200], *eq; const char *x; char full[LONG + 30], ab[200]; int l;
        snprintf(nm, sizeof nm, "%s", o->env[i]);
        eq = strchr(nm, '=');
        CHECK(eq, "C14:environment", "program %d got the environment entry \"%s\"", id, nm);
        *eq = 0; x = em_get(e, nm);
        l = snprintf(full, sizeof full, "%s=%s", nm, x ? x : ""); (void) l;
        sim_abbrev(ab, sizeof ab, full);
        CHECK(x && !strcmp(ab, o->env[i]), "C14:environment", "program %d got %s=\"%s\", should be \"%s\"", id, nm, eq + 1, x ? x : "(unset)");
    }
}
/* one thread's share of the members: a group, or started one by one */
struct job { struct req *q; int n, order[3], early, junk, clear, own; struct envm *cur; struct cork_subprocess_group *g; struct thr t; };
static int never(void *ud) { (void) ud; return 0; }
static void job_run(struct thr *t)
{
    struct job *j = t->ctx; int i, rc; struct cork_subprocess *junk[4];
    for (i = 0; i < j->junk; i++) junk[i] = cork_subprocess_new(NULL, NULL, never, NULL, NULL, NULL);    /* objects that come and go meanwhile */
    sim_label(t->id);
    if (j->clear) cork_error_clear();
    if (j->own) {                           /* the requests are made by the thread that starts them */
        for (i = 0; i < j->n; i++) build(&j->q[i], j->cur);
        for (i = 0; i < j->n; i++) if (j->g) cork_subprocess_group_add(j->g, j->q[j->order[i]].m->sub);
    }
    if (j->g) { rc = cork_subprocess_group_start(j->g); CHECK(rc == 0, "C14:start", "start failed with error %d", cork_error_code()); }
    else for (i = 0; i < j->n; i++) { if (i < j->junk) { cork_subprocess_free(junk[i]); junk[i] = cork_subprocess_new(NULL, NULL, never, NULL, NULL, NULL); } rc = cork_subprocess_start(j->q[j->order[i]].m->sub); CHECK(rc == 0, "C14:start", "start failed with error %d", cork_error_code()); }
    sim_label(0);
    for (i = 0; i < j->junk; i++) cork_subprocess_free(junk[i]);
    if (j->g) rc = cork_subprocess_group_wait(j->g); else for (rc = i = 0; i < j->n; i++) rc |= cork_subprocess_wait(j->q[i].m->sub);
    CHECK(rc == 0, "C14:wait", "wait failed with error %d", cork_error_code());
    if (j->early) { if (j->g) cork_subprocess_group_free(j->g); else for (i = 0; i < j->n; i++) cork_subprocess_free(j->q[i].m->sub); }
}
static void run(void)
{
    static struct req q[6]; static struct job jb[2]; int nj, late; static struct envm cur; static char cwd0[4200], cwd1[4200];
    struct member *by = NULL; void *std0[3]; struct inode *dir0;
    int n, i, k, f, nfd0, bad = 0, ok = 0, closed = 0; uint32_t fired;
    memset(q, 0, sizeof q); memset(&cur, 0, sizeof cur);
    sub_pick_env(); sub_init(); sub_guard();
    sim_faults_off++;
    fs_mk("/w", 'd', 0, 0755); fs_mk("/w/a", 'd', 0, 0755); fs_mk("/w/w", 'd', 0, 0755); fs_mk("/w/w/a", 'd', 0, 0755); fs_mk("/file", 'f', "", 0644);
    fs_mk("/denied", 'd', 0, 0); fs_set_denied(fs_mk("/denied", 'd', 0, 0), 1);
    if (ch(W, 2)) fs_chdir_raw("/w");
    dir0 = fs_cwd(); fs_path_of(dir0, cwd0, sizeof cwd0);
    longs = ch(W, 25) == 24; vast = longs && ch(W, 4) == 3; if (vast) vr = rnd_seed();
    deep[0][0] = deep[1][0] = 0;
    if (longs) {
        int lv = 1 + (ch(W, 4) ? ch(W, 6) : ch(W, 25)), l = ch(W, 150); char nm[256];
        sim_probe("long and many arguments and variables");
        strcpy(deep[0], "/w");
        for (k = 0; k < lv; k++) {
            fs_name(nm, k, "", l);
            if (strlen(deep[0]) + strlen(nm) > 3900) break;
            strcat(deep[0], "/"); strcat(deep[0], nm); fs_mk(deep[0], 'd', 0, 0755);
        }
        strcpy(deep[1], deep[0] + 3);
        if (ch(W, 3) == 2) { fs_chdir_raw(deep[0]); dir0 = fs_cwd(); fs_path_of(dir0, cwd0, sizeof cwd0); strcpy(deep[1], ".."); sim_probe("started from a deep directory"); }
    }
    for (k = ch(W, vast ? 500 : longs ? 40 : 8); k > 0; k--) env_edit(NULL, &cur);
    if (sub_closed) closed = 1;
    else for (f = 0; f < 3; f++) if (ch(W, 10) == 9) { sim_close(f); closed = 1; }
    fs_mk("/canary", 'f', "x", 0644);
    if (ch(W, 3) == 2 && !closed) sim_open_file_fd("/canary", O_RDWR);    /* an unrelated inherited descriptor */
    for (f = 0; f < 3; f++) std0[f] = sim_fd_ofd(f);
    nfd0 = sim_nfds();
    memset(jb, 0, sizeof jb);
    late = ch(W, 2);
    if (ch(W, 3) == 2) {
        by = sub_add(G_SPAWN | G_QUIET); sub_make(by);
        if (!late) CHECK(cork_subprocess_start(by->sub) == 0, "C14:start", "start failed");
    }
    nj = ch(W, 4) == 3 ? 2 : 1;
    for (n = f = 0; f < nj; f++) {
        struct job *j = &jb[f];
        j->q = &q[n]; j->n = 1 + ch(W, 3); j->t.ctx = j; j->t.id = f + 1; j->early = ch(W, 2); j->junk = ch(W, 5); j->clear = ch(W, 4) == 0; j->own = nj == 2 && ch(W, 2); j->cur = &cur;
        if ((j->n > 1 || ch(W, 2)) && ch(W, 4)) j->g = cork_subprocess_group_new();
        for (i = 0; i < j->n; i++) {
            q[n + i].m = sub_add(G_QUIET | G_KILL); q[n + i].m->exec = 1; q[n + i].m->ret_fail = 0;
            if (!j->own) build(&q[n + i], &cur);
            k = i - (int) ch(W, i + 1);         /* members are started in another order than they were made in */
            j->order[i] = j->order[k]; j->order[k] = i;
        }
        for (i = 0; i < j->n; i++) {
            struct req *r = &j->q[j->order[i]];
            r->m->label = f + 1; r->m->nth = i;
            if (j->g && !j->own) cork_subprocess_group_add(j->g, r->m->sub);
        }
        n += j->n;
    }
    if (by && late) CHECK(cork_subprocess_start(by->sub) == 0, "C14:start", "start failed");
    CHECK(fs_cwd() == dir0, "C14:parent-cwd", "the parent's working directory changed");
    if (ch(F, 2)) sim_child_faults(ch(F, 2) ? 150 : 0, ch(F, 2) ? 200 : 0, ch(F, 2) ? 200 : 0, ch(F, 2) ? 300 : 0);
    if (ch(F, 3) == 2) sim_child_setenv_rate = 300;
    if (ch(F, 3)) sim_fault_enable(FT_STALL, chr_(F, 20, 300));
    if (ch(F, 3) == 2) sim_fault_enable(FT_EINTR, chr_(F, 5, 200));
    sim_faults_off--;
    if (nj == 2) {
        for (f = 0; f < nj; f++) thr_start(&jb[f].t, f ? TK_PTHREAD : TK_TASK, f + 1, rnd_seed(), job_run, &jb[f]);
        for (f = 0; f < nj; f++) thr_join(&jb[f].t);
    } else job_run(&jb[0].t);
    fired = sim_fault_count(FT_SETENV_ERR) + sim_fault_count(FT_DUP2_ERR) + sim_fault_count(FT_CHDIR_ERR) + sim_fault_count(FT_EXEC_ERR);
    for (i = 0; i < n; i++) {
        struct req *r = &q[i]; struct child_obs *o = sub_obs(r->m); int good = r->good; struct inode *want = dir0;
        CHECK(o != NULL, "C14:start", "member %d was not started", i);
        if (r->want_cwd) { want = fs_look(r->cwd, 1); if (!want || fs_type(want) != 'd' || !strcmp(r->cwd, "/denied")) { good = 0; want = 0; } }
        if (!good) bad++;
        sub_check_result(r->m);
        sim_state((good * 2 + o->exec_ok) * 64 + r->argc * 4 + r->use_env * 2 + r->want_cwd);
        if (!o->exec_ok) {
            CHECK(!good || fired, "C14:not-executed", "program %d was not executed although nothing failed", i);
            CHECK(o->exit_code != 0 || o->killed_by, "C14:failure-hidden", "program %d could not be executed, but exit status is 0", i);
            CHECK(r->m->code != 0, "C14:failure-hidden", "program %d could not be executed, but the exit status reported is 0", i);
            sim_probe(good ? "child-side failure" : "impossible request");
            continue;
        }
        ok++;
        CHECK(good, "C14:executed-anyway", "program %d was executed although it or its working directory %s does not exist", i, r->cwd);
        if (strchr(r->prog, '/')) { char ab[200]; sim_abbrev(ab, sizeof ab, r->prog); CHECK(!strcmp(o->program, ab), "C14:program", "member %d executes %s, should be %s", i, o->program, ab); }
        CHECK(o->argc == r->argc, "C14:arguments", "program %d got %d arguments, should be %d", i, o->argc, r->argc);
        { uint64_t h = 0; for (k = 0; k < r->argc; k++) h = h * 31 + sim_text_hash(r->argv[k]); if (r->argc > 80) { sim_probe("hundreds of arguments"); CHECK(o->argv_hash == h, "C14:arguments", "program %d got other arguments than it should", i); } }
        for (k = 0; k < o->argc && k < 80; k++) { char ab[200]; sim_abbrev(ab, sizeof ab, r->argv[k]); CHECK(!strcmp(o->argv[k], ab), "C14:arguments", "argument %d of program %d is \"%s\", should be \"%s\"", k, i, o->argv[k], ab); }
        check_env(o, r->use_env ? &r->e : &cur, i);
        fs_path_of(want, cwd1, sizeof cwd1);
        CHECK(!strcmp(o->cwd, cwd1), "C14:cwd", "program %d runs in %s, should be %s", i, o->cwd, cwd1);
        for (f = 0; f < 3; f++) {
            int is = -1;
            for (k = 0; k < o->nfd; k++) if (o->fd[k] == f) is = k;
            if (f == 0) CHECK(is >= 0 && o->fd_kind[is] == 'p', "C14:stdin", "stdin of program %d is not a pipe to read from", i);
            else if (r->m->want[f]) CHECK(is >= 0 && o->fd_kind[is] == 'q', "C14:capture", "descriptor %d of program %d is not a pipe to write to", f, i);
            else CHECK(std0[f] ? is >= 0 && o->fd_ofd[is] == std0[f] : is < 0, "C14:inherit", "descriptor %d of program %d is not the parent's", f, i);
        }
        for (k = 0; k < o->nfd; k++) if (o->fd[k] > 2) CHECK(o->fd_kind[k] == 'f' || o->fd_kind[k] == 't', "C14:extra-pipe", "program %d has a pipe at descriptor %d", i, o->fd[k]);
    }
    if (fired) CHECK(ok + bad + (int) fired >= n, "C14:not-executed", "%d of %d programs were executed, %d failures", ok, n, (int) fired);
    for (i = 0; i < sim_nchildren(); i++) { struct child_obs *o = sim_child(i); if (!o->exec_ok) for (k = 0; k < o->nfd; k++) if (o->fd[k] > 2) CHECK(o->fd_kind[k] == 'f' || o->fd_kind[k] == 't' || !o->tag, "C14:extra-pipe", "function %d has a pipe at descriptor %d", i, o->fd[k]); }
    if (closed) sim_probe("standard descriptors closed in the parent");
    for (f = 0; f < nj; f++) if (jb[f].early) ; else if (jb[f].g) cork_subprocess_group_free(jb[f].g); else for (i = 0; i < jb[f].n; i++) cork_subprocess_free(jb[f].q[i].m->sub);
    sim_faults_off++;
    if (by) { CHECK(cork_subprocess_wait(by->sub) == 0, "C14:wait", "wait failed"); sub_check_result(by); cork_subprocess_free(by->sub); }
    CHECK(fs_cwd() == dir0, "C14:parent-cwd", "the parent's working directory changed");
    for (f = 0; f < 3; f++) CHECK(sim_fd_ofd(f) == std0[f], "C14:parent-streams", "descriptor %d of the parent changed", f);
    CHECK(sim_nfds() == nfd0, "C14:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    for (k = 0; sim_environ[k]; k++) ;
    CHECK(k == cur.n, "C14:parent-environment", "the parent's environment has %d variables, should be %d", k, cur.n);
    for (k = 0; k < cur.n; k++) { const char *v = cork_env_get(NULL, cur.name[k]); CHECK(v && !strcmp(v, cur.val[k]), "C14:parent-environment", "the parent's %s changed", cur.name[k]); }
    sim_faults_off--;
    cork_error_clear();
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C14, run);
