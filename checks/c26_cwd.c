/* C26: current directory and absolute paths. */
#include "common.h"

static void expect_join(char *out, const char *cwd, const char *rel)
{
    strcpy(out, cwd);
    if (out[strlen(out) - 1] != '/') strcat(out, "/");
    strcat(out, rel);
}
/* a trailing slash after the directory is allowed when nothing is appended */
static int same(const char *got, const char *want, int empty)
{
    size_t g = strlen(got), w = strlen(want);
    if (!strcmp(got, want)) return 1;
    return empty && g + 1 == w && w > 1 && want[w - 1] == '/' && !strncmp(got, want, g);
}
static char cwd[6000]; static int removed, nthr;
int sim_setenv(const char *name, const char *value, int over);
int sim_unsetenv(const char *name);
/* the host program goes elsewhere; what its environment says about that may be right or wrong */
static void move(void)
{
    static const char *const to[] = { "/", "/elsewhere", "/elsewhere/sub", "/e" };
    char old[6000]; strcpy(old, cwd);
    switch (ch(W, 6)) {
    case 0: if (removed || fs_cwd() == fs_root()) break; fs_rm_rf(cwd); removed = 1; sim_log("the current directory is removed"); break;
    case 1: case 2: break;
    default: strcpy(cwd, to[ch(W, 4)]); if (cwd[1]) { if (cwd[1] == 'e' && cwd[2]) fs_mk("/elsewhere", 'd', 0, 0755); fs_mk(cwd, 'd', 0, 0755); } fs_chdir_raw(cwd); removed = 0; sim_log("chdir to %s", cwd);
    }
    switch (ch(W, 6)) {
    case 0: sim_setenv("PWD", cwd, 1); break;
    case 1: sim_setenv("PWD", old, 1); break;
    case 2: sim_setenv("PWD", "/no/such/directory", 1); sim_setenv("OLDPWD", cwd, 1); break;
    case 3: sim_setenv("PWD", "relative", 1); break;
    case 4: sim_unsetenv("PWD"); break;
    }
}
#define CH(n) (t ? (int) rndn(r, n) : (int) ch(W, n))
static void ops(struct thr *t, uint64_t *r)
{
    char *given = malloc(4100), *want = malloc(11000), *before = malloc(4100); int i, k, e, hard;
    struct cork_path *p, *q; size_t live;
    k = 1 + CH(6);
    while (k-- > 0) {
        int op = CH(4), rc = 0, l = CH(3) ? CH(20) : CH(4000), absolute, isnull = 0;
        for (i = 0; i < l; i++) given[i] = rndn(r, 6) ? 'a' + rndn(r, 26) : rndn(r, 8) ? '/' : "%sn."[rndn(r, 4)];
        given[l] = 0;
        absolute = given[0] == '/';
        if (!nthr && CH(3) == 0) { move(); sim_probe("the directory changed between two queries"); }
        live = sim_heap_live();
        sim_clear_last_injected();
        if (op == 0) {
            q = cork_path_cwd(); isnull = !q; p = 0;
            strcpy(want, cwd);
        } else {
            p = cork_path_new(l ? given : CH(2) ? "" : NULL);
            strcpy(before, cork_path_get(p)); CHECK(!strcmp(before, given), "C26:path", "new path has other contents");
            if (op == 1) { rc = cork_path_set_cwd(p); strcpy(want, cwd); q = p; }
            else if (op == 2) { rc = cork_path_set_absolute(p); q = p; }
            else { q = cork_path_absolute(p); isnull = !q; CHECK(!strcmp(cork_path_get(p), before), "C26:source-changed", "the source path changed"); }
            if (op >= 2) { if (absolute) strcpy(want, given); else expect_join(want, cwd, given); }
        }
        hard = sim_last_errno_injected(); e = cork_error_code();
        if (rc == 0 && !isnull) {
            const char *s = cork_path_get(q);
            CHECK(!cork_error_occurred(), "C26:error-on-success", "success, but the error condition is set (%d)", e);
            CHECK(!hard && !(removed && !(op >= 2 && absolute)), "C26:failure-hidden", "success although the directory could not be determined");
            CHECK(s && same(s, want, op >= 2 && l == 0), "C26:wrong-path", "got '%.200s', expected '%.200s'", s ? s : "(null)", want);
            /* the object must be usable: its length is consistent */
            { struct cork_path *j = cork_path_join(q, "zz"); size_t m = strlen(s);
              CHECK(!strncmp(cork_path_get(j), s, m) && !strcmp(cork_path_get(j) + strlen(cork_path_get(j)) - 2, "zz") && strlen(cork_path_get(j)) <= m + 3 && strlen(cork_path_get(j)) >= m + 2,
                    "C26:inconsistent", "appending to '%.100s' gave '%.100s'", s, cork_path_get(j));
              cork_path_free(j); }
        } else {
            CHECK(rc == 0 || rc == -1, "C26:result", "result %d", rc);
            CHECK(hard || removed, "C26:spurious-failure", "failed with error %d although nothing failed", e);
            CHECK(!(op >= 2 && absolute), "C26:spurious-failure", "an absolute path needs no current directory");
            CHECK(e == (hard ? hard : ENOENT), "C26:wrong-error", "the system reported %d, the call reports %d", hard, e);
            if (p) {
                CHECK(cork_path_get(p) && !strcmp(cork_path_get(p), before), "C26:not-atomic", "after a failure the path is '%.100s', it was '%.100s'", cork_path_get(p), before);
                { struct cork_path *j = cork_path_join(p, "x"); size_t m = strlen(before);
                  CHECK(strlen(cork_path_get(j)) <= m + 2 && !strncmp(cork_path_get(j), before, m), "C26:not-atomic", "after a failure the path is inconsistent");
                  cork_path_free(j); }
            }
            sim_probe("directory could not be determined");
            cork_error_clear();
        }
        if (op == 0 || op == 3) { if (q) cork_path_free(q); }
        if (p) cork_path_free(p);
        CHECK(nthr || sim_heap_live() <= live + 6, "C26:leak", "memory left behind");   /* the first error allocates the error object */
        sim_state(op);
    }
    free(given); free(want); free(before);
}
static void thread(struct thr *t) { ops(t, &t->rng); sim_probe("queries from several threads"); }
static void run(void)
{
    uint64_t r = rnd_seed(); int n, i, k; struct thr th[2];
    /* a working directory: from "/" to nearly PATH_MAX */
    strcpy(cwd, "");
    n = ch(W, 4) == 0 ? 0 : ch(W, 3) ? 1 + ch(W, 4) : 1 + ch(W, 40);
    for (i = 0; i < n; i++) {
        size_t l = 1 + (ch(W, 3) ? ch(W, 8) : ch(W, 250)), at = strlen(cwd);
        if (at + l + 2 > 4094) break;
        cwd[at] = '/';
        for (k = 0; k < (int) l; k++) cwd[at + 1 + k] = rndn(&r, 12) ? 'a' + rndn(&r, 26) : " .%\\"[rndn(&r, 4)];
        cwd[at + 1 + l] = 0;
        if (!strcmp(cwd + at + 1, ".") || !strcmp(cwd + at + 1, "..")) cwd[at + 1] = 'D';
        fs_mk(cwd, 'd', 0, 0755);
    }
    if (!cwd[0]) strcpy(cwd, "/");
    fs_chdir_raw(cwd);
    if (n && ch(W, 12) == 0) { fs_rm_rf(cwd); removed = 1; }
    if (ch(W, 4)) {
        sim_fault_enable(FT_GETCWD_ERR, 100 + ch(W, 500));
        if (ch(W, 2)) sim_fault_enable(FT_EINTR, 100 + ch(W, 500));
        sim_fault_budget(ch(W, 12));
    }
    if (strlen(cwd) > 1000) sim_probe("long working directory");
    if (ch(W, 2)) move();
    nthr = ch(W, 4); nthr = nthr < 2 ? 0 : nthr - 1;
    for (i = 0; i < nthr; i++) thr_start(&th[i], ch(W, 3), i, rnd_seed(), thread, 0);
    ops(0, &r);
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    if (nthr && ch(W, 2)) { nthr = 0; ops(0, &r); }
    end_process(0);
}
DEFCHECK(C26, run);
