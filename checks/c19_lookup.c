/* C19: queries about files and searching lists of directories. */
#include "common.h"
#include "libcork/os/files.h"

#define MAXC 160
#define MAXL 40                            /* the longest list searched */
static struct { char p[5200]; uint64_t t_missing, t_exists[5] /* by type */, t_err; int err; } hist[MAXC]; static int nhist; static uint64_t tick;
static int ext_pm, ext_changes; static char ents[160][300]; static int nents;

static int cand(const char *p)
{
    int i;
    for (i = 0; i < nhist; i++) if (!strcmp(hist[i].p, p)) return i;
    if (nhist == MAXC) sim_fail("harness", "too many candidates");
    strcpy(hist[nhist].p, p);
    return nhist++;
}
static int type_of(struct inode *i) { switch (fs_type(i)) { case 'd': return CORK_FILE_DIRECTORY; case 'f': return CORK_FILE_REGULAR; default: return CORK_FILE_UNKNOWN; } }
static void poll_fs(void)
{
    int i;
    tick++;
    for (i = 0; i < nhist; i++) {
        int e = fs_errno(hist[i].p, 1);
        if (e == 0) hist[i].t_exists[type_of(fs_look(hist[i].p, 1))] = tick;
        else if (e == ENOENT || e == ENOTDIR) hist[i].t_missing = tick;
        else { hist[i].t_err = tick; hist[i].err = e; }
    }
}
static int existed(int c, uint64_t t0) { int k; for (k = 0; k < 5; k++) if (hist[c].t_exists[k] >= t0) return 1; return 0; }
static void other(const char *call)
{
    (void) call;
    poll_fs();
    if (ext_pm && chp(F, ext_pm)) {
        const char *p = ents[ch(F, nents)];
        if (fs_look(p, 0)) { sim_log("another process removes %s", p); fs_rm_rf(p); } else { sim_log("another process creates %s", p); fs_mk(p, ch(F, 2) ? 'f' : 'd', 0, 0); }
        ext_changes++; sim_fault_note(FT_EXTERNAL);
        poll_fs();
    }
}
static void join(char *out, const char *a, const char *b)
{
    if (!*b) strcpy(out, a);
    else if (*b == '/') strcpy(out, b);
    else { strcpy(out, a); if (*out && out[strlen(out) - 1] != '/') strcat(out, "/"); strcat(out, b); }
}
static char dirs[48][300]; static int ndirs, many; static char rels[6][5000]; static int nrels;
static void check_error(const char *what, const char *path, int c, uint64_t t0, int e)
{
    CHECK(e, "C19:no-error", "%s(%s) fails without an error condition", what, path);
    CHECK(sim_was_injected(e) || (hist[c].t_err >= t0 && hist[c].err == e), "C19:spurious-failure", "%s(%.60s) fails with %d (%s) although the system did not say so", what, path, e, strerror(e));
    sim_probe("could not be determined");
}
static void query(uint64_t *r)
{
    char path[5300]; struct cork_file *f; int c, k, n = 1 + rndn(r, 4), inj; uint64_t t0;
    join(path, dirs[rndn(r, ndirs)], rels[rndn(r, nrels)]);
    c = cand(path); poll_fs(); t0 = tick;
    switch (rndn(r, 4)) {
    case 0: case 1: f = cork_file_new(path); break;
    case 2: f = cork_file_new_from_path(cork_path_new(path)); break;
    default: { struct cork_path *p = cork_path_new(rndn(r, 2) ? "/some/where" : NULL); cork_path_set(p, path[0] || rndn(r, 2) ? path : NULL); f = cork_file_new_from_path(p); break; }
    }
    CHECK(!strcmp(cork_path_get(cork_file_path(f)), path), "C19:path", "the object has path %s", cork_path_get(cork_file_path(f)));
    for (k = 0; k < n; k++) {
        bool ex = rndn(r, 2); enum cork_file_type ty = (enum cork_file_type) 77; int rc, q = rndn(r, 2), e;
        sim_clear_last_injected();
        rc = q ? cork_file_exists(f, &ex) : cork_file_type(f, &ty);
        e = cork_error_code(); inj = sim_last_errno_injected();
        poll_fs();
        sim_log("%s(%.60s) = %d, %d, error %d", q ? "exists" : "type", path, rc, q ? ex : (int) ty, e);
        sim_state(rc * 1000 + e * 8 + (q ? ex : (int) ty));
        if (rc == 0) {
            CHECK(!inj, "C19:failure-hidden", "the system failed with %d, the query reports an answer", inj);
            CHECK(!e, "C19:error-on-success", "an answer, but error condition %d", e);
            if (q) {
                if (ex) CHECK(existed(c, t0), "C19:wrong-answer", "%.60s is said to exist, it never did", path);
                else CHECK(hist[c].t_missing >= t0, "C19:wrong-answer", "%.60s is said to be missing, it never was (%s)", path, hist[c].t_err >= t0 ? strerror(hist[c].err) : "exists");
            } else if (ty == CORK_FILE_MISSING) CHECK(hist[c].t_missing >= t0, "C19:wrong-answer", "%.60s is said to be missing, it never was (%s)", path, hist[c].t_err >= t0 ? strerror(hist[c].err) : "exists");
            else {
                struct inode *l = fs_look(path, 0);
                CHECK((int) ty >= 0 && (int) ty < 5, "C19:wrong-answer", "type %d", ty);
                CHECK(hist[c].t_exists[ty] >= t0 || (ty == CORK_FILE_SYMLINK && l && fs_type(l) == 'l'), "C19:wrong-answer", "%.60s is said to have type %d", path, ty);
            }
            sim_probe("answered");
        } else {
            CHECK(rc == -1, "C19:result", "result %d", rc);
            check_error(q ? "exists" : "type", path, c, t0, e);
            cork_error_clear();
        }
    }
    cork_file_free(f);
}
static void search(uint64_t *r)
{
    struct cork_path_list *l; int n = rndn(r, many ? MAXL + 1 : 6), i, k, cs[MAXL], all = rndn(r, 2), e, nerr = 0; char (*joined)[5400] = calloc(MAXL, sizeof *joined); const char *rel = rels[rndn(r, nrels)]; uint64_t t0; char str[13000] = "";
    int idx[MAXL];
    for (i = 0; i < n; i++) idx[i] = rndn(r, ndirs);
    if (n && rndn(r, 2)) {
        for (i = 0; i < n; i++) { if (i) strcat(str, ":"); strcat(str, dirs[idx[i]]); }
        l = cork_path_list_new(str);
    } else {
        l = cork_path_list_new_empty();
        for (i = 0; i < n; i++) cork_path_list_add(l, cork_path_new(dirs[idx[i]]));
    }
    CHECK((int) cork_path_list_size(l) == n, "C19:path-list", "the list has %zu entries, expected %d", cork_path_list_size(l), n);
    for (i = 0; i < n; i++) { join(joined[i], dirs[idx[i]], rel); cs[i] = cand(joined[i]); CHECK(!strcmp(cork_path_get(cork_path_list_get(l, i)), dirs[idx[i]]), "C19:path-list", "entry %d is %s", i, cork_path_get(cork_path_list_get(l, i))); }
    poll_fs(); t0 = tick;
    sim_clear_last_injected();
    if (!all) {
        struct cork_file *f = cork_path_list_find_file(l, rel);
        e = cork_error_code(); poll_fs();
        sim_log("find_file(%.60s) = %s, error %d", rel, f ? cork_path_get(cork_file_path(f)) : "none", e);
        if (f) {
            bool ex = false; const char *p = cork_path_get(cork_file_path(f)); int found = -1;
            CHECK(!sim_last_errno_injected(), "C19:failure-hidden", "the system failed with %d, the search reports a match", sim_last_errno_injected());
            for (i = 0; i < n && found < 0; i++) {
                if (!strcmp(p, joined[i]) && existed(cs[i], t0)) found = i;
                else CHECK(hist[cs[i]].t_missing >= t0, "C19:not-first", "%.60s found, but %.60s comes first (%s)", p, joined[i], hist[cs[i]].t_err >= t0 ? strerror(hist[cs[i]].err) : "exists");
            }
            CHECK(found >= 0, "C19:wrong-match", "found %.60s, which is no candidate or never existed", p);
            CHECK(!e, "C19:error-on-success", "a match, but error condition %d", e);
            sim_faults_off++;
            if (!ext_pm) CHECK(cork_file_exists(f, &ex) == 0 && ex, "C19:wrong-match", "the match says that it does not exist");
            sim_faults_off--;
            cork_file_free(f); sim_probe("found"); if (found) sim_probe("found later in the list"); sim_state(found + 100);
        } else {
            CHECK(e, "C19:no-error", "no match and no error condition");
            for (i = 0; i < n; i++) if (hist[cs[i]].t_err >= t0 && hist[cs[i]].err == e) nerr = 1;
            if (sim_was_injected(e) || nerr) sim_probe("search stopped");
            else {
                CHECK(e == ENOENT, "C19:spurious-failure", "the search fails with %d (%s)", e, strerror(e));
                CHECK(!sim_last_errno_injected(), "C19:failure-hidden", "the system failed with %d, the search reports not-found", sim_last_errno_injected());
                for (i = 0; i < n; i++) CHECK(hist[cs[i]].t_missing >= t0, "C19:not-found", "not found, but %.60s was never missing (%s)", joined[i], hist[cs[i]].t_err >= t0 ? strerror(hist[cs[i]].err) : "exists");
                CHECK(strlen(rel) > 300 || strstr(cork_error_message(), rel), "C19:message", "the message does not name %s: %s", rel, cork_error_message());
                sim_probe("not found");
            }
            sim_state(e); cork_error_clear();
        }
    } else {
        struct cork_file_list *fl = cork_path_list_find_files(l, rel);
        e = cork_error_code(); poll_fs();
        sim_log("find_files(%.60s) = %d, error %d", rel, fl ? (int) cork_file_list_size(fl) : -1, e);
        if (fl) {
            size_t at = 0;
            CHECK(!e, "C19:error-on-success", "success, but error condition %d", e);
            CHECK(!sim_last_errno_injected(), "C19:failure-hidden", "the system failed with %d, the search reports success", sim_last_errno_injected());
            for (i = 0; i < n; i++) {
                const char *p = at < cork_file_list_size(fl) ? cork_path_get(cork_file_path(cork_file_list_get(fl, at))) : 0;
                if (p && !strcmp(p, joined[i]) && existed(cs[i], t0)) {
                    /* equal candidates: which of them matched does not matter when it never changed */
                    at++;
                } else CHECK(hist[cs[i]].t_missing >= t0, "C19:missed-match", "%.60s was not returned although it was never missing (%s)", joined[i], hist[cs[i]].t_err >= t0 ? strerror(hist[cs[i]].err) : "exists");
            }
            CHECK(at == cork_file_list_size(fl), "C19:wrong-match", "%zu matches, only %zu are right", cork_file_list_size(fl), at);
            sim_state(at); sim_probe("all matches");
            cork_file_list_free(fl);
        } else {
            int inj = sim_was_injected(e);
            CHECK(e, "C19:no-error", "failure without an error condition");
            for (i = 0; i < n; i++) if (hist[cs[i]].t_err >= t0 && hist[cs[i]].err == e) nerr = 1;
            CHECK(inj || nerr, "C19:spurious-failure", "the search fails with %d (%s)", e, strerror(e));
            cork_error_clear(); sim_probe("search stopped");
        }
    }
    if (rndn(r, 4) == 0) {
        struct cork_file_list *fl = cork_file_list_new(l);
        CHECK((int) cork_file_list_size(fl) == n, "C19:file-list", "%zu files for %d paths", cork_file_list_size(fl), n);
        for (k = 0; k < n; k++) CHECK(!strcmp(cork_path_get(cork_file_path(cork_file_list_get(fl, k))), dirs[idx[k]]), "C19:file-list", "file %d is wrong", k);
        cork_file_list_free(fl);
    }
    cork_path_list_free(l); free(joined);
}
static void worker(struct thr *t)
{
    int n = 1 + rndn(&t->rng, 4);
    while (n-- > 0) if (rndn(&t->rng, 2)) query(&t->rng); else search(&t->rng);
}
static void run(void)
{
    static const char *const nm[] = { "f", "sub/f", "sub", "no%sne", "f/x", "loop", "link", "../d1/f", "", "/d0/f", "bad", "fi%sfo", ".", "f/", "/d0/fi%sfo" };
    int i, k, nthr, longn; struct thr th[4]; uint64_t r = rnd_seed(); size_t j;
    k = ch(W, 20); many = k == 0; longn = k == 1 || (many && ch(W, 3) == 0) ? 40 + ch(W, 215) : 0;
    ndirs = many ? 12 + ch(W, 30) : 2 + ch(W, 5);
    for (i = 0; i < ndirs; i++) {
        char p[400];
        sprintf(dirs[i], "/d%d", i); if (longn && i) { char q[256]; fs_name(q, -1, dirs[i] + 1, longn); strcpy(dirs[i] + 1, q); }
        else if (i && ch(W, 8) == 7) strcat(dirs[i], "%s%n");
        if (ch(W, 6) == 0) { strcpy(dirs[i], ch(W, 2) ? "/gone" : i ? dirs[0] : "/gone"); continue; }
        fs_mk(dirs[i], 'd', 0, 0755);
        for (k = 0; k < 6; k++) {
            if (ch(W, many ? 12 : 3)) continue;
            snprintf(p, sizeof p, "%s/%s", dirs[i], k == 0 ? "f" : k == 1 ? "sub" : k == 2 ? "loop" : k == 3 ? "link" : k == 4 ? "bad" : "fi%sfo");
            if (k == 0) fs_mk(p, ch(W, 4) ? 'f' : 'd', 0, 0);
            if (k == 1) { fs_mk(p, 'd', 0, 0755); strcat(p, "/f"); if (ch(W, 2)) fs_mk(p, 'f', 0, 0); }
            if (k == 2) fs_mk(p, 'l', "loop", 0);
            if (k == 3) fs_mk(p, 'l', ch(W, 2) ? "f" : "/d0/sub", 0);
            if (k == 4) fs_mk(p, 'l', "/nowhere", 0);
            if (k == 5) fs_mk(p, 'o', 0, 0644);
        }
        snprintf(ents[nents++], 300, "%s/f", dirs[i]); snprintf(ents[nents++], 300, "%s/sub", dirs[i]); snprintf(ents[nents++], 300, "%s/no%%sne", dirs[i]);
        if (ch(W, 10) == 0) { snprintf(p, sizeof p, "%s%s", dirs[i], ch(W, 2) ? "" : "/sub"); if (fs_look(p, 1) && fs_type(fs_look(p, 1)) == 'd') fs_set_denied(fs_look(p, 1), 1); }
    }
    if (!nents) strcpy(ents[nents++], "/d0");
    if (ch(W, 2)) { fs_chdir_raw(dirs[ch(W, ndirs)]); if (ch(W, 2)) strcpy(dirs[ndirs++], ""); else strcpy(dirs[ndirs++], "."); }
    if (ch(W, 4) == 0) { strcpy(dirs[ndirs], dirs[0]); strcat(dirs[ndirs++], "/"); }
    nrels = 1 + ch(W, 3);
    for (i = 0; i < nrels; i++) strcpy(rels[i], nm[ch(W, 15)]);
    if (ch(W, 12) == 0) { k = ch(W, 2) ? 300 : 4200; memset(rels[0], 'n', k); for (i = 100; k > 300 && i < k; i += 100) rels[0][i] = '/'; rels[0][k] = 0; }
    ext_pm = ch(W, 3) ? 0 : 50 + ch(W, 400);
    sim_errno_scribble = ch(W, 2);
    if (ch(W, 2)) { sim_fault_enable(FT_STAT_ERR, 20 + ch(W, 400)); sim_fault_budget(1 + ch(W, 4)); }
    for (i = 0; i < ndirs; i++) for (k = 0; k < nrels; k++) { char p[5400]; join(p, dirs[i], rels[k]); cand(p); }
    for (j = 0; j < 1; j++) poll_fs();
    sim_syscall_cb = other;
    nthr = 1 + (ch(W, 3) == 0);
    for (i = 0; i < nthr; i++) { int kind = ch(W, 3); thr_start(&th[i], kind, i, r + 1000 * i, worker, 0); }
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C19, run);
