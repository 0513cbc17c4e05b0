/* C18: iterating and walking directories. */
#include "common.h"
#include "libcork/os/files.h"

#define MAXD 80
#define PL 2400
#define MAXE 420
static int wide, deep, longn, ext_pm, denied, first_new_ino, badlinks; static char ent[MAXE][PL]; static int nent; static int ext_changes;

struct level { char full[PL]; struct inode *d; char *seen[MAXE]; int nseen; char base[256]; };
struct obs {
    struct cork_dir_walker w; struct thr *t; uint64_t rng;
    struct level st[MAXD]; int depth; char root[PL]; /* without trailing slashes; "" for the root directory */
    int calls, abort_at, abort_val, set_err, aborted, skip_pm, touch;
};
static int retval(struct obs *o, int may_skip)
{
    static const int es[] = { EIO, ENOENT, EINTR };
    if (o->touch) errno = es[o->calls % 3];
    if (++o->calls == o->abort_at && !(may_skip && o->abort_val == CORK_SKIP_DIRECTORY)) {
        o->aborted = 1; sim_fault_note(FT_CALLBACK_FAIL);
        if (o->set_err) cork_error_set_printf(4242, "callback %d", o->calls);
        return o->abort_val;
    }
    if (may_skip && rndn(&o->rng, 1000) < (unsigned) o->skip_pm) return CORK_SKIP_DIRECTORY;
    return 0;
}
static void visit(struct obs *o, const char *full, const char *rel, const char *base, const char *what)
{
    struct level *l = &o->st[o->depth]; char want[PL + 300]; int i;
    CHECK(!o->aborted, "C18:callback-after-abort", "a callback (%s %s) after a callback had stopped the walk", what, full);
    snprintf(want, sizeof want, "%s/%s", l->full, base);
    CHECK(!strcmp(full, want), "C18:full-path", "%s: full path %s, expected %s", what, full, want);
    CHECK(!strcmp(rel, want + strlen(o->root) + 1), "C18:relative-path", "%s: relative path %s, expected %s", what, rel, want + strlen(o->root) + 1);
    CHECK(strcmp(base, ".") && strcmp(base, ".."), "C18:dot-entry", "called for %s", base);
    for (i = 0; i < l->nseen; i++) CHECK(strcmp(l->seen[i], base), "C18:visited-twice", "%s was visited twice", full);
    if (l->nseen < MAXE) l->seen[l->nseen++] = strdup(base); else CHECK(0, "C18:visited-twice", "%s has more entries than were ever created", l->full);
    sim_log("%s %s", what, full); sim_state(sim_hash_bytes(full, strlen(full)) + what[0]);
}
static void complete(struct obs *o, struct level *l, const char *full)
{
    char *s = fs_snapshot(), pre[PL], *p; int k; char dp[PL - 10];
    if (l->d == fs_root()) strcpy(pre, "\n/"); else { if (!fs_path_of(l->d, dp, sizeof dp)) return; snprintf(pre, sizeof pre, "\n%s/", dp); }
    if (ext_pm && !fs_look(full[0] ? full : "/", 1)) return;
    for (p = s; (p = strstr(p, pre)); p++) {
        char nm[300], fp[PL + 300]; const char *q = p + strlen(pre); int n = 0; struct inode *i;
        while (strncmp(q + n, " d ", 3) && strncmp(q + n, " f ", 3) && strncmp(q + n, " l ", 3) && strncmp(q + n, " o ", 3)) n++;
        if (memchr(q, '/', n) || !n) continue;
        memcpy(nm, q, n); nm[n] = 0;
        snprintf(fp, sizeof fp, "%s/%s", full, nm);
        i = fs_look(fp, 1);
        if (!i || (fs_type(i) != 'd' && fs_type(i) != 'f') || fs_ino(i) >= first_new_ino) continue;
        for (k = 0; k < l->nseen; k++) if (!strcmp(l->seen[k], nm)) break;
        CHECK(k < l->nseen, "C18:missed", "%s/%s was not visited", full, nm);
    }
    (void) o;
}
static struct inode *look(struct obs *o, const char *full, char type)
{
    struct inode *i = fs_look(full, 1); (void) o;
    if (!ext_pm) CHECK(i && fs_type(i) == type, "C18:type", "%s is called a %s", full, type == 'd' ? "directory" : "file");
    return i;
}
static int w_file(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    struct obs *o = cork_container_of(w, struct obs, w);
    visit(o, full, rel, base, "file"); look(o, full, 'f');
    return retval(o, 0);
}
static int w_enter(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    struct obs *o = cork_container_of(w, struct obs, w); int rc; struct level *l; struct inode *d;
    visit(o, full, rel, base, "enter"); d = look(o, full, 'd');
    rc = retval(o, 1);
    if (rc == 0) {
        CHECK(o->depth + 1 < MAXD, "C18:depth", "too deep");
        l = &o->st[++o->depth]; memset(l, 0, sizeof *l); strcpy(l->full, full); strcpy(l->base, base); l->d = d;
    }
    return rc;
}
static int w_leave(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    struct obs *o = cork_container_of(w, struct obs, w); struct level *l = &o->st[o->depth];
    CHECK(!o->aborted, "C18:callback-after-abort", "leave %s after a callback had stopped the walk", full);
    CHECK(o->depth > 0 && !strcmp(full, l->full), "C18:bracket", "leave %s, the innermost directory is %s", full, l->full);
    CHECK(!strcmp(rel, full + strlen(o->root) + 1), "C18:relative-path", "leave: relative path %s for %s", rel, full);
    CHECK(!strcmp(base, l->base), "C18:base-name", "leave: base name %s, expected %s", base, l->base);
    sim_log("leave %s", full);
    if (l->d) complete(o, l, full);
    o->depth--;
    return retval(o, 0);
}
static void verdict(struct obs *o, const char *what, const char *path, int rc, int e, int eintr0, int ext0, int badlinks)
{
    int ok;
    if (rc == 0) {
        CHECK(!o->aborted, "C18:abort-ignored", "%s reports success although a callback returned %d", what, o->abort_val);
        CHECK(!sim_last_errno_injected(), "C18:failure-hidden", "%s reports success although %s failed with %d", what, sim_last_call_injected(), sim_last_errno_injected());
        CHECK(o->depth == 0, "C18:bracket", "%s reports success inside %s", what, o->st[o->depth].full);
        CHECK(o->st[0].d != 0, "C18:success-missing", "%s of %s succeeds", what, path);
        complete(o, &o->st[0], o->root);
        CHECK(!cork_error_occurred(), "C18:error-on-success", "%s succeeds with error condition %d", what, (int) cork_error_code());
        sim_probe("complete walk");
    } else if (o->aborted) {        /* nothing had failed before, and what fails while cleaning up isn't the result */
        CHECK(rc == o->abort_val, "C18:result", "%s returns %d, the callback returned %d", what, rc, o->abort_val);
        if (o->set_err) CHECK(e == 4242, "C18:callback-error", "the callback's error is replaced by %d", e);
        sim_probe("callback stopped the walk");
    } else {
        CHECK(rc == -1, "C18:result", "%s returns %d although no callback did", what, rc);
        CHECK(e, "C18:no-error", "%s fails without an error condition", what);
        if (sim_was_injected(e)) { ok = 1; sim_probe("failing call reported"); }
        else if (e == EINTR) ok = (int) sim_fault_count(FT_EINTR) > eintr0;
        else if (e == ENOENT) ok = badlinks || !o->st[0].d || ext_changes > ext0;
        else if (e == ELOOP) ok = badlinks || !o->st[0].d;
        else if (e == EACCES) ok = denied;
        else if (e == ENOTDIR) ok = !o->st[0].d;
        else ok = 0;
        CHECK(ok, "C18:spurious-failure", "%s of %s fails with %d (%s) although nothing failed", what, path, e, strerror(e));
        sim_probe("failure");
        cork_error_clear();
    }
    cork_error_clear();
}
static int i_cb(struct cork_file *child, const char *name, void *ud)
{
    struct obs *o = ud; struct level *l = &o->st[0]; char want[PL + 300]; int k; enum cork_file_type ty; struct inode *i;
    const char *full = cork_path_get(cork_file_path(child));
    CHECK(!o->aborted, "C18:callback-after-abort", "callback for %s after a callback had stopped the iteration", name);
    snprintf(want, sizeof want, "%s%s%s", l->full, l->full[strlen(l->full) - 1] == '/' ? "" : "/", name);
    CHECK(!strcmp(full, want), "C18:full-path", "entry %s has path %s, expected %s", name, full, want);
    CHECK(strcmp(name, ".") && strcmp(name, ".."), "C18:dot-entry", "called for %s", name);
    for (k = 0; k < l->nseen; k++) CHECK(strcmp(l->seen[k], name), "C18:visited-twice", "%s was visited twice", name);
    if (l->nseen < MAXE) l->seen[l->nseen++] = strdup(name); else CHECK(0, "C18:visited-twice", "%s has more entries than were ever created", l->full);
    sim_log("entry %s", full);
    i = fs_look(full, 0);
    if (!ext_pm) CHECK(i, "C18:missed", "called for %s, which does not exist", full);
    if (rndn(&o->rng, 3)) {
        if (cork_file_type(child, &ty) == 0) {
            struct inode *j = fs_look(full, 1); char t = i ? fs_type(i) : 0, u = j ? fs_type(j) : 0; int w;
            w = u == 'd' ? CORK_FILE_DIRECTORY : u == 'f' ? CORK_FILE_REGULAR : u ? CORK_FILE_UNKNOWN : CORK_FILE_MISSING;
            if (!ext_pm) CHECK((int) ty == w || (t == 'l' && ty == CORK_FILE_SYMLINK), "C18:type", "%s has type %d, expected %d", full, ty, w);
        } else {
            int e = cork_error_code();
            CHECK(sim_was_injected(e) || (e == ELOOP && badlinks) || (e == EACCES && denied), "C18:spurious-failure", "type of %s: error %d", full, e);
            cork_error_clear(); sim_probe("entry could not be examined");
        }
    }
    return retval(o, 0);
}
static void i_complete(struct obs *o, const char *dir)
{
    char *s = fs_snapshot(), pre[PL], *p, dp[PL - 10]; int k; struct level *l = &o->st[0];
    if (!fs_path_of(l->d, dp, sizeof dp)) return;
    if (strcmp(dp, "/")) snprintf(pre, sizeof pre, "\n%s/", dp); else strcpy(pre, "\n/");
    for (p = s; (p = strstr(p, pre)); p++) {
        char nm[300]; const char *q = p + strlen(pre); int n = 0; char fp[PL + 300]; struct inode *i;
        while (strncmp(q + n, " d ", 3) && strncmp(q + n, " f ", 3) && strncmp(q + n, " l ", 3) && strncmp(q + n, " o ", 3)) n++;
        if (memchr(q, '/', n) || !n) continue;
        memcpy(nm, q, n); nm[n] = 0;
        snprintf(fp, sizeof fp, "%s/%s", dir, nm); i = fs_look(fp, 0);
        if (!i || fs_ino(i) >= first_new_ino) continue;
        for (k = 0; k < l->nseen; k++) if (!strcmp(l->seen[k], nm)) break;
        CHECK(k < l->nseen, "C18:missed", "%s was not visited", fp);
    }
}
static void other(const char *call)
{
    (void) call;
    if (ext_pm && chp(F, ext_pm) && nent > 1) {
        const char *p = ent[1 + ch(F, nent - 1)]; struct inode *d = fs_look(p, 0); static int nn;
        if (!d) return;
        if (ch(F, 2) && fs_type(d) == 'd') { char n[PL + 40]; sprintf(n, "%s/new%d", p, nn++); sim_log("another process creates %s", n); fs_mk(n, ch(F, 2) ? 'f' : 'd', 0, 0); }
        else { sim_log("another process removes %s", p); fs_rm_rf(p); }
        ext_changes++; sim_fault_note(FT_EXTERNAL);
    }
}
static char tops[6][PL]; static int ntops;
static struct { int walk, abort_at, abort_val, set_err, skip, touch, top, slashes; } plan[4][3]; static int nplan[4];
static void worker(struct thr *t)
{
    int k;
    for (k = 0; k < nplan[t->id]; k++) {
        struct obs *o = calloc(1, sizeof *o); char path[PL]; int rc, e, eintr0, ext0, n;
        o->w.file = w_file; o->w.enter_directory = w_enter; o->w.leave_directory = w_leave;
        o->t = t; o->rng = t->rng + k; o->abort_at = plan[t->id][k].abort_at; o->abort_val = plan[t->id][k].abort_val; o->set_err = plan[t->id][k].set_err;
        o->skip_pm = plan[t->id][k].skip; o->touch = plan[t->id][k].touch;
        strcpy(path, tops[plan[t->id][k].top]); strcpy(o->root, path);
        n = strlen(o->root); while (n > 0 && o->root[n - 1] == '/') o->root[--n] = 0;
        if (plan[t->id][k].slashes && path[0]) { strcat(path, "/"); if (plan[t->id][k].slashes == 2) strcat(path, "//"); }
        sim_clear_last_injected(); eintr0 = sim_fault_count(FT_EINTR); ext0 = ext_changes;
        o->st[0].d = fs_look(path, 1); if (o->st[0].d && fs_type(o->st[0].d) != 'd') o->st[0].d = 0;
        if (plan[t->id][k].walk) {
            strcpy(o->st[0].full, o->root);
            sim_log("walk(\"%s\") begins", path);
            rc = cork_walk_directory(path, &o->w);
            e = cork_error_code(); sim_log("walk(%s) = %d, error %d, %d callbacks", path, rc, e, o->calls);
            verdict(o, "walk", path, rc, e, eintr0, ext0, badlinks);
        } else {
            struct cork_file *f = cork_file_new(path);
            strcpy(o->st[0].full, path);
            if (!path[0]) strcpy(o->st[0].full, "?");
            sim_log("iterate(\"%s\") begins", path);
            rc = cork_file_iterate_directory(f, i_cb, o);
            e = cork_error_code(); sim_log("iterate(%s) = %d, error %d, %d callbacks", path, rc, e, o->calls);
            CHECK(!strcmp(cork_path_get(cork_file_path(f)), path), "C18:path-changed", "the directory object's path changed");
            if (rc == 0 && o->st[0].d) i_complete(o, path);
            { struct inode *d = o->st[0].d; if (rc == 0 && d) { o->root[0] = 0; }
              if (rc == 0) { CHECK(!o->aborted, "C18:abort-ignored", "iteration reports success although a callback returned %d", o->abort_val); CHECK(d, "C18:success-missing", "iterating %s succeeds", path);
                  { const char *c = sim_last_call_injected(); CHECK(!*c || !strcmp(c, "stat") || !strcmp(c, "lstat"), "C18:failure-hidden", "iteration reports success although %s failed", c); } cork_error_clear(); sim_probe("complete iteration"); }
              else verdict(o, "iteration", path, rc, e, eintr0, ext0, 0 /* links in the directory are no reason to fail */); }
            cork_file_free(f);
        }
        free(o);
    }
}
static void build(const char *top, int depth, int *left)
{
    static const char *const names[] = { "a", "b", "c%s", ".h", "..x", "dd" };
    int n = wide && (!depth || ch(W, 4) == 0) ? (wide > 1 && !depth ? 257 + ch(W, 20) : 20 + ch(W, 120)) : deep ? 1 + ch(W, 2) : ch(W, 5), i;
    for (i = 0; i < n && *left > 0; i++) {
        char p[PL], nm[256]; int k = deep && i == 0 ? 5 : ch(W, 10);
        fs_name(nm, wide ? i : -1, names[(i + ch(W, 2)) % 6], longn);
        snprintf(p, sizeof p, "%s/%s", top, nm);
        if (fs_look(p, 0)) continue;
        --*left;
        if (k < 4) fs_mk(p, 'f', "contents", 0644);
        else if (k < 7 && depth < (deep ? deep : 4) && (!wide || ch(W, 6) == 0)) { fs_mk(p, 'd', 0, 0755); strcpy(ent[nent++], p); build(p, depth + 1, left); continue; }
        else if (k == 7) fs_mk(p, 'o', 0, 0644);
        else if (k == 8 && ch(W, 3) == 0) { badlinks = 1; fs_mk(p, 'l', ch(W, 2) ? "/nowhere" : strrchr(p, '/') + 1, 0777); }
        else { static const char *const to[] = { "/out", "/out/f", "/out/sub" }; fs_mk(p, 'l', to[ch(W, 3)], 0777); }
        strcpy(ent[nent++], p);
    }
}
static void run(void)
{
    int left, i, k, nthr, nfd0; struct thr th[4]; uint64_t r;
    r = rnd_seed();
    k = ch(W, 24); wide = k == 0 ? 1 + (ch(W, 6) == 5) : 0; deep = k == 1 ? (ch(W, 5) == 4 ? 70 : 20) : 0; longn = k == 2 ? 100 + ch(W, 156) : k < 3 ? (ch(W, 2) ? 1 + ch(W, 60) : 0) : 0;
    if (deep > 20 && longn > 20) longn = 20;             /* PL */
    left = wide > 1 ? 280 : wide ? 60 + ch(W, 200) : deep ? 2 * deep : 3 + ch(W, 22);
    fs_mk("/out", 'd', 0, 0755); fs_mk("/out/f", 'f', "x", 0600); fs_mk("/out/sub", 'd', 0, 0755); fs_mk("/out/sub/g", 'f', "y", 0600); fs_mk("/out/sub/a", 'f', 0, 0600);
    fs_mk("/t", 'd', 0, 0755); strcpy(ent[nent++], "/t");
    build("/t", 0, &left);
    first_new_ino = fs_ino(fs_mk("/tl", 'l', "/t", 0777)) + 1;
    if (ch(W, 2)) fs_chdir_raw("/t");
    strcpy(tops[ntops++], "/t"); strcpy(tops[ntops++], "/"); strcpy(tops[ntops++], ent[ch(W, nent)]);
    strcpy(tops[ntops++], fs_cwd() == fs_root() ? "t" : "."); strcpy(tops[ntops++], ch(W, 2) ? "/tl" : "/missing"); strcpy(tops[ntops++], ch(W, 2) ? "/out/f" : "");
    fs_reader_order = ch(W, 2); fs_dtype_unknown = ch(W, 4) == 0; sim_errno_scribble = ch(W, 2);
    ext_pm = ch(W, 4) ? 0 : 20 + ch(W, 200);
    if (ch(W, 10) == 0 && nent > 1) { k = 1 + ch(W, nent - 1); struct inode *x = fs_look(ent[k], 0); if (x && fs_type(x) == 'd') { fs_set_denied(x, 1); denied = 1; } }
    if (ch(W, 2)) {
        if (ch(W, 2)) sim_fault_enable(FT_STAT_ERR, 20 + ch(W, 200));
        if (ch(W, 3)) sim_fault_enable(FT_OPENDIR_ERR, 20 + ch(W, 300));
        if (ch(W, 3)) sim_fault_enable(FT_READDIR_ERR, 20 + ch(W, 300));
        if (ch(W, 3) == 0) sim_fault_enable(FT_CLOSE_ERR, 20 + ch(W, 300));
        if (ch(W, 3) == 0) sim_fault_enable(FT_EINTR, 20 + ch(W, 300));
        sim_fault_budget(1 + ch(W, 4));
    }
    nfd0 = sim_nfds();
    nthr = 1 + (ch(W, 4) == 0);
    for (i = 0; i < nthr; i++) {
        nplan[i] = 1 + ch(W, 2);
        for (k = 0; k < nplan[i]; k++) {
            static const int vals[] = { -1, 1, 5, -7, 2, 1000000 };
            plan[i][k].walk = ch(W, 3) != 0;
            if (ch(W, 3) == 0) { plan[i][k].abort_at = 1 + ch(W, ch(W, 2) ? 4 : 20); plan[i][k].abort_val = vals[ch(W, 6)]; plan[i][k].set_err = ch(W, 2); }
            plan[i][k].skip = ch(W, 3) ? 0 : ch(W, 700); plan[i][k].touch = ch(W, 2);
            plan[i][k].top = ch(W, 2) ? 0 : ch(W, 6); plan[i][k].slashes = ch(W, 4) ? 0 : 1 + ch(W, 2);
        }
    }
    sim_syscall_cb = other;
    for (i = 0; i < nthr; i++) { int kind = ch(W, 3); thr_start(&th[i], kind, i, r + 1000 * i, worker, 0); }
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    sim_syscall_cb_off();
    CHECK(sim_ndirs() == 0, "C18:dir-leak", "%d directory handles are open", sim_ndirs());
    CHECK(sim_nfds() == nfd0, "C18:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    end_process(0);
}
DEFCHECK(C18, run);
