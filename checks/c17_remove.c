/* C17: removal of files and directories. */
#include "common.h"
#include "libcork/os/files.h"

#define PL 2400
static int wide, deep, longn;
static char *before; static char path[PL + 100] /* as given */, real[PL] /* normal form */; static int ext_pm, ext_create, others, ext_changes, denied, isroot;
static char ent[420][PL]; static int nent;          /* everything created */
static int nonperm_ok, pre_exists;
static uint64_t seen_missing, seen_there, tick;

static int inside(const char *p, const char *top) { size_t n = strlen(top); return !strncmp(p, top, n) && (p[n] == 0 || p[n] == '/' || p[n] == ' '); }
static void poll_fs(void) { tick++; if (fs_look(real, 0)) seen_there = tick; else seen_missing = tick; }
static void other(const char *call)
{
    (void) call;
    poll_fs();
    if (ext_pm && chp(F, ext_pm)) {
        const char *p = ent[ch(F, nent)];
        if (inside(p, real)) {
            if (ext_create && ch(F, 2)) {
                struct inode *d = fs_look(p, 0); char n[PL + 40];
                if (d && fs_type(d) == 'd') {
                    char ty = ch(F, 2) ? 'f' : 'd'; /* never another type under the same name */
                    sprintf(n, "%s/new-%c%u", p, ty, ch(F, 3));
                    if (fs_mk(n, ty, 0, 0)) { sim_log("another process creates %s", n); sim_fault_note(FT_EXTERNAL); ext_changes++; }
                }
            } else if (fs_look(p, 0)) { sim_log("another process removes %s", p); if (fs_rm_rf(p)) { sim_fault_note(FT_EXTERNAL); ext_changes++; } }
        }
        poll_fs();
    }
}
static int nonempty(void) { struct inode *i = fs_look(real, 0); char *s, k[PL + 10]; if (!i || fs_type(i) != 'd') return 0; s = fs_snapshot(); sprintf(k, "\n%s/", real); return strstr(s, k) != 0; }
static void remover(struct thr *t)
{
    int reps = 1 + rndn(&t->rng, 3), use_exists = rndn(&t->rng, 3) == 0; struct cork_file *f = cork_file_new(path); bool ex = false;
    if (use_exists) { cork_file_exists(f, &ex); cork_error_clear(); }
    while (reps-- > 0) {
        unsigned flags = (rndn(&t->rng, 3) ? CORK_FILE_RECURSIVE : 0) | (rndn(&t->rng, 2) ? CORK_FILE_PERMISSIVE : 0);
        int rc, e, hard, eintr0, ok, full0, pre, ch0; uint64_t t0; char pt; char *s0; struct inode *ino;
        sim_clear_last_injected(); eintr0 = sim_fault_count(FT_EINTR); ch0 = ext_changes;
        poll_fs(); t0 = tick; full0 = nonempty(); ino = fs_look(real, 0); pre = ino != 0; pt = ino ? fs_type(ino) : 0; s0 = fs_snapshot();
        sim_log("remove(%s, %u) begins", path, flags);
        rc = cork_file_remove(f, flags);
        e = rc ? (int) cork_error_code() : 0; hard = sim_last_errno_injected();
        poll_fs();
        sim_log("remove(%s, %u) = %d, error %d, injected %d", path, flags, rc, e, hard);
        sim_state(rc * 1000 + e * 4 + flags);
        CHECK(rc == 0 || rc == -1, "C17:result", "result is %d", rc);
        if (rc == 0) {
            CHECK(seen_missing >= t0, "C17:success-but-there", "success, but %s was there all the time", path);
            CHECK(!fs_look(real, 0), "C17:success-but-there", "success, but %s still exists", path);
            CHECK(!cork_error_occurred(), "C17:error-on-success", "success, but the error condition is set (%d)", (int) cork_error_code());
            CHECK(!hard, "C17:failure-hidden", "a call failed with %d, removal reports success", hard);
            if (!(flags & CORK_FILE_PERMISSIVE)) { CHECK(seen_there >= t0, "C17:missing-accepted", "success without the permissive flag, but %s was never there", path); nonperm_ok++; }
            else if (!pre) sim_probe("missing, permissive");
            if (full0 && !(flags & CORK_FILE_RECURSIVE) && !ext_pm && !others) sim_fail("C17:nonempty-removed", "%s was not empty and was removed without the recursive flag", path);
            if (pt == 'l') sim_probe("link removed");
            if (full0 && (flags & CORK_FILE_RECURSIVE)) sim_probe("tree removed");
            sim_faults_off++; ex = true;
            CHECK(cork_file_exists(f, &ex) == 0, "C17:exists-failed", "the existence query fails after removal: %d", (int) cork_error_code());
            CHECK(!ex, "C17:stale-existence", "the object claims that %s exists after having removed it", path);
            sim_faults_off--;
        } else {
            int eintr = (int) sim_fault_count(FT_EINTR) > eintr0;
            CHECK(e != 0, "C17:no-error", "failure without an error condition");
            if (sim_was_injected(e)) { ok = 1; sim_probe("failing call reported"); }
            else if (e == EINTR) ok = eintr;
            else if (e == ENOENT) ok = !(flags & CORK_FILE_PERMISSIVE) && (!pre || ext_pm || others);
            else if (e == ENOTEMPTY) ok = (full0 && !(flags & CORK_FILE_RECURSIVE)) || (ext_create && ext_changes > ch0) || (!(flags & CORK_FILE_RECURSIVE) && ext_changes > ch0);
            else if (e == EACCES) ok = denied;
            else if (e == ELOOP) ok = strstr(real, "missing") != 0; /* through a link to itself */
            else ok = 0;
            CHECK(ok, "C17:spurious-failure", "removing %s (flags %u) fails with %d (%s) although nothing failed (injected: %d)", path, flags, e, strerror(e), hard);
            if (!(flags & CORK_FILE_RECURSIVE) && !ext_pm && !others) CHECK(!strcmp(s0, fs_snapshot()), "C17:other-change", "a failed removal changed the file system");
            sim_probe("failure");
            cork_error_clear();
        }
    }
    cork_file_free(f);
}
static void build(const char *top, int depth, int *left, const char *toptarget)
{
    static const char *const names[] = { "a", "b", "c", ".h", "with %s space", "dd" };
    static const char *const to[] = { "/out", "/out/f", "/nowhere", "/out/sub", ".", "..", "self", "/t" };
    int n = wide && (!depth || ch(W, 4) == 0) ? (wide > 1 && !depth ? 257 + ch(W, 20) : 20 + ch(W, 120)) : deep ? 1 + ch(W, 2) : ch(W, 5), i;
    (void) toptarget;
    for (i = 0; i < n && *left > 0; i++) {
        char p[PL], nm[256]; int k = deep && i == 0 ? 4 : ch(W, 8);
        fs_name(nm, wide ? i : -1, names[(i + ch(W, 2)) % 6], longn);
        snprintf(p, sizeof p, "%s/%s", top, nm);
        if (fs_look(p, 0)) continue;
        --*left;
        if (k < 3) fs_mk(p, 'f', "contents", 0644);
        else if (k < 5 && depth < (deep ? deep : 4) && (!wide || ch(W, 6) == 0)) { fs_mk(p, 'd', 0, ch(W, 4) ? 0755 : 0); strcpy(ent[nent++], p); build(p, depth + 1, left, toptarget); continue; }
        else if (k == 5) fs_mk(p, 'o', 0, 0644);
        else { const char *t = to[ch(W, 8)]; fs_mk(p, 'l', !strcmp(t, "self") ? strrchr(p, '/') + 1 : t, 0777); }
        strcpy(ent[nent++], p);
    }
}
static void run(void)
{
    int left, i, k, nthr, nfd0; struct thr th[4]; uint64_t r; char *after, *l;
    r = rnd_seed();
    k = ch(W, 24); wide = k == 0 ? 1 + (ch(W, 6) == 5) : 0; deep = k == 1 ? (ch(W, 5) == 4 ? 70 : 20) : 0; longn = k == 2 ? 100 + ch(W, 156) : k < 3 ? (ch(W, 2) ? 1 + ch(W, 60) : 0) : 0;
    if (deep > 20 && longn > 20) longn = 20;             /* PL */
    left = wide > 1 ? 280 : wide ? 60 + ch(W, 200) : deep ? 2 * deep : 3 + ch(W, 22);
    fs_mk("/out", 'd', 0, 0755); fs_mk("/out/f", 'f', "precious", 0600); fs_mk("/out/sub", 'd', 0, 0755); fs_mk("/out/sub/g", 'f', "precious too", 0600); fs_mk("/out/sub/a", 'f', 0, 0600);
    fs_mk("/tt", 'd', 0, 0755); fs_mk("/tt/a", 'f', "x", 0600);
    fs_mk("/t", 'd', 0, 0755); strcpy(ent[nent++], "/t");
    build("/t", 0, &left, 0);
    k = ch(W, 3) ? 0 : ch(W, nent);                 /* mostly the whole tree */
    strcpy(real, ent[k]);
    if (ch(W, 12) == 0) { static const char *const miss[] = { "/t/missing", "/t/a/missing", "/nodir/x", "/out/f/x" }; strcpy(real, miss[ch(W, 4)]); }
    if (ch(W, 2)) fs_chdir_raw(ch(W, 2) ? "/out" : "/");
    /* spelling */
    if (fs_cwd() == fs_look("/out", 1) && ch(W, 2)) sprintf(path, "..%s", real);
    else if (fs_cwd() == fs_root() && ch(W, 2)) strcpy(path, real + 1);
    else strcpy(path, real);
    if (ch(W, 6) == 0) { struct inode *x = fs_look(real, 0); if (x && fs_type(x) == 'd') strcat(path, "/"); }
    fs_reader_order = ch(W, 2); fs_dtype_unknown = ch(W, 4) == 0; sim_errno_scribble = ch(W, 2);
    ext_pm = ch(W, 3) ? 0 : 50 + ch(W, 400); ext_create = ext_pm && ch(W, 3) == 0;
    if (ch(W, 10) == 0 && nent > 1) { k = 1 + ch(W, nent - 1); struct inode *x = fs_look(ent[k], 0); if (x && fs_type(x) == 'd') { fs_set_denied(x, 1); denied = 1; } }
    if (ch(W, 2)) {
        if (ch(W, 3)) sim_fault_enable(FT_UNLINK_ERR, 20 + ch(W, 300));
        if (ch(W, 3)) sim_fault_enable(FT_RMDIR_ERR, 20 + ch(W, 300));
        if (ch(W, 3)) sim_fault_enable(FT_STAT_ERR, 20 + ch(W, 200));
        if (ch(W, 3)) sim_fault_enable(FT_OPENDIR_ERR, 20 + ch(W, 300));
        if (ch(W, 3)) sim_fault_enable(FT_READDIR_ERR, 20 + ch(W, 300));
        if (ch(W, 3) == 0) sim_fault_enable(FT_CLOSE_ERR, 20 + ch(W, 300));
        if (ch(W, 3) == 0) sim_fault_enable(FT_EINTR, 20 + ch(W, 300));
        sim_fault_budget(1 + ch(W, 4));
    }
    pre_exists = fs_look(real, 0) != 0;
    before = fs_snapshot(); nfd0 = sim_nfds();
    sim_syscall_cb = other;
    nthr = 1 + (ch(W, 3) == 0 ? 1 + ch(W, 2) : 0); others = nthr > 1;
    for (i = 0; i < nthr; i++) { int kind = ch(W, 3); if (i) ; thr_start(&th[i], kind, i, r + 1000 * i, remover, 0); }
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    sim_syscall_cb_off();
    CHECK(nonperm_ok <= pre_exists, "C17:missing-accepted", "%d calls without the permissive flag claim to have removed %s", nonperm_ok, path);
    /* nothing outside the target has changed */
    after = fs_snapshot();
    for (i = 0; i < 2; i++) {
        const char *x = i ? after : before, *y = i ? before : after;
        for (l = (char *) x; *l; l = strchr(l, '\n') + 1) {
            char line[PL + 100]; char *e = strchr(l, '\n'), *f; size_t n = e - l + 1;
            if (inside(l, real)) continue;
            memcpy(line, l, n); line[n] = 0;
            f = strstr(y, line);
            CHECK(f && (f == y || f[-1] == '\n'), "C17:outside-change", "%s outside %s: %s", i ? "something appeared" : "something disappeared or changed", real, line);
        }
    }
    CHECK(sim_ndirs() == 0, "C17:dir-leak", "%d directory handles are open", sim_ndirs());
    CHECK(sim_nfds() == nfd0, "C17:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    end_process(0);
}
DEFCHECK(C17, run);
