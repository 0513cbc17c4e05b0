/* C16: directory creation. */
#include "common.h"
#include "libcork/os/files.h"

#define MAXP 900
#define PL 3200                           /* every path below is shorter */
static char cand[MAXP][PL]; static int ncand;      /* every prefix of every target, trailing slashes cut */
static char target[3][PL]; static int ntarget; static const char *base; static char spelled[3][4][PL];
/* history of each candidate, kept up to date before and after each change */
static struct { uint64_t dir_seq, non_seq, gone_seq; } hist[MAXP];
static uint64_t tick;
static char lib_path[1000][PL], ext_path[1000][PL];
static int lib_ino[1000], nlib, ext_ino[1000], next_; static int pre_max_ino;
static int removers, externals, nlinks, ext_pm; static uint64_t xr;
static mode_t mode;

static char state_of(const char *p)
{
    struct inode *i = fs_look(p, 1);
    if (i) return fs_type(i) == 'd' ? 'd' : 'n';
    return fs_look(p, 0) ? 'n' : 0;                 /* a dangling link is in the way */
}
static void poll_fs(void)
{
    int i, k;
    tick++;
    for (i = 0; i < ncand; i++) {
        char s = state_of(cand[i]);
        if (s == 'd') {
            int ino = fs_ino(fs_look(cand[i], 1));
            hist[i].dir_seq = tick;
            if (ino > pre_max_ino) {
                for (k = 0; k < nlib; k++) if (lib_ino[k] == ino) goto next;
                for (k = 0; k < next_; k++) if (ext_ino[k] == ino) goto next;
                if (nlib < 1000) { fs_path_of(fs_look(cand[i], 1), lib_path[nlib], PL); lib_ino[nlib++] = ino; }
                CHECK((fs_mode(fs_look(cand[i], 1)) & 07777) == (mode & 01777 & ~sim_umask), "C16:mode", "%s was created with mode %o, requested %o with umask %o", cand[i],
                      fs_mode(fs_look(cand[i], 1)) & 07777, (unsigned) mode, (unsigned) sim_umask);
            }
        } else if (s) hist[i].non_seq = tick; else hist[i].gone_seq = tick;
    next: ;
    }
}
static int lib_created(const char *p) { struct inode *i = fs_look(p, 1); int k; if (i) for (k = 0; k < nlib; k++) if (lib_ino[k] == fs_ino(i)) return 1; return 0; }
/* the real path of an entry that may exist or not */
static int norm(const char *p, char *out)
{
    struct inode *x = fs_look(p, 1); char up[PL], *q;
    if (x && fs_type(x) == 'd') { fs_path_of(x, out, PL); return 1; }
    strcpy(up, p); q = strrchr(up, '/');
    if (!q) strcpy(up, "."); else if (q == up) strcpy(up, "/"); else *q = 0;
    x = fs_look(up, 1);
    if (!x || fs_type(x) != 'd') return 0;
    fs_path_of(x, out, PL);
    if (strcmp(out, "/")) strcat(out, "/");
    strcat(out, strrchr(p, '/') ? strrchr(p, '/') + 1 : p);
    return 1;
}
/* somebody else changes the tree just before one of our calls */
static void other(const char *call)
{
    (void) call;
    poll_fs();
    if (ext_pm && chp(F, ext_pm)) {
        const char *p = cand[ch(F, ncand)]; int what = ch(F, 8); struct inode *i;
        if (removers && what < 3) { if (strcmp(p, "/") && strcmp(p, "/w")) { sim_log("another process removes %s", p); if (fs_rm_rf(p)) sim_fault_note(FT_EXTERNAL); } }
        else if (!fs_look(p, 0) && (i = fs_mk(p, what == 7 && nlinks ? 'f' : 'd', 0, 0700))) {
            if (next_ < 1000) { norm(p, ext_path[next_]); ext_ino[next_++] = fs_ino(i); }
            sim_log("another process creates %s", p); sim_fault_note(FT_EXTERNAL);
        }
        poll_fs();
    }
}
static int cand_of(const char *p) { int i; char t[PL]; size_t n; snprintf(t, sizeof t, "%s", p); n = strlen(t); while (n > 1 && t[n - 1] == '/') t[--n] = 0; for (i = 0; i < ncand; i++) if (!strcmp(cand[i], t)) return i; return -1; }
static void add_cands(const char *p)
{
    size_t n = strlen(p), i;
    for (i = 1; i <= n; i++) if (i == n || (p[i] == '/' && p[i - 1] != '/')) {
        char t[PL]; memcpy(t, p, i); t[i] = 0;
        while (i == n && strlen(t) > 1 && t[strlen(t) - 1] == '/') t[strlen(t) - 1] = 0;
        if (cand_of(t) < 0) { if (ncand == MAXP) sim_fail("harness", "too many candidates"); } 
        if (cand_of(t) < 0) strcpy(cand[ncand++], t);
    }
}
static int others;
static int enddot(const char *p) { size_t n = strlen(p); return p[n - 1] == '.' && (n == 1 || p[n - 2] == '/'); }
static int nsucc[3];                               /* non-permissive successes per target */
static void creator(struct thr *t)
{
    int reps = 1 + rndn(&t->rng, 3), sp = rndn(&t->rng, 4), ti = rndn(&t->rng, ntarget); struct cork_file *f; const char *path = spelled[ti][sp];
    f = cork_file_new(path);
    while (reps-- > 0) {
        unsigned flags = (rndn(&t->rng, 3) ? CORK_FILE_RECURSIVE : 0) | (rndn(&t->rng, 3) ? CORK_FILE_PERMISSIVE : 0);
        int rc, e, hard, ci = cand_of(path), k; uint64_t t0; bool ex = false; int pre;
        if (rndn(&t->rng, 3) == 0) { cork_file_exists(f, &ex); cork_error_clear(); }
        sim_clear_last_injected();
        poll_fs(); t0 = tick;
        pre = state_of(path);
        sim_log("%s: mkdir(%s, %o, %u) begins", t->kind == TK_TASK ? "task" : "thread", path, (unsigned) mode, flags);
        rc = cork_file_mkdir(f, mode, flags);
        e = rc ? (int) cork_error_code() : 0; hard = sim_last_errno_injected();
        poll_fs();
        sim_log("mkdir(%s) = %d, error %d, injected %d", path, rc, e, hard);
        sim_state(rc * 100 + e);
        CHECK(rc == 0 || rc == -1, "C16:result", "result is %d", rc);
        if (rc == 0) {
            CHECK(hist[ci].dir_seq >= t0, "C16:success-without-directory", "success, but %s was no directory at any moment of the call", path);
            if (!removers) {
                CHECK(state_of(path) == 'd', "C16:success-without-directory", "success, but %s is not a directory", path);
                sim_faults_off++; ex = false;
                CHECK(cork_file_exists(f, &ex) == 0, "C16:exists-failed", "the existence query fails after creation: %d", cork_error_code());
                CHECK(ex, "C16:stale-existence", "the object denies the existence of %s after having created it", path);
                sim_faults_off--;
            }
            if (!(flags & CORK_FILE_PERMISSIVE)) {
                CHECK(pre == 0 || removers, "C16:existing-accepted", "%s existed, the call without the permissive flag succeeded", path);
                nsucc[ti]++;
                sim_probe("created, not permissive");
            } else if (pre == 0 && !lib_created(path)) sim_probe("created by others during the call");
            CHECK(!cork_error_occurred(), "C16:error-on-success", "success, but the error condition is set (%d)", (int) cork_error_code());
        } else {
            int ok = 0, anynon = 0, anygone = 0;
            CHECK(e != 0, "C16:no-error", "failure without an error condition");
            for (k = 0; k < ncand; k++) {
                if (strncmp(cand[k], path, strlen(cand[k]))) continue;
                if (hist[k].non_seq >= t0) anynon = 1;
                if (hist[k].gone_seq >= t0) anygone = 1;
            }
            if (hard && e == hard) { ok = 1; sim_probe("failing call reported"); }
            else if (e == EEXIST) ok = (!(flags & CORK_FILE_PERMISSIVE) && hist[ci].dir_seq >= t0 && (pre || others || enddot(cand[ci]))) || anynon || removers;
            else if (e == ENOENT) ok = (!(flags & CORK_FILE_RECURSIVE) && anygone) || removers || anynon;
            else if (e == ENOTDIR) ok = anynon;
            else if (e == EACCES) ok = nlinks == 3;
            CHECK(ok, "C16:spurious-failure", "creating %s fails with %d (%s) although nothing failed (injected: %d)", path, e, strerror(e), hard);
            sim_probe("failure");
            cork_error_clear();
        }
    }
    cork_file_free(f);
}
static int allowed(const char *line, char paths[][PL], int n)
{
    int i; const char *e = strchr(line, ' ');
    for (i = 0; i < n; i++) if (strlen(paths[i]) == (size_t) (e - line) && !strncmp(paths[i], line, e - line)) return 1;
    return 0;
}
static void run(void)
{
    static const char *const names[] = { "a", "b", "c%s", "a.b" };
    static const int modes[] = { 0755, 0750, 0700, 0777, 01777, 0711 };
    int i, k, n, nthr, nfd0, deep, longn; char *before, *after, *l; static char ok[MAXP + 520][PL]; struct thr th[4]; uint64_t r; size_t live; int c, kinds[4];
    r = rnd_seed(); xr = r ^ 99;
    fs_mk("/w", 'd', 0, 0755); fs_mk("/keep", 'f', "data", 0600); fs_mk("/w/keep", 'd', 0, 0755); fs_mk("/w/keep/x", 'f', "1", 0644);
    fs_chdir_raw("/w");
    mode = ch(W, 3) ? modes[ch(W, 6)] : ch(W, 01000) | (ch(W, 6) ? 0 : 01000);
    sim_umask = ch(W, 3) ? 022 : ch(W, 3) == 0 ? 0 : ch(W, 2) ? 077 : ch(W, 01000);
    ntarget = 1 + (ch(W, 3) == 0) + (ch(W, 6) == 0);
    base = ch(W, 2) ? "/w" : "";
    k = ch(W, 20); deep = k == 1 ? (ch(W, 5) == 4 ? 66 : 12 + ch(W, 14)) : 0; longn = k == 2 ? 50 + ch(W, 206) : 0;
    for (i = 0; i < ntarget; i++) {
        n = deep ? deep : 1 + ch(W, 5);
        if (i && ch(W, 2)) {                       /* below or above the first one */
            strcpy(target[i], target[0]);
            if (ch(W, 2)) { l = strrchr(target[i], '/'); if (l && l > target[i] && strcmp(target[i], "/w")) *l = 0; } else { char nm[256]; fs_name(nm, -1, names[ch(W, 4)], longn); strcat(strcat(target[i], "/"), nm); }
        } else {
            strcpy(target[i], base);
            for (k = 0; k < n; k++) { if (target[i][0]) strcat(target[i], "/"); if (ch(W, 12)) { char nm[256]; fs_name(nm, -1, names[ch(W, 4)], longn); strcat(target[i], nm); } else strcat(target[i], "."); }
        }
        if (!strcmp(target[i], "/w")) strcat(target[i], "/q");
        for (k = 0; k < 4; k++) {                   /* other spellings of the same path */
            char *o = spelled[i][k]; const char *p; int odd = ch(W, 4) == 0;
            for (p = target[i]; *p; p++) { *o++ = *p; if (*p == '/' && p > target[i] && odd && rndn(&r, 2)) *o++ = '/'; }
            if (odd && rndn(&r, 3) == 0) { *o++ = '/'; if (rndn(&r, 2)) *o++ = '/'; }
            *o = 0;
            add_cands(spelled[i][k]);
        }
    }
    /* what is there already: some prefix as directories, perhaps something in the way */
    if (ch(W, 3) == 0) for (i = 0; i < ncand; i++) { if (!fs_look(cand[i], 0) && ch(W, 3)) fs_mk(cand[i], 'd', 0, 0755); }
    nlinks = ch(W, 3) ? 0 : 1 + ch(W, 3);
    if (nlinks == 1) { k = ch(W, ncand); if (!fs_look(cand[k], 0)) fs_mk(cand[k], 'f', "in the way", 0644); }
    if (nlinks == 2) { k = ch(W, ncand); if (!fs_look(cand[k], 0)) { static const char *const to[] = { "/w/keep", "/nowhere", "/keep", "." }; fs_mk(cand[k], 'l', to[ch(W, 4)], 0777); } }
    if (nlinks == 3) { k = ch(W, ncand); if (fs_look(cand[k], 0) && fs_type(fs_look(cand[k], 1)) == 'd') fs_set_denied(fs_look(cand[k], 1), 1); }
    ext_pm = ch(W, 3) ? 0 : 50 + ch(W, 500); removers = ext_pm && ch(W, 3) == 0;
    if (ch(W, 2)) {
        if (ch(W, 3)) sim_fault_enable(FT_MKDIR_ERR, 50 + ch(W, 400));
        if (ch(W, 3)) sim_fault_enable(FT_STAT_ERR, 50 + ch(W, 400));
        sim_fault_budget(1 + ch(W, 6));
    }
    sim_errno_scribble = ch(W, 2);
    pre_max_ino = 0;
    { struct inode *x = fs_mk("/mark", 'f', 0, 0); pre_max_ino = fs_ino(x); }
    before = fs_snapshot(); nfd0 = sim_nfds();
    poll_fs();
    { extern void (*sim_syscall_cb)(const char *); sim_syscall_cb = other; }
    live = sim_heap_live(); (void) live;
    nthr = 1 + (ch(W, 2) ? ch(W, 3) : 0);
    others = nthr > 1 || ext_pm;
    for (i = 0; i < nthr; i++) kinds[i] = ch(W, 3);
    for (i = 0; i < nthr; i++) { thr_start(&th[i], kinds[i], i, r + 1000 * i, creator, 0); }
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    sim_syscall_cb_off(); poll_fs();
    for (i = 0; i < ntarget; i++) {
        /* every success without the permissive flag needs a creation of its own */
        if (!removers) CHECK(nsucc[i] <= 1, "C16:created-twice", "%d calls without the permissive flag succeeded for %s", nsucc[i], target[i]);
    }
    { int t = 0; for (i = 0; i < ntarget; i++) t += nsucc[i]; CHECK(t <= nlib, "C16:existing-accepted", "%d calls without the permissive flag succeeded, %d directories were created", t, nlib); }
    /* nothing else in the file system changed */
    after = fs_snapshot(); n = 0;
    for (i = 0; i < nlib; i++) strcpy(ok[n++], lib_path[i]);
    for (i = 0; i < next_; i++) strcpy(ok[n++], ext_path[i]);
    for (i = 0; i < ncand; i++) {
        if (norm(cand[i], ok[n])) n++;
    }
    for (l = after; *l; l = c ? strchr(l, '\n') + 1 : l + strlen(l)) {
        char line[PL + 100]; char *e = strchr(l, '\n'), *f; c = e != 0; memcpy(line, l, e - l + 1); line[e - l + 1] = 0;
        f = strstr(before, line);
        if (f && (f == before || f[-1] == '\n')) continue;
        CHECK(allowed(line, ok, n), "C16:other-change", "the file system has a new entry: %s", line);
    }
    if (!removers) for (l = before; *l; l = strchr(l, '\n') + 1) {
        char line[PL + 100]; char *e = strchr(l, '\n'), *f; memcpy(line, l, e - l + 1); line[e - l + 1] = 0;
        f = strstr(after, line);
        CHECK(f && (f == after || f[-1] == '\n'), "C16:other-change", "an entry disappeared or changed: %s", line);
    }
    CHECK(sim_nfds() == nfd0, "C16:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    end_process(0);
}
DEFCHECK(C16, run);
