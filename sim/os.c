/* Simulated operating system: file system, descriptors, pipes, processes,
 * environment, clock, exit handlers.  Functions named sim_X replace the libc
 * function X in the code under test. */
#define _GNU_SOURCE
#include "internal.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ================================================================ types */
struct dent { char name[256]; struct inode *i; struct dent *next; };
struct inode {
    int ino; char type; mode_t mode; int denied;
    char *data; size_t size, cap;          /* file data or link target */
    struct dent *ents; struct inode *parent; int unlinked;
    uint64_t ctime;
};
struct pipe { char *buf; size_t cap, len, head; int readers, writers; int id; };
struct ofd {
    int refs; char kind;                   /* 'f' file, 'd' dir, 'p' pipe read, 'q' pipe write, 't' terminal, 'c' made in a forked child */
    int flags; struct inode *ino; off_t off; struct pipe *pipe; int id;
};
struct fdent { struct ofd *o; int cloexec; };
#define NFD 256
struct effect { struct sinstr i; };
struct proc {
    int pid, ppid, child_idx;
    struct fdent fds[NFD];
    struct inode *cwd;
    int state;                             /* 0 alive, 1 zombie, 2 reaped */
    int wstatus;
    task *t;
    int ignterm, termsig;
    struct rec *rec;
    struct pidnode *next;
    struct script spawned;                 /* for grandchildren */
    int detached;
};
#define LITSZ 4096
struct fin { int fd; int cloexec; struct ofd *o; };
struct rec {                               /* filled in by the really forked child */
    int abrt;
    int outcome;                           /* 0 none, 1 exec, 2 exit */
    int code;
    struct script body; int has_body;
    struct { int after_body; int fd; int off, len; } lit[16]; int nlit;
    char litbuf[LITSZ]; int litlen;
    struct fin fds[NFD]; int nfd;
    struct inode *cwd;
    char program[200];
    int argc; char argv[80][200];
    int envc; char env[100][200];
    uint64_t argv_hash, env_hash;
    uint64_t hash;
    int exec_called, exec_errno;
    uint64_t step_count;
    uint64_t seq, now;
};
#define MAXPROC 160
static struct proc procs[MAXPROC];
static int nprocs;
static int next_pid;
static struct child_obs *kids[MAXCHILD];
static int nkids;
static struct rec *shrec;
static uint64_t nsys;
static int next_ino, next_ofd, next_pipe;
static struct inode *root_;
size_t sim_pipe_cap = 65536;
static size_t pipe_buf(void) { return sim_pipe_cap < 4096 ? sim_pipe_cap : 4096; }
int fs_reader_order, fs_dtype_unknown;
int sim_errno_scribble;                /* successful path calls leave something in errno, as POSIX allows */
static void scribble(void) { static const int es[] = { ENOENT, ENOTTY, EINTR, EINVAL }; if (sim_errno_scribble) errno = es[nsys % 4]; }
uint64_t sim_disk_left = (uint64_t) -1;
int sim_exit_calls;
uint64_t sim_proc_event_ns, sim_activity_ns;
void (*sim_syscall_cb)(const char *name);
int (*sim_exec_cb)(const char *program, struct script *out);
char **sim_environ;
static int ndirs;
int sim_parent_blocked_in_drain;
mode_t sim_umask;
int sim_tty_pattern;

static struct proc *P(void) { return sim_cur->p; }
proc *sim_proc0(void) { return &procs[0]; }
static int is_parent(void) { return P() == &procs[0]; }

uint64_t sim_syscalls(void) { return nsys; }
int sim_last_errno_injected(void) { return sim_cur->last_errno; }
int sim_was_injected_reading(int e) { return e > 0 && e < 192 && (sim_cur->injected_rd[e / 64] >> (e % 64) & 1); }
int sim_reading_failed(void) { return sim_cur->injected_rd[0] || sim_cur->injected_rd[1] || sim_cur->injected_rd[2]; }
const char *sim_last_call_injected(void) { return sim_cur->last_call; }
void sim_clear_last_injected(void) { sim_cur->last_errno = 0; memset(sim_cur->injected_rd, 0, sizeof sim_cur->injected_rd); sim_cur->last_call[0] = 0; memset(sim_cur->injected, 0, sizeof sim_cur->injected); }
int sim_was_injected(int e) { return e > 0 && e < 192 && (sim_cur->injected[e / 64] >> (e % 64) & 1); }
int sim_inject(const char *call, int e)
{
    sim_cur->last_errno = e;
    if (strncmp(call, "close", 5) && e > 0 && e < 192) sim_cur->injected_rd[e / 64] |= 1ull << (e % 64);
    if (e > 0 && e < 192) sim_cur->injected[e / 64] |= 1ull << (e % 64);
    snprintf(sim_cur->last_call, sizeof sim_cur->last_call, "%s", call);
    sim_log("%s fails: injected errno %d", call, e);
    return e;
}
/* entry of every simulated system call of library code */
static void sys(const char *name)
{
    nsys++;
    sim_now += 150;
    sim_point(1);
    if (sim_syscall_cb && !sim_in_child && is_parent()) {
        void (*cb)(const char *) = sim_syscall_cb;
        sim_syscall_cb = 0;               /* not recursive */
        cb(name);
        if (!sim_syscall_cb) sim_syscall_cb = cb;
    }
}
void sim_syscall_cb_off(void) { sim_syscall_cb = 0; }

/* ================================================================ inodes */
static struct inode *inode_new(char type, mode_t mode, struct inode *parent)
{
    struct inode *i = calloc(1, sizeof *i);
    i->ino = ++next_ino; i->type = type; i->mode = mode; i->parent = parent;
    return i;
}
static struct dent *dent_find(struct inode *d, const char *name)
{
    struct dent *e;
    for (e = d->ents; e; e = e->next) if (!strcmp(e->name, name)) return e;
    return 0;
}
static void dent_add(struct inode *d, const char *name, struct inode *i)
{
    struct dent *e = calloc(1, sizeof *e), **p;
    snprintf(e->name, sizeof e->name, "%s", name); e->i = i;
    for (p = &d->ents; *p; p = &(*p)->next) ;
    *p = e;
    if (i->type == 'd') i->parent = d;
}
static void dent_del(struct inode *d, const char *name)
{
    struct dent **p;
    for (p = &d->ents; *p; p = &(*p)->next)
        if (!strcmp((*p)->name, name)) { (*p)->i->unlinked = 1; *p = (*p)->next; return; }
}

struct look { struct inode *dir; char name[256]; struct inode *out; int trailing, special; };
/* 0 or errno; out == NULL: last component missing (dir, name valid) */
static int resolve(const char *path, struct inode *base, int follow, struct look *L, int depth)
{
    struct inode *d; const char *p = path;
    memset(L, 0, sizeof *L);
    if (depth > 20) return ELOOP;
    if (!*p) return ENOENT;
    if (strlen(p) >= 4096) return ENAMETOOLONG;
    d = *p == '/' ? root_ : base;
    while (*p == '/') p++;
    if (!*p) { L->out = d; L->special = 1; strcpy(L->name, "."); return 0; }
    for (;;) {
        char name[256]; size_t n = 0; struct dent *e; struct inode *x; int last;
        while (p[n] && p[n] != '/') n++;
        if (n > 255) return ENAMETOOLONG;
        memcpy(name, p, n); name[n] = 0;
        p += n;
        L->trailing = *p == '/';
        while (*p == '/') p++;
        last = !*p;
        if (d->type != 'd') return ENOTDIR;
        if (d->denied) return EACCES;
        if (d->unlinked && d != root_) { if (!strcmp(name, ".")) ; else return ENOENT; }
        L->special = 0;
        if (!strcmp(name, ".")) { x = d; L->special = 1; }
        else if (!strcmp(name, "..")) { x = d->parent ? d->parent : d; L->special = 1; }
        else { e = dent_find(d, name); x = e ? e->i : 0; }
        if (x && x->type == 'l' && (!last || follow || L->trailing)) {
            struct look K; int rc;
            char tgt[4200];
            snprintf(tgt, sizeof tgt, "%s%s", x->data, (!last || L->trailing) ? "/." : "");
            rc = resolve(tgt, d, 1, &K, depth + 1);
            if (rc) return rc;
            if (!K.out) {
                if (!last) return ENOENT;
                *L = K; return 0;
            }
            x = K.out;
        }
        if (last) {
            if (x && L->trailing && x->type != 'd') return ENOTDIR;
            L->dir = d; memcpy(L->name, name, n + 1); L->out = x;
            return 0;
        }
        if (!x) return ENOENT;
        d = x;
    }
}

struct inode *fs_root(void) { return root_; }
char fs_type(struct inode *i) { return i->type; }
mode_t fs_mode(struct inode *i) { return i->mode; }
size_t fs_size(struct inode *i) { return i->size; }
const char *fs_data(struct inode *i) { return i->data ? i->data : ""; }
int fs_ino(struct inode *i) { return i->ino; }
void fs_set_denied(struct inode *i, int d) { i->denied = d; }
void fs_set_data(struct inode *i, const void *d, size_t n)
{
    i->data = realloc(i->data, n + 1); memcpy(i->data, d, n); i->data[n] = 0; i->size = n; i->cap = n;
}
struct inode *fs_look(const char *path, int follow)
{
    struct look L;
    if (resolve(path, procs[0].cwd, follow, &L, 0)) return 0;
    return L.out;
}
int fs_errno(const char *path, int follow)
{
    struct look L; int rc = resolve(path, procs[0].cwd, follow, &L, 0);
    return rc ? rc : L.out ? 0 : ENOENT;
}
struct inode *fs_mk(const char *path, char type, const char *content, mode_t mode)
{
    struct look L; struct inode *i; char tmp[4200]; size_t n;
    snprintf(tmp, sizeof tmp, "%s", path);
    n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    if (resolve(tmp, procs[0].cwd, 0, &L, 0)) return 0;
    if (L.out) return L.out->type == type ? L.out : 0;
    i = inode_new(type, mode ? mode : type == 'd' ? 0755 : 0644, L.dir);
    if (content) fs_set_data(i, content, strlen(content));
    dent_add(L.dir, L.name, i);
    return i;
}
static void rm_tree(struct inode *i)
{
    struct dent *e;
    i->unlinked = 1;
    for (e = i->ents; e; e = e->next) rm_tree(e->i);
    i->ents = 0;
}
int fs_rm_rf(const char *path)
{
    struct look L;
    if (resolve(path, procs[0].cwd, 0, &L, 0) || !L.out || !L.dir || L.special) return 0;
    dent_del(L.dir, L.name);
    if (L.out->type == 'd') rm_tree(L.out);
    return 1;
}
void fs_chdir_raw(const char *path) { struct inode *i = fs_look(path, 1); if (i) procs[0].cwd = i; }

struct sb { char *b; size_t n, cap; };
static void sb_add(struct sb *s, const char *t)
{
    size_t n = strlen(t);
    if (s->n + n + 1 > s->cap) { s->cap = (s->n + n + 1) * 2; s->b = realloc(s->b, s->cap); }
    memcpy(s->b + s->n, t, n + 1); s->n += n;
}
static int cmp_dent(const void *a, const void *b)
{
    return strcmp((*(struct dent *const *) a)->name, (*(struct dent *const *) b)->name);
}
static char snp[16384];                    /* the path of the entry snap() is at; deep trees must not need stack */
static void snap(struct sb *s, size_t len, struct inode *i)
{
    static char l[20000]; struct dent *e, **v; int n = 0, k; size_t at;
    if (i->type == 'd') snprintf(l, sizeof l, "%s d %o\n", snp, i->mode);
    else if (i->type == 'l') snprintf(l, sizeof l, "%s l %s\n", snp, i->data);
    else snprintf(l, sizeof l, "%s %c %zu %llx\n", snp, i->type, i->size,
                  (unsigned long long) sim_hash_bytes(i->data ? i->data : "", i->size));
    sb_add(s, l);
    for (e = i->ents; e; e = e->next) n++;
    if (!n) return;
    v = malloc(n * sizeof *v); n = 0;
    for (e = i->ents; e; e = e->next) v[n++] = e;
    qsort(v, n, sizeof v[0], cmp_dent);
    at = len;
    if (len > 1) snp[at++] = '/';
    for (k = 0; k < n; k++) {
        size_t c = strlen(v[k]->name);
        if (at + c + 1 > sizeof snp) sim_discard("path too long to be shown");
        memcpy(snp + at, v[k]->name, c + 1);
        snap(s, at + c, v[k]->i);
    }
    snp[len] = 0;
    free(v);
}
char *fs_snapshot(void)
{
    struct sb s = { 0, 0, 0 };
    strcpy(snp, "/");
    snap(&s, 1, root_);
    return s.b;
}
/* path of a directory inode; 0 if it is not reachable any more */
static int path_of(struct inode *d, char *out, size_t n)
{
    char tmp[4200], acc[4200]; acc[0] = 0;
    if (d == root_) { snprintf(out, n, "/"); return 1; }
    while (d != root_) {
        struct dent *e; struct inode *p = d->parent;
        if (!p || d->unlinked) return 0;
        for (e = p->ents; e; e = e->next) if (e->i == d) break;
        if (!e) return 0;
        if (strlen(e->name) + strlen(acc) + 2 > sizeof tmp) return 0;
        snprintf(tmp, sizeof tmp, "/%s%s", e->name, acc);
        memcpy(acc, tmp, sizeof acc);
        d = p;
    }
    snprintf(out, n, "%s", acc);
    return 1;
}
int fs_path_of(struct inode *d, char *out, size_t n) { return path_of(d, out, n); }
struct inode *fs_cwd(void) { return procs[0].cwd; }

/* ================================================================ descriptors */
static struct ofd *ofd_new(char kind)
{
    struct ofd *o = calloc(1, sizeof *o);
    o->kind = kind; o->id = ++next_ofd; o->refs = 0;
    return o;
}
static void ofd_get(struct ofd *o) { o->refs++; }
static void ofd_put(struct ofd *o)
{
    if (--o->refs > 0) return;
    if (o->kind == 'p') o->pipe->readers--;
    if (o->kind == 'q') o->pipe->writers--;
}
static int fd_alloc_from(struct proc *p, struct ofd *o, int cloexec, int from)
{
    int i;
    for (i = from; i < NFD; i++)
        if (!p->fds[i].o) { p->fds[i].o = o; p->fds[i].cloexec = cloexec; ofd_get(o); return i; }
    errno = EMFILE;
    return -1;
}
static int fd_alloc(struct proc *p, struct ofd *o, int cloexec) { return fd_alloc_from(p, o, cloexec, 0); }
static struct ofd *fd_get(struct proc *p, int fd)
{
    if (fd < 0 || fd >= NFD || !p->fds[fd].o) return 0;
    return p->fds[fd].o;
}
static void fd_close_raw(struct proc *p, int fd)
{
    struct ofd *o = p->fds[fd].o;
    p->fds[fd].o = 0; p->fds[fd].cloexec = 0;
    ofd_put(o);
}
int sim_nfds(void) { int i, n = 0; for (i = 0; i < NFD; i++) if (P()->fds[i].o) n++; return n; }
int sim_ndirs(void) { return ndirs; }
int sim_fd_is_open(int fd) { return fd_get(P(), fd) != 0; }
void *sim_fd_ofd(int fd) { return fd_get(P(), fd); }
int sim_fd_nonblock(int fd) { struct ofd *o = fd_get(P(), fd); return o && (o->flags & O_NONBLOCK); }
void sim_fd_dump(void)
{
    int i;
    for (i = 0; i < NFD; i++) if (P()->fds[i].o) sim_log("fd %d open: kind %c id %d", i, P()->fds[i].o->kind, P()->fds[i].o->id);
}
static void badfd(const char *call, int fd)
{
    if (sim_in_child) { errno = EBADF; return; }
    sim_fail("bad-descriptor", "%s on descriptor %d, which is not open", call, fd);
}

int sim_open_file_fd(const char *path, int flags)
{
    struct inode *i = fs_look(path, 1); struct ofd *o;
    if (!i) return -1;
    o = ofd_new(i->type == 'd' ? 'd' : 'f'); o->ino = i; o->flags = flags;
    return fd_alloc(P(), o, 0);
}
int sim_make_pipe(int fds[2])
{
    struct pipe *pp = calloc(1, sizeof *pp);
    struct ofd *r = ofd_new('p'), *w = ofd_new('q');
    pp->cap = sim_pipe_cap; pp->buf = malloc(pp->cap); pp->readers = pp->writers = 1; pp->id = ++next_pipe;
    r->pipe = w->pipe = pp; w->flags = O_WRONLY;
    fds[0] = fd_alloc(P(), r, 0);
    if (fds[0] < 0) return -1;
    fds[1] = fd_alloc(P(), w, 0);
    if (fds[1] < 0) { fd_close_raw(P(), fds[0]); return -1; }
    return 0;
}

static void proc_die(struct proc *p, int wstatus) __attribute__((noreturn));
static void chk_term(void)
{
    struct proc *p = P();
    if (p != &procs[0] && !sim_in_child && p->termsig) proc_die(p, p->termsig);
}

/* pipes */
static int p_readable(void *a) { struct pipe *p = a; return p->len > 0 || p->writers == 0; }
static int p_writable(void *a) { struct pipe *p = a; return p->len < p->cap || p->readers == 0; }
struct wneed { struct pipe *p; size_t n; };
static int p_room(void *a) { struct wneed *w = a; return w->p->cap - w->p->len >= w->n || w->p->readers == 0; }
static size_t pipe_take(struct pipe *p, char *b, size_t n)
{
    size_t i;
    if (n > p->len) n = p->len;
    for (i = 0; i < n; i++) b[i] = p->buf[(p->head + i) % p->cap];
    p->head = (p->head + n) % p->cap; p->len -= n;
    return n;
}
static size_t pipe_put(struct pipe *p, const char *b, size_t n)
{
    size_t i;
    if (n > p->cap - p->len) n = p->cap - p->len;
    for (i = 0; i < n; i++) p->buf[(p->head + p->len + i) % p->cap] = b[i];
    p->len += n;
    return n;
}
static struct child_obs *obs(void) { return P()->child_idx >= 0 ? kids[P()->child_idx] : 0; }

static ssize_t do_read(int fd, void *buf, size_t n)
{
    struct ofd *o = fd_get(P(), fd);
    if (!o) { badfd("read", fd); return -1; }
    if (o->kind == 'q' || (o->kind == 'f' && (o->flags & O_ACCMODE) == O_WRONLY)) { errno = EBADF; return -1; }
    if (o->kind == 'd') { errno = EISDIR; return -1; }
    if (o->kind == 't' || o->kind == 'c') return 0;
    if (o->kind == 'f') {
        size_t left = (size_t) o->off < o->ino->size ? o->ino->size - o->off : 0;
        if (n > left) n = left;
        if (n > 1 && is_parent() && sim_fault(FT_SHORT_READ)) n = 1 + ch(F, n - 1 < 4096 ? n - 1 : 4096);
        memcpy(buf, o->ino->data + o->off, n);
        o->off += n;
        return n;
    }
    if (n == 0) return 0;
    if (o->pipe->len == 0 && o->pipe->writers > 0) {
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        sim_log("read fd %d blocks", fd);
        sim_block(p_readable, o->pipe);
        chk_term();
        if (o->pipe->len == 0 && o->pipe->writers > 0) { errno = EINTR; return -1; }
    }
    if (o->pipe->len == 0) return 0;
    if (n > 1 && is_parent() && sim_fault(FT_SHORT_READ)) {
        size_t m = n < o->pipe->len ? n : o->pipe->len;
        if (m > 1) n = 1 + ch(F, m - 1 < 4096 ? m - 1 : 4096);
    }
    return pipe_take(o->pipe, buf, n);
}
/* EAGAIN only where it doesn't have another meaning to the library (its own pipes don't block) */
static int rw_errs(int fd, int wr)
{
    static const int rd_[] = { EIO, ENOMEM, EINVAL, ESTALE, ECONNRESET, ETIMEDOUT, EISDIR, EAGAIN }, wr_[] = { EIO, EFBIG, ENOSPC, EDQUOT, EPERM, EINVAL, ECONNRESET, EAGAIN };
    struct ofd *o = fd_get(P(), fd); int k = o && o->kind == 'f' ? 8 : 7;
    return (wr ? wr_ : rd_)[ch(F, k)];
}
ssize_t sim_read(int fd, void *buf, size_t n)
{
    ssize_t r;
    sys("read");
    if (n) sim_check_range(buf, n, 1, "read");
    if (!fd_get(P(), fd)) { badfd("read", fd); errno = EBADF; return -1; }
    if (is_parent()) {
        if (sim_fault(FT_EINTR)) { sim_log("read(%d) interrupted", fd); errno = EINTR; return -1; }
        if (sim_fault(FT_READ_ERR)) { errno = sim_inject("read", rw_errs(fd, 0)); return -1; }
    }
    r = do_read(fd, buf, n);
    sim_log("read(%d, %zu) = %zd", fd, n, r);
    sim_point(1);
    return r;
}

static void out_append(struct child_obs *c, int k, const void *b, size_t n)
{
    if (c->out_len[k] + n > c->out_cap[k]) {
        c->out_cap[k] = (c->out_len[k] + n) * 2 + 64; c->out[k] = realloc(c->out[k], c->out_cap[k]);
    }
    memcpy(c->out[k] + c->out_len[k], b, n); c->out_len[k] += n;
}
static void sigpipe(void)
{
    if (is_parent() || sim_in_child) { errno = EPIPE; return; }
    sim_log("killed by SIGPIPE");
    proc_die(P(), SIGPIPE);
}
static ssize_t file_write(struct ofd *o, const void *buf, size_t n)
{
    struct inode *i = o->ino; off_t at = (o->flags & O_APPEND) ? (off_t) i->size : o->off;
    if (n > sim_disk_left) {
        if (sim_disk_left == 0) { R->faults[FT_ENOSPC]++; errno = sim_inject("write", ENOSPC); return -1; }
        n = sim_disk_left;
    }
    if (sim_disk_left != (uint64_t) -1) sim_disk_left -= n;
    if (at + n + 1 > i->cap) { i->cap = (at + n + 1) * 2; i->data = realloc(i->data, i->cap); }
    if ((size_t) at > i->size) memset(i->data + i->size, 0, at - i->size);
    memcpy(i->data + at, buf, n);
    if (at + n > i->size) i->size = at + n;
    i->data[i->size] = 0;
    o->off = at + n;
    return n;
}
static ssize_t do_write(int fd, const void *buf, size_t n)
{
    struct ofd *o = fd_get(P(), fd); struct pipe *p; size_t done = 0;
    struct child_obs *c = obs();
    if (!o) { badfd("write", fd); errno = EBADF; return -1; }
    if (o->kind == 'd' || o->kind == 'p' || (o->kind == 'f' && (o->flags & O_ACCMODE) == O_RDONLY)) { errno = EBADF; return -1; }
    if (o->kind == 't' || o->kind == 'c') return n;
    if (o->kind == 'f') {
        if (n > 1 && is_parent() && sim_fault(FT_SHORT_WRITE)) n = 1 + ch(F, n - 1 < 8192 ? n - 1 : 8192);
        return file_write(o, buf, n);
    }
    p = o->pipe;
    if (n == 0) return 0;
    if (p->readers == 0) { sigpipe(); return -1; }
    if (o->flags & O_NONBLOCK) {
        size_t room = p->cap - p->len;
        if (n <= pipe_buf() && room < n) { errno = EAGAIN; return -1; }
        if (room == 0) { errno = EAGAIN; return -1; }
        done = pipe_put(p, buf, n);
        return done;
    }
    if (n <= pipe_buf()) {
        struct wneed w = { p, n };
        if (!p_room(&w)) {
            sim_log("write fd %d blocks", fd);
            if (is_parent() && sim_fault(FT_EINTR)) { sim_sleep(1000); if (!p_room(&w)) { errno = EINTR; return -1; } }
            sim_block(p_room, &w);
            chk_term();
        }
        if (p->readers == 0) { sigpipe(); return -1; }
        return pipe_put(p, buf, n);
    }
    /* a large write: may be cut short by a signal after part was transferred */
    while (done < n) {
        size_t k;
        if (p->len == p->cap) {
            if (is_parent() && sim_fault(FT_SHORT_WRITE)) {
                if (done) return done;
                errno = EINTR; return -1;
            }
            sim_log("write fd %d blocks", fd);
            sim_block(p_writable, p);
            chk_term();
        }
        if (p->readers == 0) { if (done && is_parent()) return done; sigpipe(); return -1; }
        k = pipe_put(p, (const char *) buf + done, n - done);
        done += k;
        sim_point(1);
    }
    (void) c;
    return done;
}
ssize_t sim_write(int fd, const void *buf, size_t n)
{
    ssize_t r;
    if (sim_in_child) {
        struct rec *r_ = shrec;
        if (r_->nlit < 16 && r_->litlen + (int) n <= LITSZ) {
            memcpy(r_->litbuf + r_->litlen, buf, n);
            r_->lit[r_->nlit].after_body = r_->has_body; r_->lit[r_->nlit].fd = fd;
            r_->lit[r_->nlit].off = r_->litlen; r_->lit[r_->nlit].len = n;
            r_->nlit++; r_->litlen += n;
        }
        return n;
    }
    sys("write");
    if (n) sim_check_range(buf, n, 0, "write");
    if (!fd_get(P(), fd)) { badfd("write", fd); errno = EBADF; return -1; }
    if (is_parent()) {
        if (sim_fault(FT_EINTR)) { sim_log("write(%d) interrupted", fd); errno = EINTR; return -1; }
        if (sim_fault(FT_WRITE_ERR)) { errno = sim_inject("write", rw_errs(fd, 1)); return -1; }
    }
    r = do_write(fd, buf, n);
    sim_log("write(%d, %zu) = %zd", fd, n, r);
    sim_point(1);
    return r;
}
int sim_close(int fd)
{
    sys("close");
    if (!fd_get(P(), fd)) { badfd("close", fd); errno = EBADF; return -1; }
    fd_close_raw(P(), fd);
    sim_log("close(%d)", fd);
    if (is_parent() && sim_fault(FT_CLOSE_ERR)) { errno = sim_inject("close", EIO); return -1; }
    /* like on Linux, the descriptor is gone all the same */
    if (is_parent() && sim_fault(FT_EINTR)) { sim_log("close interrupted"); errno = EINTR; return -1; }
    sim_point(1);
    return 0;
}
int sim_close_range(unsigned a, unsigned b, int flags)
{
    unsigned i;
    if (flags || a > b) { errno = EINVAL; return -1; }
    for (i = a; i <= b && i < NFD; i++) if (fd_get(P(), i)) { sys("close_range"); fd_close_raw(P(), i); }
    return 0;
}
void sim_closefrom(int a) { sim_close_range(a < 0 ? 0 : a, ~0u, 0); }
/* write everything, like stdio's file write does; returns bytes written */
static size_t write_loop(int fd, const char *b, size_t n)
{
    size_t done = 0;
    while (done < n) {
        ssize_t r = sim_write(fd, b + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}

static int open_at(struct inode *base, const char *path, int flags, mode_t mode)
{
    struct look L; int rc; struct ofd *o; int fd;
    rc = resolve(path, base, !((flags & O_CREAT) && (flags & O_EXCL)) && !(flags & O_NOFOLLOW), &L, 0);
    if (rc) { errno = rc; return -1; }
    if (L.out && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (L.out && L.out->type == 'l') { errno = ELOOP; return -1; }
    if (!L.out) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (L.trailing) { errno = EISDIR; return -1; }
        L.out = inode_new('f', mode & 0777 & ~sim_umask, L.dir);
        dent_add(L.dir, L.name, L.out);
    }
    if (L.out->type == 'd' && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if (L.out->type != 'd' && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if (L.out->denied) { errno = EACCES; return -1; }
    if ((flags & O_TRUNC) && L.out->type == 'f') L.out->size = 0;
    o = ofd_new(sim_in_child ? 'c' : L.out->type == 'd' ? 'd' : 'f');
    o->ino = L.out; o->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
    fd = fd_alloc(P(), o, !!(flags & O_CLOEXEC));
    return fd;
}
static struct inode *at_base(int dirfd)
{
    struct ofd *o;
    if (dirfd == AT_FDCWD) return P()->cwd;
    o = fd_get(P(), dirfd);
    return o && o->kind == 'd' ? o->ino : 0;
}
static int do_open(struct inode *base, const char *path, int flags, mode_t mode)
{
    int fd, e;
    sys("open");
    sim_check_range(path, 1, 0, "open");
    if (!base) { errno = EBADF; return -1; }
    if (is_parent()) {
        if (sim_fault(FT_EINTR)) { sim_log("open interrupted"); errno = EINTR; return -1; }
        if (sim_fault(FT_OPEN_ERR)) {
            static const int es[] = { EMFILE, EACCES, EIO, ENFILE, EPERM, ENXIO, ENOMEM, EAGAIN, ELOOP, EOVERFLOW };
            errno = sim_inject("open", es[ch(F, 10)]);
            return -1;
        }
    }
    fd = open_at(base, path, flags, mode); e = errno;
    sim_log("open(%s) = %d", path, fd);
    sim_point(1);
    errno = e;
    return fd;
}
int sim_open(const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & O_CREAT) { va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    return do_open(P()->cwd, path, flags, m);
}
int sim_openat(int dirfd, const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & O_CREAT) { va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    return do_open(at_base(dirfd), path, flags, m);
}
int sim_creat(const char *path, mode_t m) { return do_open(P()->cwd, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_pipe2(int fds[2], int flags)
{
    sys("pipe");
    sim_check_range(fds, 8, 1, "pipe");
    if (is_parent() && sim_fault(FT_PIPE_ERR)) { errno = sim_inject("pipe", ch(F, 2) ? ENFILE : EMFILE); return -1; }
    if (sim_make_pipe(fds) == -1) return -1;
    if (flags & O_CLOEXEC) P()->fds[fds[0]].cloexec = P()->fds[fds[1]].cloexec = 1;
    if (flags & O_NONBLOCK) { P()->fds[fds[0]].o->flags |= O_NONBLOCK; P()->fds[fds[1]].o->flags |= O_NONBLOCK; }
    sim_log("pipe -> %d %d", fds[0], fds[1]);
    sim_point(1);
    return 0;
}
int sim_pipe(int fds[2]) { return sim_pipe2(fds, 0); }
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap; long arg; struct ofd *o;
    va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
    sys("fcntl");
    o = fd_get(P(), fd);
    if (!o) { badfd("fcntl", fd); errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_FCNTL_ERR)) { errno = sim_inject("fcntl", ch(F, 2) ? EAGAIN : EINVAL); return -1; }
    switch (cmd) {
    case F_GETFD: return P()->fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: P()->fds[fd].cloexec = (arg & FD_CLOEXEC) != 0; return 0;
    case F_GETFL: return o->flags;
    case F_SETFL: o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | ((int) arg & (O_NONBLOCK | O_APPEND)); return 0;
    case F_DUPFD: return fd_alloc_from(P(), o, 0, (int) arg);
    case F_DUPFD_CLOEXEC: return fd_alloc_from(P(), o, 1, (int) arg);
    }
    errno = EINVAL; return -1;
}
int sim_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; void *arg; struct ofd *o;
    va_start(ap, req); arg = va_arg(ap, void *); va_end(ap);
    sys("ioctl");
    o = fd_get(P(), fd);
    if (!o) { badfd("ioctl", fd); errno = EBADF; return -1; }
    if (req == FIONREAD) {
        sim_check_range(arg, sizeof (int), 1, "ioctl");
        if (o->kind == 'p') { *(int *) arg = (int) o->pipe->len; return 0; }
        if (o->kind == 'f') { *(int *) arg = (int) (o->ino->size > (size_t) o->off ? o->ino->size - (size_t) o->off : 0); return 0; }
    }
    if (req == FIONBIO) { o->flags = *(int *) arg ? o->flags | O_NONBLOCK : o->flags & ~O_NONBLOCK; return 0; }
    errno = ENOTTY; return -1;
}
static int plan_setenv, child_failed, plan_dup2, plan_chdir, plan_exec, plan_exec_errno, plan_eintr, ndup2;
static void child_fault(enum fault k, const char *call, int e)
{
    R->faults[k]++;
    child_failed = 1;
    errno = sim_inject(call, e);
}
int sim_dup3(int a, int b, int flags)
{
    struct ofd *o;
    sys("dup2");
    o = fd_get(P(), a);
    if (!o) { badfd("dup2", a); errno = EBADF; return -1; }
    if (sim_in_child) {
        if (plan_eintr & 1) { plan_eintr &= ~1; R->faults[FT_EINTR]++; sim_log("dup2 interrupted"); errno = EINTR; return -1; }
        if (++ndup2 == plan_dup2) { child_fault(FT_DUP2_ERR, "dup2", EMFILE); return -1; }
    } else if (sim_fault(FT_DUP2_ERR)) { errno = sim_inject("dup2", EMFILE); return -1; }
    if (b < 0 || b >= NFD) { errno = EBADF; return -1; }
    if (a == b) return b;
    if (P()->fds[b].o) fd_close_raw(P(), b);
    P()->fds[b].o = o; P()->fds[b].cloexec = !!(flags & O_CLOEXEC); ofd_get(o);
    sim_log("dup2(%d, %d)", a, b);
    return b;
}
int sim_dup2(int a, int b) { return sim_dup3(a, b, 0); }
int sim_dup(int a) { struct ofd *o = fd_get(P(), a); sys("dup"); if (!o) { errno = EBADF; return -1; } return fd_alloc(P(), o, 0); }
off_t sim_lseek(int fd, off_t off, int wh)
{
    struct ofd *o = fd_get(P(), fd);
    sys("lseek");
    if (!o) { errno = EBADF; return -1; }
    if (o->kind != 'f') { errno = ESPIPE; return -1; }
    o->off = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->off + off : (off_t) o->ino->size + off;
    return o->off;
}

/* ================================================================ path calls */
static int stat_errs(void)
{
    static const int es[] = { EACCES, EIO, ENOMEM, ELOOP, EOVERFLOW, ENAMETOOLONG, EPERM, ESTALE, EAGAIN, EINVAL };
    return es[ch(F, 10)];
}
static void fill_stat(struct inode *i, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_ino = i->ino; st->st_dev = 1; st->st_nlink = 1; st->st_size = i->size;
    st->st_mode = (i->mode & 07777) | (i->type == 'd' ? S_IFDIR : i->type == 'f' ? S_IFREG :
                                      i->type == 'l' ? S_IFLNK : S_IFIFO);
    st->st_blksize = 4096;
}
static int stat_at(struct inode *base, const char *path, struct stat *st, int follow, const char *nm)
{
    struct look L; int rc;
    sys(nm);
    sim_check_range(path, 1, 0, nm); sim_check_range(st, sizeof *st, 1, nm);
    if (!base) { errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_STAT_ERR)) { errno = sim_inject(nm, stat_errs()); return -1; }
    rc = resolve(path, base, follow, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc) fill_stat(L.out, st);
    sim_log("%s(%s) = %d", nm, path, rc);
    sim_point(1);
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_stat(const char *p, struct stat *st) { return stat_at(P()->cwd, p, st, 1, "stat"); }
int sim_lstat(const char *p, struct stat *st) { return stat_at(P()->cwd, p, st, 0, "lstat"); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { return stat_at(at_base(d), p, st, !(fl & AT_SYMLINK_NOFOLLOW), "stat"); }
int sim_fstat(int fd, struct stat *st)
{
    struct ofd *o = fd_get(P(), fd);
    sys("fstat");
    if (!o) { errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_STAT_ERR)) { errno = sim_inject("fstat", EIO); return -1; }
    memset(st, 0, sizeof *st);
    if (o->ino) fill_stat(o->ino, st);
    else st->st_mode = o->kind == 't' ? S_IFCHR | 0600 : S_IFIFO | 0600;
    return 0;
}
static int access_at(struct inode *base, const char *p, int mode, int follow)
{
    struct look L; int rc;
    (void) mode;
    sys("access");
    if (is_parent() && sim_fault(FT_STAT_ERR)) { errno = sim_inject("access", stat_errs()); return -1; }
    rc = resolve(p, base, follow, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    sim_log("access(%s) = %d", p, rc);
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_access(const char *p, int m) { return access_at(P()->cwd, p, m, 1); }
int sim_faccessat(int d, const char *p, int m, int fl) { return access_at(at_base(d), p, m, !(fl & AT_SYMLINK_NOFOLLOW)); }
ssize_t sim_readlink(const char *p, char *b, size_t n)
{
    struct look L; int rc;
    sys("readlink");
    rc = resolve(p, P()->cwd, 0, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc && L.out->type != 'l') rc = EINVAL;
    if (rc) { errno = rc; return -1; }
    if (n > L.out->size) n = L.out->size;
    memcpy(b, L.out->data, n);
    return n;
}
static int mkdir_at(struct inode *base, const char *p, mode_t m)
{
    struct look L; int rc;
    sys("mkdir");
    sim_check_range(p, 1, 0, "mkdir");
    if (!base) { errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_MKDIR_ERR)) {
        static const int es[] = { EACCES, ENOSPC, EIO, EROFS, EPERM, EMLINK, EDQUOT, ENOMEM, ENAMETOOLONG, ELOOP };
        errno = sim_inject("mkdir", es[ch(F, 10)]); return -1;
    }
    rc = resolve(p, base, 0, &L, 0);
    if (!rc && L.out) rc = EEXIST;
    if (rc == ENOTDIR && resolve(p, base, 0, &L, 0) == ENOTDIR) {
        /* trailing slash on an existing non-directory: mkdir says EEXIST */
        char t[4200]; size_t n;
        snprintf(t, sizeof t, "%s", p); n = strlen(t);
        if (n > 1 && t[n - 1] == '/') {
            while (n > 1 && t[n - 1] == '/') t[--n] = 0;
            if (!resolve(t, base, 0, &L, 0) && L.out) rc = EEXIST;
        }
    }
    if (!rc) dent_add(L.dir, L.name, inode_new('d', m & 01777 & ~sim_umask, L.dir));
    sim_log("mkdir(%s, %o) = %d", p, (unsigned) m, rc);
    sim_point(1);
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_mkdir(const char *p, mode_t m) { return mkdir_at(P()->cwd, p, m); }
int sim_mkdirat(int d, const char *p, mode_t m) { return mkdir_at(at_base(d), p, m); }
static int rmdir_at(struct inode *base, const char *p)
{
    struct look L; int rc;
    sys("rmdir");
    sim_check_range(p, 1, 0, "rmdir");
    if (!base) { errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_RMDIR_ERR)) {
        static const int es[] = { EACCES, EBUSY, EIO, EPERM, EROFS, EINVAL, ENOMEM, ENOTEMPTY, ELOOP };
        errno = sim_inject("rmdir", es[ch(F, 9)]); return -1;
    }
    rc = resolve(p, base, 0, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc && L.special) rc = !strcmp(L.name, ".") ? EINVAL : ENOTEMPTY;
    if (!rc && L.out->type != 'd') rc = ENOTDIR;
    if (!rc && L.trailing) {           /* a link with a trailing slash is not a directory */
        struct dent *e = dent_find(L.dir, L.name);
        if (!e || e->i->type == 'l') rc = ENOTDIR;
    }
    if (!rc && L.out->ents) rc = ENOTEMPTY;
    if (!rc) dent_del(L.dir, L.name);
    sim_log("rmdir(%s) = %d", p, rc);
    sim_point(1);
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_rmdir(const char *p) { return rmdir_at(P()->cwd, p); }
static int unlink_at(struct inode *base, const char *p)
{
    struct look L; int rc;
    sys("unlink");
    sim_check_range(p, 1, 0, "unlink");
    if (!base) { errno = EBADF; return -1; }
    if (is_parent() && sim_fault(FT_EINTR)) { sim_log("unlink interrupted"); errno = EINTR; return -1; }
    if (is_parent() && sim_fault(FT_UNLINK_ERR)) {
        static const int es[] = { EACCES, EBUSY, EIO, EPERM, EROFS, ETXTBSY, ENOMEM, EISDIR, ELOOP };
        errno = sim_inject("unlink", es[ch(F, 9)]); return -1;
    }
    rc = resolve(p, base, 0, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc && (L.special || L.out->type == 'd')) rc = EISDIR;
    if (!rc && L.trailing) rc = ENOTDIR;
    if (!rc) dent_del(L.dir, L.name);
    sim_log("unlink(%s) = %d", p, rc);
    sim_point(1);
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_unlink(const char *p) { return unlink_at(P()->cwd, p); }
int sim_unlinkat(int d, const char *p, int fl) { return fl & AT_REMOVEDIR ? rmdir_at(at_base(d), p) : unlink_at(at_base(d), p); }
int sim_remove(const char *p)
{
    struct look L;
    if (!resolve(p, P()->cwd, 0, &L, 0) && L.out && L.out->type == 'd') return sim_rmdir(p);
    return sim_unlink(p);
}
int sim_rename(const char *a, const char *b)
{
    struct look A, B; int rc;
    sys("rename");
    rc = resolve(a, P()->cwd, 0, &A, 0);
    if (!rc && !A.out) rc = ENOENT;
    if (!rc) rc = resolve(b, P()->cwd, 0, &B, 0);
    if (!rc) {
        struct inode *i = A.out;
        if (B.out) dent_del(B.dir, B.name);
        dent_del(A.dir, A.name); i->unlinked = 0;
        dent_add(B.dir, B.name, i);
    }
    if (rc) { errno = rc; return -1; }
    scribble();
    return 0;
}
int sim_chmod(const char *p, mode_t m)
{
    struct inode *i; struct look L; int rc;
    sys("chmod");
    rc = resolve(p, P()->cwd, 1, &L, 0); i = L.out;
    if (!rc && !i) rc = ENOENT;
    if (rc) { errno = rc; return -1; }
    i->mode = m & 07777;
    return 0;
}
mode_t sim_umask_(mode_t m) { mode_t o = sim_umask; sim_umask = m & 0777; return o; }

/* ---- directories */
void *sim_raw_alloc(size_t n);
void sim_raw_free(void *p);
struct simdir { int fd; struct inode *d; int n, pos; struct { char name[256]; struct inode *i; } *v; struct dirent *ent; int extra; };
static DIR *dir_make(int fd, struct inode *d)
{
    struct simdir *s = sim_raw_alloc(sizeof *s); struct dent *e; int n = 2, k;
    for (e = d->ents; e; e = e->next) n++;
    memset(s, 0, sizeof *s);
    s->fd = fd; s->d = d; s->v = calloc(n, sizeof *s->v);
    s->ent = sim_raw_alloc(sizeof *s->ent);
    strcpy(s->v[0].name, "."); s->v[0].i = d;
    strcpy(s->v[1].name, ".."); s->v[1].i = d->parent ? d->parent : d;
    s->n = 2;
    for (e = d->ents; e; e = e->next) { strcpy(s->v[s->n].name, e->name); s->v[s->n].i = e->i; s->n++; }
    if (fs_reader_order)
        for (k = s->n - 1; k > 0; k--) {
            int j = k - (int) ch(F, k + 1);
            if (j != k) {
                char t[256]; struct inode *ti = s->v[j].i;
                memcpy(t, s->v[j].name, 256); memcpy(s->v[j].name, s->v[k].name, 256); memcpy(s->v[k].name, t, 256);
                s->v[j].i = s->v[k].i; s->v[k].i = ti;
            }
        }
    ndirs++;
    return (DIR *) s;
}
static DIR *opendir_at(struct inode *base, const char *p)
{
    struct look L; int rc; struct ofd *o; int fd = -1; DIR *r = 0;
    sys("opendir");
    sim_check_range(p, 1, 0, "opendir");
    if (is_parent()) {
        if (sim_fault(FT_EINTR)) { sim_log("opendir interrupted"); errno = EINTR; return 0; }
        if (sim_fault(FT_OPENDIR_ERR)) {
            static const int es[] = { EACCES, EMFILE, ENOMEM, EIO, ENFILE, ELOOP, EPERM, ENAMETOOLONG, ESTALE };
            errno = sim_inject("opendir", es[ch(F, 9)]); return 0;
        }
    }
    rc = resolve(p, base, 1, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc && L.out->type != 'd') rc = ENOTDIR;
    if (!rc && L.out->denied) rc = EACCES;
    if (!rc) {
        o = ofd_new('d'); o->ino = L.out;
        fd = fd_alloc(P(), o, 1);
        if (fd < 0) rc = EMFILE;
    }
    if (!rc) r = dir_make(fd, L.out);
    sim_log("opendir(%s) = %d", p, rc);
    sim_point(1);
    if (rc) { errno = rc; return 0; }
    scribble();
    return r;
}
DIR *sim_opendir(const char *p) { return opendir_at(P()->cwd, p); }
DIR *sim_fdopendir(int fd)
{
    struct ofd *o = fd_get(P(), fd);
    sys("fdopendir");
    if (!o) { errno = EBADF; return 0; }
    if (o->kind != 'd') { errno = ENOTDIR; return 0; }
    if (is_parent() && sim_fault(FT_OPENDIR_ERR)) { errno = sim_inject("fdopendir", ENOMEM); return 0; }
    return dir_make(fd, o->ino);
}
static void dir_check(struct simdir *s, const char *fn)
{
    if (sim_heap_size_of(s) == (size_t) -1) sim_fail("bad-dir-handle", "%s on a directory handle that is not open", fn);
}
struct dirent *sim_readdir(DIR *dp)
{
    struct simdir *s = (struct simdir *) dp; int e0 = errno;
    sys("readdir");
    dir_check(s, "readdir");
    if (is_parent() && sim_fault(FT_READDIR_ERR)) {
        static const int es[] = { EIO, ENOMEM, EOVERFLOW, ESTALE, EACCES, EBADF };
        errno = sim_inject("readdir", es[ch(F, 6)]); return 0;
    }
    while (s->pos < s->n) {
        int k = s->pos++; struct dent *e;
        int special = !strcmp(s->v[k].name, ".") || !strcmp(s->v[k].name, "..");
        e = special ? 0 : dent_find(s->d, s->v[k].name);
        if (!special && (!e || e->i != s->v[k].i) && !(!e && ch(F, 2))) continue;   /* vanished: may or may not be returned */
        memset(s->ent, 0, sizeof *s->ent);
        s->ent->d_ino = s->v[k].i->ino;
        s->ent->d_type = fs_dtype_unknown ? DT_UNKNOWN : s->v[k].i->type == 'd' ? DT_DIR : s->v[k].i->type == 'f' ? DT_REG : s->v[k].i->type == 'l' ? DT_LNK : DT_FIFO;
        s->ent->d_reclen = sizeof *s->ent;
        strcpy(s->ent->d_name, s->v[k].name);
        sim_log("readdir -> %s", s->ent->d_name);
        sim_point(1);
        errno = e0;
        return s->ent;
    }
    sim_log("readdir -> end");
    errno = e0;                        /* end of directory leaves errno alone */
    return 0;
}
int sim_readdir_r(DIR *d, struct dirent *ent, struct dirent **out)
{
    struct dirent *e; errno = 0; e = sim_readdir(d);
    if (!e && errno) return errno;
    if (e) { *ent = *e; *out = ent; } else *out = 0;
    return 0;
}
int sim_dirfd(DIR *d) { return ((struct simdir *) d)->fd; }
void sim_rewinddir(DIR *d) { ((struct simdir *) d)->pos = 0; }
int sim_closedir(DIR *dp)
{
    struct simdir *s = (struct simdir *) dp; int fd;
    sys("closedir");
    dir_check(s, "closedir");
    fd = s->fd;
    fd_close_raw(P(), fd);
    ndirs--;
    free(s->v); sim_raw_free(s->ent); sim_raw_free(s);
    sim_log("closedir");
    if (is_parent() && sim_fault(FT_CLOSE_ERR)) { errno = sim_inject("closedir", EIO); return -1; }
    if (is_parent() && sim_fault(FT_EINTR)) { sim_log("closedir interrupted"); errno = EINTR; return -1; }
    scribble();
    return 0;
}

/* ---- cwd */
char *sim_getcwd(char *buf, size_t size)
{
    char tmp[4200]; int e = 0;
    sys("getcwd");
    if (is_parent() && sim_fault(FT_EINTR)) { sim_log("getcwd interrupted"); errno = EINTR; return 0; }
    if (is_parent() && sim_fault(FT_GETCWD_ERR)) {
        static const int es[] = { EACCES, ENOENT, ENOMEM, EIO, EPERM, ENAMETOOLONG };
        /* POSIX: the array's contents are undefined after a failure */
        if (buf && size) { sim_check_range(buf, size, 1, "getcwd"); memset(buf, '#', size < 64 ? size : 64); }
        errno = sim_inject("getcwd", es[ch(F, 6)]); return 0;
    }
    if (!path_of(P()->cwd, tmp, sizeof tmp)) e = ENOENT;
    else if (buf && size == 0) e = EINVAL;
    else if (size && strlen(tmp) + 1 > size) e = ERANGE;
    sim_log("getcwd(%zu) = %d", size, e);
    sim_point(1);
    if (e) { errno = e; return 0; }
    if (!buf) { buf = sim_malloc(size ? size : strlen(tmp) + 1); if (!buf) return 0; }
    sim_check_range(buf, strlen(tmp) + 1, 1, "getcwd");
    strcpy(buf, tmp);
    return buf;
}
char *sim_get_current_dir_name(void) { return sim_getcwd(0, 0); }
static struct inode *fs_inode_cwd(int fd) { struct ofd *o = fd_get(P(), fd); return o && o->kind == 'd' ? o->ino : 0; }
int sim_fchdir(int fd) { struct inode *i = fs_inode_cwd(fd); sys("fchdir"); if (!i) { errno = ENOTDIR; return -1; } P()->cwd = i; return 0; }
int sim_chdir(const char *p)
{
    struct look L; int rc;
    sys("chdir");
    if (sim_in_child) {
        if (plan_eintr & 2) { plan_eintr &= ~2; R->faults[FT_EINTR]++; sim_log("chdir interrupted"); errno = EINTR; return -1; }
        if (plan_chdir) { child_fault(FT_CHDIR_ERR, "chdir", plan_chdir); return -1; }
    } else if (sim_fault(FT_CHDIR_ERR)) { errno = sim_inject("chdir", EACCES); return -1; }
    rc = resolve(p, P()->cwd, 1, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (!rc && L.out->type != 'd') rc = ENOTDIR;
    if (!rc && L.out->denied) rc = EACCES;
    sim_log("chdir(%s) = %d", p, rc);
    if (rc) { errno = rc; return -1; }
    P()->cwd = L.out;
    return 0;
}
char *sim_realpath(const char *p, char *out)
{
    struct look L; int rc; char tmp[4200];
    sys("realpath");
    rc = resolve(p, P()->cwd, 1, &L, 0);
    if (!rc && !L.out) rc = ENOENT;
    if (rc) { errno = rc; return 0; }
    if (L.out->type == 'd') path_of(L.out, tmp, sizeof tmp);
    else { char d[4000]; path_of(L.dir, d, sizeof d); snprintf(tmp, sizeof tmp, "%s%s%s", d, strcmp(d, "/") ? "/" : "", L.name); }
    if (!out) out = sim_malloc(4096);
    if (out) strcpy(out, tmp);
    return out;
}

/* ================================================================ stdio */
struct ck { int fd; FILE *f; struct ck *next; };
static struct ck *cks;
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((struct ck *) c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { return write_loop(((struct ck *) c)->fd, b, n); }
static int ck_close(void *c) { return sim_close(((struct ck *) c)->fd); }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = sim_lseek(((struct ck *) c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static FILE *wrap(int fd, const char *mode)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    struct ck *c = malloc(sizeof *c);
    c->fd = fd; c->next = cks; cks = c;
    return c->f = fopencookie(c, mode, io);
}
int sim_fileno(FILE *f)
{
    struct ck *c;
    if (f == stdin || f == stdout || f == stderr) return f == stdin ? 0 : f == stdout ? 1 : 2;
    for (c = cks; c; c = c->next) if (c->f == f) return c->fd;
    errno = EBADF; return -1;
}
FILE *sim_fopen(const char *path, const char *mode)
{
    int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : O_CREAT | (strchr(mode, '+') ? O_RDWR : O_WRONLY) | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
    int fd = do_open(P()->cwd, path, fl, 0644);
    return fd < 0 ? 0 : wrap(fd, mode);
}
FILE *sim_fdopen(int fd, const char *mode) { return wrap(fd, mode); }
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { sim_point(1); sim_check_range(b, s * n, 1, "fread"); return fread(b, s, n, f); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    sim_point(1);
    if (s * n) sim_check_range(b, s * n, 0, "fwrite");
    if (f == stdout || f == stderr) { sim_write(f == stdout ? 1 : 2, b, s * n); return n; }
    return fwrite(b, s, n, f);
}
int sim_fflush(FILE *f) { sim_point(1); if (f == stdout || f == stderr || !f) return 0; return fflush(f); }
int sim_fclose(FILE *f) { sim_point(1); return fclose(f); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap)
{
    if (f == stdout || f == stderr) {
        char b[3000]; int n = vsnprintf(b, sizeof b, fmt, ap);
        if (n > (int) sizeof b - 1) n = sizeof b - 1;
        sim_write(f == stdout ? 1 : 2, b, n);
        return n;
    }
    return vfprintf(f, fmt, ap);
}
int sim_fprintf(FILE *f, const char *fmt, ...) { int r; va_list ap; va_start(ap, fmt); r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { int r; va_list ap; va_start(ap, fmt); r = sim_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int sim_puts(const char *s) { sim_printf("%s\n", s); return 0; }
int sim_putchar(int c) { sim_printf("%c", c); return c; }
int sim_fputs(const char *s, FILE *f) { return sim_fprintf(f, "%s", s); }
int sim_fputc(int c, FILE *f) { return sim_fprintf(f, "%c", c); }
void sim_perror(const char *s) { sim_fprintf(stderr, "%s: %s\n", s, strerror(errno)); }

/* ================================================================ time */
uint64_t sim_wall_sec = 1700000000; int64_t sim_wall_off_ns;
int sim_clock_mode;                 /* 1: the clock may jump at each reading */
static void wall(int64_t *sec, int64_t *ns)
{
    int64_t t = (int64_t) sim_now + sim_wall_off_ns, s = t / 1000000000, n = t % 1000000000;
    if (n < 0) { n += 1000000000; s--; }
    *sec = (int64_t) sim_wall_sec + s; *ns = n;
}
void sim_wall_get(uint64_t *sec, uint64_t *usec) { int64_t s, n; wall(&s, &n); *sec = s; *usec = n / 1000; }
void sim_wall_get_ns(int64_t *sec, int64_t *ns) { wall(sec, ns); }
uint64_t sim_wall_reads;
int sim_gettimeofday(struct timeval *tv, void *tz)
{
    int64_t s, n;
    (void) tz;
    sys("gettimeofday");
    sim_wall_reads++;
    wall(&s, &n);
    if (tv) { sim_check_range(tv, sizeof *tv, 1, "gettimeofday"); tv->tv_sec = s; tv->tv_usec = n / 1000; }
    sim_point(1);
    return 0;
}
int sim_clock_gettime(clockid_t id, struct timespec *ts)
{
    int64_t s, n;
    sys("clock_gettime");
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        sim_wall_reads++; wall(&s, &n);
        if (id == CLOCK_REALTIME_COARSE) n -= n % 4000000;      /* as of the last tick */
    }
    else { s = sim_now / 1000000000; n = sim_now % 1000000000; }
    ts->tv_sec = s; ts->tv_nsec = n;
    sim_point(1);
    return 0;
}
time_t sim_time(time_t *t) { int64_t s, n; sys("time"); sim_wall_reads++; wall(&s, &n); if (t) *t = s; return s; }
int sim_usleep(useconds_t us)
{
    sys("usleep");
    if (is_parent() && sim_fault(FT_EINTR)) { errno = EINTR; return -1; }
    sim_sleep(us ? (uint64_t) us * 1000 : 1);
    return 0;
}
int sim_nanosleep(const struct timespec *a, struct timespec *b)
{
    sys("nanosleep");
    if (is_parent() && sim_fault(FT_EINTR)) { if (b) *b = *a; errno = EINTR; return -1; }
    sim_sleep(a->tv_sec * 1000000000ull + a->tv_nsec + 1);
    return 0;
}
unsigned sim_sleep_s(unsigned s) { sys("sleep"); sim_sleep(s * 1000000000ull + 1); return 0; }
int sim_sched_yield(void) { sys("sched_yield"); sim_yield(); return 0; }

/* ---- poll, select */
struct pollarg { struct pollfd *f; nfds_t n; };
static int poll_one(struct pollfd *f)
{
    struct ofd *o; f->revents = 0;
    if (f->fd < 0) return 0;
    o = fd_get(P(), f->fd);
    if (!o) { f->revents = POLLNVAL; return 1; }
    if (o->kind == 'p') {
        if (o->pipe->len && (f->events & POLLIN)) f->revents |= POLLIN;
        if (!o->pipe->writers) f->revents |= POLLHUP;
    } else if (o->kind == 'q') {
        if (o->pipe->cap - o->pipe->len >= pipe_buf() && (f->events & POLLOUT)) f->revents |= POLLOUT;
        if (!o->pipe->readers) f->revents |= POLLERR;
    } else f->revents |= f->events & (POLLIN | POLLOUT);
    return f->revents != 0;
}
static proc *poll_proc;
static int poll_p(void *a)
{
    struct pollarg *p = a; nfds_t i; int n = 0; task *c = sim_cur; task tmp;
    (void) poll_proc;
    tmp.p = &procs[0];
    sim_cur = &tmp;
    for (i = 0; i < p->n; i++) n += poll_one(&p->f[i]);
    sim_cur = c;
    return n;
}
int sim_poll(struct pollfd *f, nfds_t n, int ms)
{
    struct pollarg a = { f, n };
    sys("poll");
    sim_check_range(f, n * sizeof *f, 1, "poll");
    if (is_parent() && sim_fault(FT_EINTR)) { errno = EINTR; return -1; }
    if (ms == 0) return poll_p(&a);
    if (ms < 0) sim_block(poll_p, &a);
    else sim_block_until(poll_p, &a, sim_now + ms * 1000000ull);
    return poll_p(&a);
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    struct pollfd f[64]; int k = 0, i, got, cnt = 0;
    for (i = 0; i < n && k < 64; i++) {
        short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
        if (ev) { f[k].fd = i; f[k].events = ev; k++; }
    }
    got = sim_poll(f, k, !tv ? -1 : (int) (tv->tv_sec * 1000 + tv->tv_usec / 1000));
    if (got < 0) return -1;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    for (i = 0; i < k; i++) {
        if (r && (f[i].events & POLLIN) && f[i].revents) { FD_SET(f[i].fd, r); cnt++; }
        if (w && (f[i].events & POLLOUT) && f[i].revents) { FD_SET(f[i].fd, w); cnt++; }
    }
    return cnt;
}

/* ================================================================ environment */
extern char **environ;
static size_t env_cnt(void) { size_t n = 0; if (sim_environ) while (sim_environ[n]) n++; return n; }
static int env_find(const char *name)
{
    size_t k = strlen(name); int i;
    if (sim_environ) for (i = 0; sim_environ[i]; i++) if (!strncmp(sim_environ[i], name, k) && sim_environ[i][k] == '=') return i;
    return -1;
}
void sim_env_reset(void) { sim_environ = calloc(1, sizeof(char *)); }
static void env_put_raw(char *entry, int at)
{
    if (at >= 0) sim_environ[at] = entry;
    else {
        size_t n = env_cnt(); char **v = calloc(n + 2, sizeof *v), i;
        (void) i;
        if (n) memcpy(v, sim_environ, n * sizeof *v);
        v[n] = entry;
        sim_environ = v;
    }
}
char *sim_getenv(const char *name)
{
    int i;
    sim_point(0);
    sim_check_range(name, 1, 0, "getenv");
    i = env_find(name);
    return i < 0 ? 0 : strchr(sim_environ[i], '=') + 1;
}
char *sim_secure_getenv(const char *name) { return sim_getenv(name); }
int sim_setenv(const char *name, const char *value, int over)
{
    int i; char *e;
    sim_point(0);
    sim_check_range(name, 1, 0, "setenv"); sim_check_range(value, 1, 0, "setenv");
    if (!name || !*name || strchr(name, '=')) { errno = EINVAL; return -1; }
    i = env_find(name);
    if (i >= 0 && !over) return 0;
    if (sim_in_child ? plan_setenv && --plan_setenv == 0 : is_parent() && sim_fault(FT_SETENV_ERR)) {
        if (sim_in_child) child_fault(FT_SETENV_ERR, "setenv", ENOMEM); else errno = sim_inject("setenv", ENOMEM);
        return -1;
    }
    if (asprintf(&e, "%s=%s", name, value) < 0) return -1;
    env_put_raw(e, i);
    return 0;
}
int sim_unsetenv(const char *name)
{
    int i;
    sim_point(0);
    if (!name || !*name || strchr(name, '=')) { errno = EINVAL; return -1; }
    while ((i = env_find(name)) >= 0) { size_t n = env_cnt(); memmove(sim_environ + i, sim_environ + i + 1, (n - i) * sizeof(char *)); }
    return 0;
}
int sim_clearenv(void) { sim_point(0); sim_environ = 0; return 0; }
int sim_putenv(char *s)
{
    char *nm, *q = strchr(s, '=');
    if (!q) return sim_unsetenv(s);
    nm = strndup(s, q - s);
    env_put_raw(s, env_find(nm));
    free(nm);
    return 0;
}

/* ================================================================ exit */
static struct { void (*f)(void); } ah[64]; static int nah;
int sim_atexit(void (*f)(void))
{
    sim_point(1);
    if (nah == 64) return -1;
    ah[nah++].f = f;
    return 0;
}
int sim_run_atexit(void)
{
    int n = 0;
    while (nah > 0) { void (*f)(void) = ah[--nah].f; n++; f(); }
    return n;
}
void sim_exit_common(int code)
{
    if (sim_in_child) {
        shrec->outcome = 2; shrec->code = code & 255;
        shrec->nfd = 0; shrec->cwd = P()->cwd;
        { int i; for (i = 0; i < NFD; i++) if (P()->fds[i].o) { shrec->fds[shrec->nfd].fd = i; shrec->fds[shrec->nfd].o = P()->fds[i].o; shrec->fds[shrec->nfd].cloexec = 0; shrec->nfd++; } }
        shrec->seq = sim_seq; shrec->hash = sim_hash_now();
        { cov_merge(); _exit(0); }
    }
    sim_exit_calls++;
    sim_fail("exit-called", "the process was ended with exit code %d", code);
}
/* abort in a forked child: only because of a failure that was injected there */
void os_child_abort(void)
{
    if (!child_failed) sim_fail("abort", "abort() called in a child process");
    shrec->abrt = 1;
    sim_exit_common(0);
}
void sim__exit(int code) { sim_exit_common(code); }
void sim_exit(int code)
{
    if (!sim_in_child) { sim_exit_calls++; sim_run_atexit(); sim_fail("exit-called", "exit(%d)", code); }
    sim_run_atexit();
    sim_exit_common(code);
}

/* ================================================================ processes */
void script_add(struct script *s, enum sop op, int a, int b)
{
    if (s->n < 63) { s->ins[s->n].op = op; s->ins[s->n].a = a; s->ins[s->n].b = b; s->n++; }
}
void sim_child_script(const struct script *s)
{
    if (!sim_in_child) sim_fail("body-in-parent", "a subprocess body ran in the parent process");
    if (shrec->has_body) sim_fail("body-twice", "the subprocess body ran twice");
    shrec->body = *s; shrec->has_body = 1;
}
int sim_nchildren(void) { return nkids; }
void sim_label(int label) { sim_cur->label = label; }
struct child_obs *sim_child(int i) { return kids[i]; }
static struct proc *by_pid(int pid)
{
    int i;
    for (i = 0; i < nprocs; i++) if (procs[i].pid == pid) return &procs[i];
    return 0;
}
int sim_child_alive(int i) { struct proc *p = by_pid(kids[i]->pid); return p && p->state == 0; }
int sim_procs_alive(void) { int i, n = 0; for (i = 1; i < nprocs; i++) if (procs[i].state == 0) n++; return n; }
int sim_zombies(void) { int i, n = 0; for (i = 1; i < nprocs; i++) if (procs[i].state == 1 && procs[i].ppid == procs[0].pid) n++; return n; }
/* kill everything that is still running (end of workload) */
void sim_kill_all(void) { int i; for (i = 1; i < nprocs; i++) if (procs[i].state == 0) { procs[i].termsig = 9; procs[i].t->kill = 1; } }

static void drop_fds(struct proc *p) { int i; for (i = 0; i < NFD; i++) if (p->fds[i].o) fd_close_raw(p, i); }

static void proc_die(struct proc *p, int wstatus)
{
    struct child_obs *c = p->child_idx >= 0 ? kids[p->child_idx] : 0;
    int i;
    p->termsig = 0;
    sim_log("process %d ends, status %x", p->pid, wstatus);
    if (c) {
        c->exited = 1; c->exited_at = sim_seq;
        if (wstatus & 127) c->killed_by = wstatus & 127; else c->exit_code = wstatus >> 8;
    }
    drop_fds(p);
    sim_proc_event_ns = sim_now;
    sim_point(1); sim_point(1);
    p->termsig = 0; sim_cur->kill = 0;
    if (chp(F, 200)) sim_sleep(1 + ch(F, 20000));      /* between closing its descriptors and becoming a zombie */
    p->wstatus = wstatus;
    sim_proc_event_ns = sim_activity_ns = sim_now;
    if (c) c->exited_ns = sim_now;
    p->state = p->detached ? 2 : 1;
    if (c) c->alive_descendants = 0;
    for (i = 1; i < nprocs; i++) if (procs[i].ppid == p->pid) { procs[i].ppid = 1; procs[i].detached = 1; if (procs[i].state == 1) procs[i].state = 2; }
    sim_task_exit();
}

static void step(void) { sim_activity_ns = sim_now; sim_point(1); chk_term(); if (sim_fault(FT_STALL)) { sim_sleep(1000ull * (1 + ch(F, 3000))); chk_term(); } }

/* deterministic contents of what a child writes to descriptor fd */
void sim_child_pattern(int idx, int fd, size_t off, char *b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        uint64_t x = (uint64_t) (off + i) * 0x9E3779B97F4A7C15ull + (uint64_t) idx * 1000003 + fd * 77777;
        b[i] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-"[(x >> 40) & 63];
    }
}
static int out_slot(int fd) { return fd == 1 ? 1 : fd == 2 ? 2 : 0; }
/* a child writes; what reached the descriptor is recorded */
static void child_write(int fd, const char *b, size_t n, int chunk)
{
    struct child_obs *c = obs(); size_t done = 0;
    while (done < n) {
        size_t k = n - done; ssize_t r; struct ofd *o;
        if (chunk > 0 && k > (size_t) chunk) k = chunk;
        step();
        o = fd_get(P(), fd);
        if (!o) { sim_log("child write: descriptor %d closed", fd); return; }
        if (o->kind == 'f' && (o->flags & O_ACCMODE) == O_RDONLY) { sim_log("child write: descriptor %d is not open for writing", fd); return; }
        if (c && fd < 3) {
            /* record exactly what enters the descriptor, piecewise */
            size_t put = 0;
            while (put < k) {
                size_t m = k - put;
                if (o->kind == 'q') {
                    if (o->pipe->readers == 0) { sigpipe(); return; }
                    if (o->pipe->len == o->pipe->cap) { sim_block(p_writable, o->pipe); chk_term(); continue; }
                    m = pipe_put(o->pipe, b + done + put, m);
                } else if (o->kind == 'f') { file_write(o, b + done + put, m); }
                out_append(c, out_slot(fd), b + done + put, m);
                put += m;
                sim_activity_ns = sim_now;
                sim_log("child writes %zu to %d", m, fd);
                sim_point(1); chk_term();
            }
            r = k;
        } else r = do_write(fd, b + done, k);
        if (r <= 0) return;
        done += r;
    }
}
static ssize_t child_read(int fd, char *b, size_t n)
{
    struct child_obs *c = obs(); ssize_t r;
    step();
    if (!fd_get(P(), fd)) return 0;
    r = do_read(fd, b, n);
    chk_term();
    if (c && fd == 0) {
        if (r > 0) {
            if (c->in_len + r > c->in_cap) { c->in_cap = (c->in_len + r) * 2 + 64; c->in = realloc(c->in, c->in_cap); }
            memcpy(c->in + c->in_len, b, r); c->in_len += r;
        }
        if (r == 0 && n) { if (!c->in_eof) c->in_eof_at = sim_seq; c->in_eof = 1; }
    }
    sim_log("child reads %zd from %d", r, fd);
    return r;
}

static struct proc *proc_new(struct proc *par, const char *nm, void (*fn)(void *));
static void proc_body(void *a);

static int never(void *a) { (void) a; return 0; }
static void run_script(struct proc *p, const struct script *s)
{
    int k; size_t off[3] = { 0, 0, 0 };
    struct child_obs *c = p->child_idx >= 0 ? kids[p->child_idx] : 0;
    for (k = 0; k < s->n; k++) {
        struct sinstr i = s->ins[k];
        step();
        switch (i.op) {
        case OP_END: return;
        case OP_WRITE: {                    /* a = fd | chunk << 8, b = bytes */
            int fd = i.a & 255; char *b = malloc(i.b + 1);
            sim_child_pattern(p->child_idx, fd, off[fd < 3 ? fd : 0], b, i.b);
            off[fd < 3 ? fd : 0] += i.b;
            child_write(fd, b, i.b, i.a >> 8);
            free(b);
            break;
        }
        case OP_READ: { char b[4096]; int left = i.b; while (left > 0) { ssize_t r = child_read(0, b, left < i.a ? left : i.a < 4096 && i.a > 0 ? i.a : 4096); if (r <= 0) break; left -= r; } break; }
        case OP_READ_ALL: { char b[4096]; for (;;) { ssize_t r = child_read(0, b, i.a > 0 && i.a < 4096 ? i.a : 4096); if (r <= 0) break; } break; }
        case OP_CAT: { char b[4096]; for (;;) { ssize_t r = child_read(0, b, i.a > 0 && i.a < 4096 ? i.a : 4096); if (r <= 0) break; child_write(1, b, r, 0); } break; }
        case OP_SLEEP: sim_sleep((uint64_t) i.a * 1000 + 1); chk_term(); break;
        case OP_CLOSE: if (fd_get(p, i.a)) { fd_close_raw(p, i.a); sim_proc_event_ns = sim_now; sim_log("child closes %d", i.a); } break;
        case OP_EXIT: proc_die(p, (i.a & 255) << 8);
        case OP_IGNTERM: p->ignterm = 1; break;
        case OP_KILLSELF: if (i.a == SIGTERM && p->ignterm) break; proc_die(p, i.a);
        case OP_WAITTERM: for (;;) { sim_block(never, 0); chk_term(); }
        case OP_FLOOD: {                    /* a = fd | chunk << 8; b = tag of the child whose end it waits for, 0 = until terminated */
            int fd = i.a & 255, n = (i.a >> 8) + 1, done = 0; char *b = malloc(n);
            while (!done) {
                int j;
                if (!fd_get(p, fd)) break;
                sim_child_pattern(p->child_idx, fd, off[fd < 3 ? fd : 0], b, n);
                off[fd < 3 ? fd : 0] += n;
                child_write(fd, b, n, 0);
                for (j = 0; i.b && j < nkids; j++) done |= kids[j]->tag == i.b && kids[j]->exited;
                sim_sleep(5000); chk_term();
            }
            free(b);
            break;
        }
        case OP_SPAWN: {                    /* a = microseconds it lives; b = bit mask of standard descriptors it keeps */
            struct proc *g = proc_new(p, "grandchild", proc_body); int f;
            script_add(&g->spawned, OP_SLEEP, i.a, 0);
            script_add(&g->spawned, OP_EXIT, 0, 0);
            for (f = 0; f < NFD; f++) if (g->fds[f].o && (f > 2 || !(i.b >> f & 1))) fd_close_raw(g, f);
            if (c) c->alive_descendants++;
            break;
        }
        }
    }
}
static void do_lits(struct rec *r, int after)
{
    int k;
    for (k = 0; k < r->nlit; k++)
        if (r->lit[k].after_body == after) child_write(r->lit[k].fd, r->litbuf + r->lit[k].off, r->lit[k].len, 0);
}
static void proc_body(void *a)
{
    struct proc *p = P(); struct rec *r = p->rec; int i; struct child_obs *c;
    (void) a;
    if (!r) { step(); run_script(p, &p->spawned); proc_die(p, 0); }
    c = kids[p->child_idx];
    /* until the child's own set-up code has run it still has all inherited descriptors */
    step();
    if (sim_fault(FT_STALL)) { sim_sleep(1000ull * (1 + ch(F, 20000))); chk_term(); }
    {
        struct fdent nf[NFD];
        memset(nf, 0, sizeof nf);
        for (i = 0; i < r->nfd; i++) { nf[r->fds[i].fd].o = r->fds[i].o; nf[r->fds[i].fd].cloexec = 0; }
        for (i = 0; i < NFD; i++) if (nf[i].o && nf[i].o->kind == 'c') nf[i].o = 0;
        for (i = 0; i < NFD; i++) if (nf[i].o) ofd_get(nf[i].o);
        drop_fds(p);
        memcpy(p->fds, nf, sizeof nf);
        p->cwd = r->cwd;
    }
    c->started = 1; c->exec_ok = r->outcome == 1; c->exec_called = r->exec_called;
    c->nfd = 0;
    for (i = 0; i < NFD && c->nfd < 160; i++) if (p->fds[i].o) {
        c->fd[c->nfd] = i; c->fd_kind[c->nfd] = p->fds[i].o->kind; c->fd_ofd[c->nfd] = p->fds[i].o; c->nfd++;
    }
    sim_log("child %d body starts (%s)", p->child_idx, r->outcome == 1 ? r->program : "callback");
    do_lits(r, 0);
    if (r->has_body) run_script(p, &r->body);
    do_lits(r, 1);
    step();
    proc_die(p, r->abrt ? SIGABRT : r->outcome == 1 ? 0 : (r->code & 255) << 8);
}
static struct proc *proc_new(struct proc *par, const char *nm, void (*fn)(void *))
{
    struct proc *p; int i; char n[24];
    if (nprocs == MAXPROC) sim_discard("too many processes");
    p = &procs[nprocs++];
    memset(p, 0, sizeof *p);
    p->pid = next_pid++; p->ppid = par->pid; p->child_idx = -1; p->cwd = par->cwd; p->ignterm = par == &procs[0] ? 0 : par->ignterm;
    for (i = 0; i < NFD; i++) if (par->fds[i].o) { p->fds[i] = par->fds[i]; ofd_get(p->fds[i].o); }
    snprintf(n, sizeof n, "%s%d", nm, p->pid - 100);
    p->t = sim_spawn_in(p, n, fn, 0);
    return p;
}
static struct { void (*f[3])(void); } atfork[16]; static int natfork;
int sim_pthread_atfork(void (*pre)(void), void (*par)(void), void (*chd)(void))
{
    sim_point(1);
    if (natfork == 16) return ENOMEM;
    atfork[natfork].f[0] = pre; atfork[natfork].f[1] = par; atfork[natfork++].f[2] = chd;
    return 0;
}
static pid_t fork_(void);
pid_t sim_fork(void)
{
    int i, e; pid_t r;
    for (i = natfork - 1; i >= 0; i--) if (atfork[i].f[0]) atfork[i].f[0]();
    r = fork_(); e = errno;
    for (i = 0; i < natfork; i++) if (atfork[i].f[r ? 1 : 2]) atfork[i].f[r ? 1 : 2]();
    errno = e;
    return r;
}
static pid_t fork_(void)
{
    pid_t real; int st; struct proc *p; struct child_obs *c;
    sys("fork");
    if (sim_in_child) sim_fail("fork-in-child", "fork in a forked child is not simulated");
    if (sim_fault(FT_FORK_ERR)) { errno = sim_inject("fork", ch(F, 3) == 2 ? ENOSYS : ch(F, 2) ? ENOMEM : EAGAIN); return -1; }
    if (nkids == MAXCHILD) sim_discard("too many children");
    plan_setenv = child_failed = plan_dup2 = plan_chdir = plan_exec = plan_eintr = ndup2 = 0;
    os_child_fault_plan();
    memset(shrec, 0, sizeof *shrec);
    real = fork();
    if (real < 0) sim_discard("the host cannot fork");
    if (real == 0) {
        struct itimerval it = { { 0, 0 }, { 20, 0 } };
        setitimer(ITIMER_PROF, &it, 0);
        sim_in_child = 1;
        sim_cur->p->pid = next_pid;          /* private copy */
        sim_log("forked");
        return 0;
    }
    while (waitpid(real, &st, 0) < 0 && errno == EINTR) ;
    if (R->done) { cov_merge(); _exit(0); }
    if (!WIFEXITED(st) || !shrec->outcome) sim_fail("child-lost", "the forked child ended abnormally before running its body (host status %x)", st);
    sim_fold(shrec->hash); sim_fold(shrec->seq);
    p = proc_new(P(), "child", proc_body);
    p->rec = malloc(sizeof *p->rec); *p->rec = *shrec;
    p->child_idx = nkids;
    c = calloc(1, sizeof *c);
    kids[nkids++] = c;
    c->pid = p->pid; c->ppid = p->ppid;
    c->exec_called = shrec->exec_called;
    c->exec_ok = shrec->outcome == 1;
    c->tag = shrec->body.tag; c->label = sim_cur->label;
    snprintf(c->program, sizeof c->program, "%s", shrec->program);
    c->argv_hash = shrec->argv_hash; c->env_hash = shrec->env_hash;
    c->argc = shrec->argc; memcpy(c->argv, shrec->argv, sizeof c->argv);
    c->envc = shrec->envc; memcpy(c->env, shrec->env, sizeof c->env);
    if (!path_of(shrec->cwd, c->cwd, sizeof c->cwd)) strcpy(c->cwd, "?");
    sim_log("fork -> %d", p->pid);
    sim_point(1);
    return p->pid;
}
pid_t sim_vfork(void) { return sim_fork(); }
int sim_child_setenv_rate;
void os_child_fault_plan(void)
{
    /* decided before the fork so that the forked child needs no choices */
    extern int sim_child_rates[4];
    if (sim_faults_off) return;
    if (sim_child_rates[0] && chp(F, sim_child_rates[0])) plan_dup2 = 1 + ch(F, 3);
    if (sim_child_rates[1] && chp(F, sim_child_rates[1])) { static const int es[] = { EACCES, ENOENT, EIO }; plan_chdir = es[ch(F, 3)]; }
    if (sim_child_rates[2] && chp(F, sim_child_rates[2])) { static const int es[] = { EACCES, ENOENT, ENOMEM, E2BIG, ENOEXEC }; plan_exec = 1; plan_exec_errno = es[ch(F, 5)]; }
    if (sim_child_rates[3] && chp(F, sim_child_rates[3])) plan_eintr = 1 + ch(F, 3);
    if (sim_child_setenv_rate && chp(F, sim_child_setenv_rate)) plan_setenv = 1 + ch(F, 4);
}
int sim_child_rates[4];
void sim_child_faults(int dup2_pm, int chdir_pm, int exec_pm, int eintr_pm)
{
    sim_child_rates[0] = dup2_pm; sim_child_rates[1] = chdir_pm; sim_child_rates[2] = exec_pm; sim_child_rates[3] = eintr_pm;
}
uint64_t sim_text_hash(const char *s)
{
    uint64_t h = 14695981039346656037ull;
    for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h ^ h >> 31;
}
void sim_abbrev(char *dst, size_t n, const char *s)
{
    size_t l = strlen(s), k; uint64_t h = 14695981039346656037ull;
    if (l < n) { memcpy(dst, s, l + 1); return; }
    for (k = 0; k < l; k++) h = (h ^ (unsigned char) s[k]) * 1099511628211ull;
    snprintf(dst, n, "%.*s...%zu:%016llx", (int) n - 50, s, l, (unsigned long long) h);
}
static int do_exec(const char *prog, char *const argv[], char **env)
{
    int i, e = 0;
    sys("exec");
    if (!sim_in_child) sim_fail("exec-in-parent", "exec in the parent process");
    sim_check_range(prog, 1, 0, "exec");
    shrec->exec_called++;
    for (i = 0; sim_check_range(&argv[i], sizeof argv[i], 0, "exec"), argv[i]; i++) sim_check_range(argv[i], 1, 0, "exec");
    if (plan_exec) { plan_exec = 0; child_fault(FT_EXEC_ERR, "exec", plan_exec_errno); return -1; }
    if (sim_exec_cb) e = sim_exec_cb(prog, &shrec->body);
    else e = ENOENT;
    if (e) { sim_log("exec(%s) fails: %d", prog, e); shrec->body.n = 0; errno = e; return -1; }
    shrec->has_body = 1;
    sim_abbrev(shrec->program, sizeof shrec->program, prog);
    for (i = 0; argv[i]; i++) { if (i < 80) sim_abbrev(shrec->argv[i], sizeof shrec->argv[i], argv[i]); shrec->argv_hash = shrec->argv_hash * 31 + sim_text_hash(argv[i]); }
    shrec->argc = i;
    for (i = 0; env && env[i]; i++) { if (i < 100) sim_abbrev(shrec->env[i], sizeof shrec->env[i], env[i]); shrec->env_hash += sim_text_hash(env[i]); }
    shrec->envc = i;
    shrec->cwd = P()->cwd;
    for (i = 0; i < NFD; i++) if (P()->fds[i].o && !P()->fds[i].cloexec) { shrec->fds[shrec->nfd].fd = i; shrec->fds[shrec->nfd].o = P()->fds[i].o; shrec->nfd++; }
    shrec->outcome = 1;
    shrec->seq = sim_seq; shrec->hash = sim_hash_now();
    { cov_merge(); _exit(0); }
}
int sim_execvp(const char *p, char *const a[]) { return do_exec(p, a, sim_environ); }
int sim_execv(const char *p, char *const a[]) { return do_exec(p, a, sim_environ); }
int sim_execve(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, (char **) e); }
int sim_execvpe(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, (char **) e); }

static int zomb(void *a) { return ((struct proc *) a)->state == 1; }
static int any_zomb(void *a) { int i; (void) a; for (i = 1; i < nprocs; i++) if (procs[i].state == 1 && procs[i].ppid == procs[0].pid) return 1; return 0; }
pid_t sim_waitpid(pid_t pid, int *st, int flags)
{
    struct proc *p = 0; int i;
    sys("waitpid");
    if (st) sim_check_range(st, 4, 1, "waitpid");
    if (!(flags & WNOHANG) && is_parent() && sim_fault(FT_EINTR)) { sim_log("waitpid interrupted"); errno = EINTR; return -1; }
    if (pid == -1) {
        int have = 0;
        for (i = 1; i < nprocs; i++) if (procs[i].ppid == P()->pid && procs[i].state != 2) have = 1;
        if (!have) { errno = ECHILD; return -1; }
        if (!any_zomb(0)) { if (flags & WNOHANG) return 0; sim_block(any_zomb, 0); }
        for (i = 1; i < nprocs; i++) if (procs[i].state == 1 && procs[i].ppid == P()->pid) { p = &procs[i]; break; }
    } else {
        p = by_pid(pid);
        if (!p || pid <= 0) sim_fail("wait-stale-pid", "waitpid(%d): not a child of this process", (int) pid);
        if (p->state == 2) {
            if (p->child_idx >= 0) kids[p->child_idx]->wait_calls_after_reap++;
            sim_fail("wait-stale-pid", "waitpid(%d): that child was already reaped; its number may belong to another process", (int) pid);
        }
        if (p->state != 1) {
            if (flags & WNOHANG) { sim_log("waitpid(%d) = 0", pid); return 0; }
            sim_log("waitpid(%d) blocks", pid);
            sim_block(zomb, p);
        }
    }
    p->state = 2;
    if (p->child_idx >= 0) { kids[p->child_idx]->reaped++; kids[p->child_idx]->reaped_at = sim_seq; }
    if (st) *st = p->wstatus;
    sim_log("reaped %d status %x", p->pid, p->wstatus);
    sim_point(1);
    return p->pid;
}
int sim_waitid(idtype_t ty, id_t id, siginfo_t *si, int options)
{
    struct proc *p = 0; int st = 0; pid_t r;
    if (ty != P_PID && ty != P_ALL) sim_discard("waitid of a process group");
    if (si) { sim_check_range(si, sizeof *si, 1, "waitid"); memset(si, 0, sizeof *si); }
    if (options & WNOWAIT) {
        sys("waitid");
        if (ty != P_PID) sim_discard("waitid(P_ALL, WNOWAIT)");
        p = by_pid(id);
        if (!p || p->state == 2) sim_fail("wait-stale-pid", "waitid(%d): that child was already reaped; its number may belong to another process", (int) id);
        if (!(options & WNOHANG) && is_parent() && sim_fault(FT_EINTR)) { errno = EINTR; return -1; }
        if (p->state != 1) { if (options & WNOHANG) return 0; sim_block(zomb, p); }
        st = p->wstatus; r = p->pid;
    } else {
        r = sim_waitpid(ty == P_PID ? (pid_t) id : -1, &st, options & WNOHANG);
        if (r < 0) return -1;
        if (r == 0) return 0;
    }
    if (si) {
        si->si_pid = r; si->si_signo = SIGCHLD;
        si->si_code = WIFSIGNALED(st) ? CLD_KILLED : CLD_EXITED;
        si->si_status = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
    }
    return 0;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
pid_t sim_wait4(pid_t pid, int *st, int fl, void *ru) { (void) ru; return sim_waitpid(pid, st, fl); }
int sim_kill(pid_t pid, int sig)
{
    struct proc *p;
    sys("kill");
    if (pid <= 0) sim_fail("kill-wide", "kill(%d, %d) addresses a process group", (int) pid, sig);
    p = by_pid(pid);
    if (!p || p == &procs[0] || p->ppid != P()->pid) sim_fail("kill-stale-pid", "kill(%d, %d): not a child of this process", (int) pid, sig);
    if (p->state == 2) sim_fail("kill-stale-pid", "kill(%d, %d): that child was already reaped; its number may belong to another process", (int) pid, sig);
    sim_log("kill(%d, %d)", pid, sig);
    if (p->state == 1 || sig == 0) return 0;
    if (sig == SIGTERM && p->ignterm) return 0;
    if (sig == SIGTERM || sig == SIGKILL || sig == SIGINT || sig == SIGHUP || sig == SIGQUIT) { p->termsig = sig; p->t->kill = 1; }
    sim_point(1);
    return 0;
}
pid_t sim_getpid(void) { return P()->pid; }
pid_t sim_getppid(void) { return P()->ppid; }
/* signal set-up by the parent: accepted, no effect on the model */
void *sim_signal(int s, void *h) { (void) s; (void) h; return 0; }
int sim_sigaction(int s, const void *a, void *o) { (void) s; (void) a; (void) o; return 0; }
int sim_sigprocmask(int how, const void *a, void *o) { (void) how; (void) a; (void) o; return 0; }

void os_init(void)
{
    int i; struct proc *p;
    nprocs = 1; next_pid = 101;
    p = &procs[0];
    memset(p, 0, sizeof *p);
    p->pid = 100; p->ppid = 1; p->child_idx = -1;
    root_ = inode_new('d', 0755, 0); root_->parent = 0;
    p->cwd = root_;
    for (i = 0; i < 3; i++) { struct ofd *o = ofd_new('t'); o->flags = i ? O_WRONLY : O_RDONLY; p->fds[i].o = o; o->refs = 1; }
    sim_env_reset();
    shrec = mmap(0, sizeof *shrec, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shrec == MAP_FAILED) sim_discard("mmap");
}

#define AL(n, o) __attribute__((alias(#o))) void n();
AL(sim__Exit, sim__exit) AL(sim_open64, sim_open) AL(sim_stat64, sim_stat) AL(sim_lstat64, sim_lstat) AL(sim_fstat64, sim_fstat)
AL(sim_fstatat64, sim_fstatat) AL(sim_readdir64, sim_readdir) AL(sim_openat64, sim_openat) AL(sim_lseek64, sim_lseek)
AL(sim_fopen64, sim_fopen) AL(sim_pthread_sigmask, sim_sigprocmask) AL(sim_fcntl64, sim_fcntl) AL(sim_pthread_yield, sim_sched_yield)
