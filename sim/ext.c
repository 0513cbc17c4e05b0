/* Calls that the library does not use today, but that an equivalent version of it might. */
#define _GNU_SOURCE
#include "internal.h"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

ssize_t sim_read(int fd, void *buf, size_t n); ssize_t sim_write(int fd, const void *buf, size_t n); off_t sim_lseek(int fd, off_t o, int wh);
int sim_nanosleep(const struct timespec *a, struct timespec *b); int sim_poll(struct pollfd *f, nfds_t n, int ms);
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv); pid_t sim_waitpid(pid_t pid, int *st, int flags);
int sim_pthread_mutex_lock(pthread_mutex_t *); int sim_pthread_mutex_trylock(pthread_mutex_t *); int sim_pthread_mutex_unlock(pthread_mutex_t *);
void *sim_realloc(void *p, size_t n); void sim_check_range(const void *p, size_t n, int write, const char *what);
int sim_vfprintf(FILE *f, const char *fmt, va_list ap); int sim_fputc(int c, FILE *f);

/* ---- memory and text */
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
    va_list a2; int n;
    va_copy(a2, ap); n = vsnprintf(0, 0, fmt, a2); va_end(a2);
    if (n < 0) return -1;
    *out = sim_malloc((size_t) n + 1);
    if (!*out) return -1;
    return vsnprintf(*out, (size_t) n + 1, fmt, ap);
}
int sim_asprintf(char **out, const char *fmt, ...) { int r; va_list ap; va_start(ap, fmt); r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }

/* ---- descriptors */
ssize_t sim_pread(int fd, void *b, size_t n, off_t at)
{
    off_t old = sim_lseek(fd, 0, SEEK_CUR); ssize_t r; int e;
    if (old < 0) return -1;
    sim_lseek(fd, at, SEEK_SET); r = sim_read(fd, b, n); e = errno; sim_lseek(fd, old, SEEK_SET); errno = e;
    return r;
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t at)
{
    off_t old = sim_lseek(fd, 0, SEEK_CUR); ssize_t r; int e;
    if (old < 0) return -1;
    sim_lseek(fd, at, SEEK_SET); r = sim_write(fd, b, n); e = errno; sim_lseek(fd, old, SEEK_SET); errno = e;
    return r;
}
static size_t iov_len(const struct iovec *v, int n) { size_t k = 0; while (n-- > 0) k += v++->iov_len; return k; }
ssize_t sim_writev(int fd, const struct iovec *v, int n)
{
    size_t len = iov_len(v, n), at = 0; char *b = malloc(len + 1); ssize_t r; int i, e;
    for (i = 0; i < n; i++) { if (v[i].iov_len) sim_check_range(v[i].iov_base, v[i].iov_len, 0, "writev"); memcpy(b + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
    r = sim_write(fd, b, len); e = errno; free(b); errno = e;
    return r;
}
ssize_t sim_readv(int fd, const struct iovec *v, int n)
{
    size_t len = iov_len(v, n), at = 0; char *b = malloc(len + 1); ssize_t r; int i, e;
    r = sim_read(fd, b, len); e = errno;
    for (i = 0; i < n && r > 0 && at < (size_t) r; i++) {
        size_t k = (size_t) r - at < v[i].iov_len ? (size_t) r - at : v[i].iov_len;
        sim_check_range(v[i].iov_base, k, 1, "readv"); memcpy(v[i].iov_base, b + at, k); at += k;
    }
    free(b); errno = e;
    return r;
}
int sim_vdprintf(int fd, const char *fmt, va_list ap)
{
    char b[3000]; int n = vsnprintf(b, sizeof b, fmt, ap);
    return (int) sim_write(fd, b, n < (int) sizeof b ? n : (int) sizeof b - 1);
}
int sim_dprintf(int fd, const char *fmt, ...) { int r; va_list ap; va_start(ap, fmt); r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }

/* ---- stdio */
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_fgetc(FILE *f) { sim_point(1); return getc(f); }
int sim_getc(FILE *f) { return sim_fgetc(f); }
char *sim_fgets(char *b, int n, FILE *f) { sim_point(1); sim_check_range(b, n, 1, "fgets"); return fgets(b, n, f); }
ssize_t sim_getdelim(char **b, size_t *n, int d, FILE *f)
{
    size_t k = 0; int c;
    sim_point(1);
    while ((c = getc(f)) != EOF) {
        if (!*b || k + 2 > *n) { *n = k * 2 + 120; *b = sim_realloc(*b, *n); if (!*b) return -1; }
        (*b)[k++] = (char) c; (*b)[k] = 0;
        if (c == d) break;
    }
    return k ? (ssize_t) k : -1;
}
ssize_t sim_getline(char **b, size_t *n, FILE *f) { return sim_getdelim(b, n, '\n', f); }

/* ---- time and readiness */
int sim_clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b)
{
    struct timespec t = *a;
    if (fl & TIMER_ABSTIME) {
        int64_t s, n, d;
        if (id == CLOCK_REALTIME) sim_wall_get_ns(&s, &n); else { s = sim_now / 1000000000; n = sim_now % 1000000000; }
        d = (a->tv_sec - s) * 1000000000ll + a->tv_nsec - n;
        if (d < 0) d = 0;
        t.tv_sec = d / 1000000000; t.tv_nsec = d % 1000000000; b = 0;
    }
    return sim_nanosleep(&t, b) ? errno : 0;
}
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m)
{
    (void) m;
    return sim_poll(f, n, !t ? -1 : (int) (t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000));
}
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
    struct timeval v;
    (void) m;
    if (!t) return sim_select(n, r, w, e, 0);
    v.tv_sec = t->tv_sec; v.tv_usec = t->tv_nsec / 1000;
    return sim_select(n, r, w, e, &v);
}
pid_t sim_wait3(int *st, int fl, void *ru) { (void) ru; return sim_waitpid(-1, st, fl); }

/* ---- more synchronisation */
static uint64_t deadline(const struct timespec *t, int mono)
{
    int64_t s, n, d;
    if (mono) { s = sim_now / 1000000000; n = sim_now % 1000000000; } else sim_wall_get_ns(&s, &n);
    d = (t->tv_sec - s) * 1000000000ll + t->tv_nsec - n;
    return sim_now + (d > 0 ? (uint64_t) d : 0);
}
static int mutex_idle(void *m) { return *(int *) m == 0; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t)
{
    uint64_t d = deadline(t, 0);
    while (sim_pthread_mutex_trylock(m)) if (!sim_block_until(mutex_idle, m, d)) return ETIMEDOUT;
    return 0;
}
struct cw { int *c, seq; };
static int cw_p(void *a) { struct cw *w = a; return *w->c != w->seq; }
static int cond_until(pthread_cond_t *c, pthread_mutex_t *m, uint64_t d)
{
    struct cw w = { (int *) c, *(int *) c }; int r;
    sim_pthread_mutex_unlock(m);
    r = sim_block_until(cw_p, &w, d);
    sim_pthread_mutex_lock(m);
    return r ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_until(c, m, deadline(t, 0)); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) { return cond_until(c, m, deadline(t, id != CLOCK_REALTIME)); }

struct rwl { int writer, readers; };                /* all zero when unlocked, like the static initialiser */
static int rd_ok(void *a) { return !((struct rwl *) a)->writer; }
static int wr_ok(void *a) { struct rwl *l = a; return !l->writer && !l->readers; }
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void) a; memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { (void) l; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sim_point(1); sim_block(rd_ok, l); ((struct rwl *) l)->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    sim_point(1);
    if (((struct rwl *) l)->writer == sim_cur->id + 1) sim_fail("deadlock", "%s locks a rwlock it already holds", sim_cur->name);
    sim_block(wr_ok, l); ((struct rwl *) l)->writer = sim_cur->id + 1; return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { sim_point(1); if (!rd_ok(l)) return EBUSY; ((struct rwl *) l)->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { sim_point(1); if (!wr_ok(l)) return EBUSY; ((struct rwl *) l)->writer = sim_cur->id + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *pl)
{
    struct rwl *l = (struct rwl *) pl;
    sim_point(1);
    if (l->writer) l->writer = 0; else l->readers--;
    sim_point(1);
    return 0;
}
static int spin_ok(void *a) { return !*(int *) a; }
int sim_pthread_spin_init(pthread_spinlock_t *l, int p) { (void) p; *(int *) l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { (void) l; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { sim_point(1); sim_block(spin_ok, (void *) l); *(int *) l = 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { sim_point(1); if (*(int *) l) return EBUSY; *(int *) l = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { sim_point(1); *(int *) l = 0; sim_point(1); return 0; }

struct bar { unsigned total, in, gen; };
struct bw { struct bar *b; unsigned gen; };
static int bar_p(void *a) { struct bw *w = a; return w->b->gen != w->gen; }
int sim_pthread_barrier_init(pthread_barrier_t *pb, const pthread_barrierattr_t *a, unsigned n) { struct bar *b = (struct bar *) pb; (void) a; b->total = n; b->in = b->gen = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { (void) b; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *pb)
{
    struct bar *b = (struct bar *) pb; struct bw w = { b, b->gen };
    sim_point(1);
    if (++b->in == b->total) { b->in = 0; b->gen++; sim_point(1); return PTHREAD_BARRIER_SERIAL_THREAD; }
    sim_block(bar_p, &w);
    return 0;
}
static int sem_ok(void *a) { return *(int *) a > 0; }
int sim_sem_init(sem_t *s, int sh, unsigned v) { (void) sh; *(int *) s = (int) v; return 0; }
int sim_sem_destroy(sem_t *s) { (void) s; return 0; }
int sim_sem_post(sem_t *s) { sim_point(1); ++*(int *) s; sim_point(1); return 0; }
int sim_sem_wait(sem_t *s) { sim_point(1); sim_block(sem_ok, s); --*(int *) s; return 0; }
int sim_sem_trywait(sem_t *s) { sim_point(1); if (!sem_ok(s)) { errno = EAGAIN; return -1; } --*(int *) s; return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { sim_point(1); *v = *(int *) s; return 0; }

/* ---- clocks and descriptors */
int sim_clock_gettime(clockid_t id, struct timespec *ts);
int sim_timespec_get(struct timespec *ts, int base) { if (base != TIME_UTC) return 0; return sim_clock_gettime(CLOCK_REALTIME, ts) ? 0 : base; }
int sim_clock_getres(clockid_t id, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = id == CLOCK_REALTIME_COARSE ? 4000000 : 1; } return 0; }
clock_t sim_clock(void) { sim_point(0); return (clock_t) (sim_now / (1000000000 / CLOCKS_PER_SEC)); }
int sim_fsync(int fd) { return sim_lseek(fd, 0, SEEK_CUR) < 0 && errno == EBADF ? -1 : 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_isatty(int fd) { if (sim_fsync(fd) == 0) errno = ENOTTY; return 0; }

/* ---- directories */
int sim_closedir(DIR *d); DIR *sim_opendir(const char *p); struct dirent *sim_readdir(DIR *d); void sim_free(void *p); int sim_close(int fd); int sim_nfds(void);
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *path, struct dirent ***list, int (*want)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
    DIR *d = sim_opendir(path); struct dirent *e, **v = 0; int n = 0, err;
    if (!d) return -1;
    for (;;) {
        struct dirent **w, *c;
        errno = 0;
        if (!(e = sim_readdir(d))) break;
        if (want && !want(e)) continue;
        w = sim_realloc(v, (n + 1) * sizeof *v); if (w) v = w;
        c = w ? sim_malloc(sizeof *c) : 0;
        if (!c) { errno = ENOMEM; break; }
        *c = *e; v[n++] = c;
    }
    err = errno;
    sim_closedir(d);
    if (err) { while (n > 0) sim_free(v[--n]); sim_free(v); errno = err; return -1; }
    if (cmp) qsort(v, n, sizeof *v, (int (*)(const void *, const void *)) cmp);
    if (!v) v = sim_malloc(sizeof *v);
    *list = v;
    return n;
}
