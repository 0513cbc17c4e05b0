/* Deterministic simulator for libcork: public interface for workloads.
 *
 * One simulated execution ("run") happens inside one forked OS process with a
 * single OS thread.  Simulated threads and simulated child processes are
 * coroutines; which one runs is decided by the scheduler at every memory
 * access of instrumented code and at every simulated call.  Every decision is
 * drawn from one of three recorded choice streams, so that the three recorded
 * sequences are the run. */
#ifndef VSIM_H
#define VSIM_H

#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>

/* ---- choices ---- */
enum { W = 0 /* workload */, S = 1 /* schedule */, F = 2 /* faults, environment */, NSTREAM = 3 };
uint32_t ch(int stream, uint32_t n);             /* [0,n); 0 is the simplest */
int      chp(int stream, uint32_t permille);     /* 1 with that probability; 0 is simplest */
uint32_t chr_(int stream, uint32_t lo, uint32_t hi);  /* [lo,hi] */

/* ---- log, probes, verdict ---- */
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(const char *name);                /* "rare condition was hit" */
void sim_state(uint64_t v);                      /* folds into the run's state measure */
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_discard(const char *why) __attribute__((noreturn));
void sim_end_ok(void) __attribute__((noreturn)); /* end the run early, verdict ok */
#define CHECK(cond, cls, ...) do { if (!(cond)) sim_fail((cls), __VA_ARGS__); } while (0)

/* ---- time, scheduling ---- */
extern uint64_t sim_now;                         /* ns of simulated time */
extern uint64_t sim_seq;                         /* global event sequence number */
typedef struct task task;
typedef struct proc proc;
extern task *sim_cur;
int   sim_task_id(void);
void  sim_point(int sync);                       /* a scheduling point */
void  sim_yield(void);                           /* let somebody else run, if anybody can */
void  sim_sleep(uint64_t ns);
void  sim_block(int (*pred)(void *), void *arg); /* until pred holds */
int   sim_block_until(int (*pred)(void *), void *arg, uint64_t deadline); /* 0 = timed out */
task *sim_spawn(const char *name, void (*fn)(void *), void *arg);   /* task in the current process */
int   sim_task_done(task *t);
void  sim_join(task *t);
extern int sim_nopreempt;                        /* >0: no scheduling points */
extern uint64_t sim_step_limit;
uint64_t sim_steps(void);
int   sim_others_runnable(void);

/* a foreign pthread (through the simulated pthread layer) is made by
 * workload code calling pthread_create in user/ *.c */

/* ---- faults ---- */
enum fault {
    FT_EINTR, FT_SHORT_READ, FT_SHORT_WRITE, FT_READ_ERR, FT_WRITE_ERR, FT_ENOSPC,
    FT_OPEN_ERR, FT_PIPE_ERR, FT_FCNTL_ERR, FT_FORK_ERR, FT_DUP2_ERR, FT_CHDIR_ERR,
    FT_EXEC_ERR, FT_CLOSE_ERR, FT_MALLOC, FT_PTHREAD_CREATE, FT_STAT_ERR,
    FT_MKDIR_ERR, FT_RMDIR_ERR, FT_UNLINK_ERR, FT_OPENDIR_ERR, FT_READDIR_ERR,
    FT_GETCWD_ERR, FT_CLOCK_JUMP, FT_EXTERNAL, FT_KILLED, FT_STALL, FT_CALLBACK_FAIL,
    FT_PTHREAD_JOIN, FT_KEY_ERR, FT_SETENV_ERR, FT_COUNT
};
extern const char *const fault_names[FT_COUNT];
void sim_fault_enable(enum fault k, uint32_t permille);  /* this run may inject k */
void sim_fault_budget(int n);                    /* at most n injected faults in this run (-1 = no limit) */
int  sim_fault(enum fault k);                    /* decide; counts, logs if it fires */
uint32_t sim_fault_count(enum fault k);
void sim_fault_note(enum fault k);               /* workload-made fault happened */
uint32_t sim_faults_total(void);
int  sim_last_errno_injected(void);              /* errno of the last injected hard error, 0 if none */
int  sim_reading_failed(void);                   /* was a hard error injected by anything but closing? */
int  sim_was_injected_reading(int e);            /* was that one? */
int  sim_was_injected(int e);                     /* was that errno injected into this task since the last clear? */
extern int sim_faults_off;                       /* >0: sim_fault never fires */

/* ---- simulated heap ---- */
void  *sim_malloc(size_t n);
void  *sim_calloc(size_t a, size_t b);
void  *sim_realloc(void *p, size_t n);
void   sim_free(void *p);
size_t sim_heap_live(void);                      /* live blocks */
size_t sim_heap_live_bytes(void);
size_t sim_heap_size_of(const void *p);          /* requested size of live block, (size_t)-1 if not a live block start */
void   sim_heap_dump(void);
void   sim_check_range(const void *p, size_t n, int write, const char *what);
extern uint64_t sim_malloc_calls;
extern int sim_abort_ok;                         /* abort() ends the run as ok */
extern int sim_heap_reuse;                       /* reuse freed memory at once */
extern void (*sim_abort_cb)(void);

/* ---- simulated operating system ---- */
struct inode;
void  sim_os_reset(void);
int   sim_nfds(void);                            /* open descriptors of the current process */
int   sim_ndirs(void);                           /* open directory handles */
void  sim_fd_dump(void);
uint64_t sim_syscalls(void);
/* file system, used by workloads from outside (no faults, no points) */
struct inode *fs_root(void);
struct inode *fs_mk(const char *path, char type, const char *content, mode_t mode); /* 'd','f','l','o' */
struct inode *fs_look(const char *path, int follow);
int   fs_rm_rf(const char *path);
int   fs_errno(const char *path, int follow);    /* what stat() would say: 0 or errno */
char  fs_type(struct inode *i);
mode_t fs_mode(struct inode *i);
size_t fs_size(struct inode *i);
const char *fs_data(struct inode *i);
int   fs_ino(struct inode *i);
void  fs_set_denied(struct inode *i, int denied);/* lookups through this directory fail with EACCES */
void  fs_set_data(struct inode *i, const void *d, size_t n);
/* textual snapshot "path type[:target|:size]\n" sorted */
char *fs_snapshot(void);
void  fs_chdir_raw(const char *path);
extern int sim_errno_scribble;                   /* successful path calls change errno */
extern int fs_dtype_unknown;                     /* 1: readdir does not tell types */
extern int fs_reader_order;                      /* 0 = creation order, 1 = chosen at random */
/* descriptors, from outside */
int   sim_open_file_fd(const char *path, int flags);  /* fd in current process */
FILE *sim_fdopen(int fd, const char *mode);
int   sim_fclose(FILE *f);
off_t sim_lseek(int fd, off_t off, int wh);
FILE *sim_fopen(const char *path, const char *mode);  /* stdio file on the simulated descriptor */
int   sim_fd_is_open(int fd);
/* pipes */
int   sim_make_pipe(int fds[2]);
extern size_t sim_pipe_cap;
/* syscalls (same semantics as libc) */
ssize_t sim_read(int fd, void *buf, size_t n);
ssize_t sim_write(int fd, const void *buf, size_t n);
int   sim_close(int fd);
/* clock */
extern uint64_t sim_wall_sec; extern int64_t sim_wall_off_ns;
void  sim_wall_get_ns(int64_t *sec, int64_t *ns);
extern uint64_t sim_wall_reads;
extern uint64_t sim_disk_left;
extern mode_t sim_umask;
const char *sim_last_call_injected(void);
void  sim_clear_last_injected(void);
int   fs_path_of(struct inode *d, char *out, size_t n);
struct inode *fs_cwd(void);
uint64_t sim_my_blocks(void);                    /* times the current task really had to wait, other than for a short critical section */
void  sim_wall_get(uint64_t *sec, uint64_t *usec);

/* ---- simulated processes ---- */
enum sop { OP_END, OP_WRITE, OP_READ, OP_READ_ALL, OP_SLEEP, OP_CLOSE, OP_EXIT, OP_IGNTERM,
           OP_SPAWN, OP_KILLSELF, OP_CAT, OP_WAITTERM, OP_FLOOD };
struct sinstr { enum sop op; int a; int b; };
struct script { struct sinstr ins[64]; int n; int tag; };   /* tag: whose body, set by the workload */
void script_add(struct script *s, enum sop op, int a, int b);
struct child_obs {                                /* what a simulated child saw and did */
    int pid, ppid, started, exec_ok, exec_called;
    char program[200];
    int argc; char argv[80][200];                 /* the first ones, as abbreviated by sim_abbrev */
    int envc; char env[100][200];
    uint64_t argv_hash, env_hash;                 /* of all of them: h * 31 + sim_text_hash, sum of sim_text_hash */
    char cwd[4200];
    int nfd; int fd[160]; int fd_kind[160]; void *fd_ofd[160];
    char *in; size_t in_len, in_cap;              /* bytes read from fd 0 */
    int in_eof; uint64_t in_eof_at;
    char *out[3]; size_t out_len[3], out_cap[3];  /* bytes written to fd 1, 2 */
    int exited, exit_code, killed_by, reaped; uint64_t exited_at, reaped_at;
    int wait_calls_after_reap;
    int alive_descendants;
    int tag; uint64_t exited_ns;
    int label;                                    /* sim_label of the thread that forked it */
};
#define MAXCHILD 64
uint64_t sim_text_hash(const char *s);
void sim_abbrev(char *dst, size_t n, const char *s);   /* s itself if it fits, else its beginning, length and a hash */
int  sim_nchildren(void);
struct child_obs *sim_child(int i);               /* in order of fork */
void sim_label(int label);
int  sim_child_alive(int i);
int  sim_procs_alive(void);                       /* simulated processes other than the parent not yet dead */
int  sim_zombies(void);
/* called in the forked child by a run-callback: this is what the child does */
void sim_child_script(const struct script *s);
/* workload decides what an executed program does */
extern int (*sim_exec_cb)(const char *program, struct script *out);  /* 0 or errno; runs in the forked child */
void  sim_child_faults(int dup2_pm, int chdir_pm, int exec_pm, int eintr_pm);
extern int sim_child_setenv_rate;
void  sim_child_pattern(int idx, int fd, size_t off, char *b, size_t n);
void  sim_kill_all(void);
void *sim_fd_ofd(int fd);
int   sim_fd_nonblock(int fd);
void  sim_syscall_cb_off(void);
/* child-side fault plan (decided in the parent before the fork) */
extern int sim_parent_blocked_in_drain;
extern void (*sim_syscall_cb)(const char *name);   /* called on each parent syscall */
extern char **sim_environ;
void sim_env_reset(void);
int  sim_run_atexit(void);                        /* simulated exit(): run handlers; returns number run */
extern uint64_t sim_blocked_ns;                   /* simulated ns the current task spent blocked/asleep in the last call */
extern int sim_exit_calls;
extern uint64_t sim_proc_event_ns;                /* last time a child ended or closed a descriptor */
extern uint64_t sim_activity_ns;                  /* last time a child did anything */

/* ---- checks ---- */
struct check {
    const char *id;
    const char *name;
    void (*run)(void);          /* body of simulated thread 0 */
    const char *const *faults_doc;
};
#define DEFCHECK(ID, FN) const struct check check_##ID = { #ID, #FN, FN, 0 }

/* helpers */
uint64_t sim_hash_bytes(const void *p, size_t n);
char *sim_pattern(size_t n, uint32_t salt, char *buf);

#endif
