#ifndef CHECKS_SUB_COMMON_H
#define CHECKS_SUB_COMMON_H
#include "common.h"
#define NM 44

struct member;
struct rcv {                                /* receives one captured stream */
    struct cork_stream_consumer parent;
    struct member *m; int fd;
    size_t got; int calls, eofs;
    size_t limit;                           /* more than this is too much for one call */
    int fail_at, fail_how, failed;          /* fail_at: number of the callback that fails, -1 never */
};
struct member {
    int id, exec, uses, ret_fail, ret_val, want[3], want_code;
    struct script s;
    struct rcv r[3];
    int code;
    int nominal;                            /* index in order of fork, if known */
    int slow_us; uint64_t blocks;           /* its consumers take their time; how often they slept */
    int events;                             /* callbacks delivered so far */
    int label, nth;                         /* else it is the nth fork by a thread with this label */
    struct cork_subprocess *sub;
};
extern struct member mem_[NM];
extern int sub_nm;
extern int sub_events;                      /* callbacks delivered so far */
extern int sub_fail_code;                   /* error set by a failing consumer (0: fails without one) */

enum { G_KILL = 1, G_SPAWN = 2, G_STDIN = 4, G_FOREVER = 8, G_QUIET = 16, G_BIG = 32, G_FLOOD = 64 };
void sub_init(void);                        /* call first */
struct member *sub_add(int flags);          /* makes a member with a random script */
void sub_script(struct member *m, int flags);
void sub_make(struct member *m);            /* the library object */
int  sub_kid(struct member *m);             /* index of its child, -1 if none (yet) */
struct child_obs *sub_obs(struct member *m);
int  sub_ended(struct member *m);           /* reaped and all captured streams ended */
int  sub_reaps(void);
void sub_check_result(struct member *m);    /* after successful completion */
void sub_guard(void);                       /* fail if nothing happens for a long time */
void sub_pick_env(void);                    /* pipe capacity, closed standard descriptors; before anything is counted */
extern int sub_closed;
#endif
