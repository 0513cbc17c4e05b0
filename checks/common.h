#ifndef CHECKS_COMMON_H
#define CHECKS_COMMON_H
#include "sim.h"
#include <stdlib.h>
#include <pthread.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/threads.h"

int sim_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg);
int sim_pthread_join(pthread_t h, void **ret);

/* threads of the three origins a user can have */
enum { TK_TASK = 0 /* foreign, never joined through pthread */, TK_PTHREAD = 1, TK_CORK = 2 };
struct thr {
    int kind, id;
    void (*fn)(struct thr *);
    void *ctx;
    task *t; pthread_t p; struct cork_thread *c;
    int started, done;
    uint64_t rng;
};
void thr_start(struct thr *t, int kind, int id, uint64_t seed, void (*fn)(struct thr *), void *ctx);
void thr_join(struct thr *t);

/* a private pseudo-random sequence, for workloads whose threads must not
 * consume choices in an order that depends on the schedule */
uint64_t rnd(uint64_t *s);
static inline uint32_t rndn(uint64_t *s, uint32_t n) { return n ? (uint32_t) (rnd(s) % n) : 0; }
uint64_t rnd_seed(void);                 /* from stream W; 0 is simplest */

/* simulated process exit: run the exit handlers, then nothing may be left */
void end_process(size_t leftover_blocks);
/* gives local variables that are not initialised a defined, unwelcome value */
void dirty_stack(void);
void fs_name(char *out, int number, const char *name, int len);
#endif
