/* Simulated pthreads. */
#define _GNU_SOURCE
#include "internal.h"
#include <pthread.h>
#include <stdlib.h>

void pth_init(void) { }

static void pth_entry(void *a)
{
    task *t = a;
    t->pret = t->pfn(t->arg);
}
/* handles: pthread_t is the task index + 1 */
static task *of(pthread_t h) { return h >= 1 && h <= (pthread_t) ntasks ? &tasks[h - 1] : 0; }

static void pth_trampoline(void *a) { task *t = a; t->pret = t->pfn(t->spec[63]); }

int sim_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    task *t; char nm[24];
    (void) at; (void) pth_entry;
    sim_point(1);
    if (sim_fault(FT_PTHREAD_CREATE)) {
        int e = ch(F, 2) ? EPERM : EAGAIN;
        return sim_inject("pthread_create", e);
    }
    snprintf(nm, sizeof nm, "thread%d", ntasks);
    t = sim_spawn_in(sim_cur->p, nm, pth_trampoline, 0);
    t->arg = t; t->pfn = fn; t->spec[63] = arg; t->is_pthread = 1;
    /* the handle may be stored before or after the new thread first runs */
    if (out) *out = (pthread_t) (t->id + 1);
    sim_log("pthread_create -> %s", t->name);
    sim_point(1);
    return 0;
}
static int done_p(void *a) { return ((task *) a)->st == T_DONE; }
int sim_pthread_join(pthread_t h, void **ret)
{
    task *t = of(h);
    sim_point(1);
    if (!t) { sim_fail("bad-join", "pthread_join with an invalid handle in %s", sim_cur->name); }
    if (t->joined || t->detached) sim_fail("bad-join", "%s joined a second time", t->name);
    if (t == sim_cur) return EDEADLK;
    sim_block(done_p, t);
    t->joined = 1;
    if (ret) *ret = t->pret;
    sim_log("joined %s", t->name);
    return 0;
}
int sim_pthread_detach(pthread_t h) { task *t = of(h); sim_point(1); if (t) t->detached = 1; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t) (sim_cur->id + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t h, const char *n)
{
    sim_point(1);
    sim_check_range(n, 1, 0, "pthread_setname_np");
    if (!of(h)) sim_fail("bad-handle", "pthread_setname_np with an invalid handle");
    if (strlen(n) > 15) return ERANGE;
    return 0;
}
void sim_pthread_exit(void *r) { sim_cur->pret = r; sim_task_exit(); }

/* mutex: word 0 = owner task id + 1, word 1 = recursion, word 4 = kind (where the static initialisers put it) */
struct mtx { int owner, count, unused[2], type; };
struct mw { struct mtx *m; int io; };
static int mtx_free(void *a)
{
    struct mw *w = a; struct task *o;
    if (w->m->owner == 0) return 1;
    o = &tasks[w->m->owner - 1];            /* its holder may itself be waiting for a process, a pipe, ... */
    if (o->st == T_BLOCKED && !o->wake && o->pred != mtx_free) w->io = 1;
    return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) pthread_mutexattr_gettype(a, &((struct mtx *) m)->type); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *mm)
{
    struct mtx *m = (struct mtx *) mm;
    sim_point(1);
    if (m->owner == sim_cur->id + 1) {
        if (m->count > 0 && m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        sim_fail("deadlock", "%s locks a mutex it already holds", sim_cur->name);
    }
    {
        struct mw w = { m, 0 }; uint64_t b = sim_cur->blocks;
        sim_block(mtx_free, &w);
        if (!w.io) sim_cur->blocks = b;
    }
    m->owner = sim_cur->id + 1; m->count = 1;
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *mm)
{
    struct mtx *m = (struct mtx *) mm;
    sim_point(1);
    if (m->owner == sim_cur->id + 1 && m->count > 0 && m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (m->owner) return EBUSY;
    m->owner = sim_cur->id + 1; m->count = 1;
    return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *mm)
{
    struct mtx *m = (struct mtx *) mm;
    sim_point(1);
    if (--m->count <= 0) m->owner = 0;
    sim_point(1);
    return 0;
}
struct cnd { int seq; };
struct cw { struct cnd *c; int seq; };
static int cnd_p(void *a) { struct cw *w = a; return w->c->seq != w->seq; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    struct cw w = { (struct cnd *) c, ((struct cnd *) c)->seq };
    sim_pthread_mutex_unlock(m);
    sim_block(cnd_p, &w);
    return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_signal(pthread_cond_t *c) { ((struct cnd *) c)->seq++; sim_point(1); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { ((struct cnd *) c)->seq++; sim_point(1); return 0; }
static int once_p(void *a) { return *(int *) a == 2; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    int *s = (int *) o;
    sim_point(1);
    if (*s == 2) return 0;
    if (*s == 0) { *s = 1; fn(); sim_point(1); *s = 2; return 0; }
    sim_block(once_p, s);
    return 0;
}
/* keys */
static struct { int used; void (*d)(void *); } keys[64];
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
    int i;
    sim_point(1);
    if (sim_fault(FT_KEY_ERR)) { sim_log("pthread_key_create fails"); return EAGAIN; }
    for (i = 1; i < 60; i++) if (!keys[i].used) { keys[i].used = 1; keys[i].d = d; *k = i; return 0; }
    return EAGAIN;
}
int sim_pthread_key_delete(pthread_key_t k) { keys[k].used = 0; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { sim_point(1); return k < 60 && keys[k].used ? sim_cur->spec[k] : 0; }
int sim_pthread_setspecific(pthread_key_t k, const void *v)
{
    sim_point(1);
    if (k >= 60 || !keys[k].used) return EINVAL;
    if (v && sim_fault(FT_KEY_ERR)) { sim_log("pthread_setspecific fails"); return ENOMEM; }
    sim_cur->spec[k] = (void *) v; return 0;
}
void pth_task_exit(task *t)
{
    int r, i, any = 1;
    if (t->id == 0) return;          /* key destructors do not run for main's exit() */
    for (r = 0; r < 4 && any; r++) {
        any = 0;
        for (i = 1; i < 60; i++)
            if (keys[i].used && keys[i].d && t->spec[i]) {
                void *v = t->spec[i]; t->spec[i] = 0; any = 1; keys[i].d(v);
            }
    }
}
