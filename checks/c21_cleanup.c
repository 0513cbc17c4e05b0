/* C21: exit cleanup functions. */
#include "common.h"
#include <limits.h>
#include <inttypes.h>

#define NF 40
#define NR 240
static struct f { int act; } F_[NF];
/* One entry per registration; a function may be registered more than once, and is then called once for each. */
static struct reg { int f, before_exit, prio, called; } R_[NR];
static int nfun, nreg, exiting; static uint64_t crng;
static void called(int i);
#define X(n) static void fn##n(void) { called(n); }
#define X10(a) X(a##0) X(a##1) X(a##2) X(a##3) X(a##4) X(a##5) X(a##6) X(a##7) X(a##8) X(a##9)
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X10(1) X10(2) X10(3)
#define A10(a) fn##a##0, fn##a##1, fn##a##2, fn##a##3, fn##a##4, fn##a##5, fn##a##6, fn##a##7, fn##a##8, fn##a##9
static void (*const fns[NF])(void) = { fn0, fn1, fn2, fn3, fn4, fn5, fn6, fn7, fn8, fn9, A10(1), A10(2), A10(3) };

static int pick_prio(uint64_t *r)
{
    switch (rndn(r, 8)) {
    case 0: return 0;
    case 1: return INT_MIN;
    case 2: return INT_MAX - 1;
    case 3: return -1;
    case 4: return (int) (int32_t) rnd(r) / 2;
    default: return (int) rndn(r, 7) - 3;
    }
}
static void add(uint64_t *r)
{
    struct reg *g; int i, again = nreg > 0 && rndn(r, 4) == 0, prio = pick_prio(r), old = rndn(r, NR), same = rndn(r, 2), act = rndn(r, 9), named = rndn(r, 3); char nm[16];
    if (nreg >= NR || (!again && nfun >= NF)) return;
    g = &R_[nreg];
    if (again) {
        old %= nreg; i = R_[old].f; if (same) prio = R_[old].prio;
        sim_probe(same ? "registered again, same priority" : "registered again, other priority");
    } else {
        i = nfun++; F_[i].act = act;
    }
    nreg++;
    g->f = i; g->prio = prio; g->before_exit = !exiting; g->called = 0;
    sim_log("register function %d with priority %d%s", i, prio, exiting ? " during exit" : "");
    if (named) { snprintf(nm, sizeof nm, "cleanup %d", rndn(r, 2) ? i : 0); cork_cleanup_at_exit_named(nm, prio, fns[i]); memset(nm, '?', sizeof nm - 1); }
    else cork_cleanup_at_exit(prio, fns[i]);
}
static int tiny(void *d) { *(int *) d = 1; return 0; }
static void called(int i)
{
    struct f *f = &F_[i]; int k, best = -1, low = -1;
    CHECK(exiting, "C21:before-exit", "function %d called before exit", i);
    /* Which of its registrations is this call for?  The one that has the lowest priority.  Whatever is registered by
     * now and hasn't been called yet must not have a lower one. */
    for (k = 0; k < nreg; k++) {
        struct reg *g = &R_[k];
        if (g->called) continue;
        if (low < 0 || g->prio < R_[low].prio) low = k;
        if (g->f == i && (best < 0 || g->prio < R_[best].prio)) best = k;
    }
    CHECK(best >= 0, "C21:called-twice", "function %d called more often than it was registered", i);
    CHECK(R_[best].prio == R_[low].prio, R_[low].before_exit && R_[best].before_exit ? "C21:order" : "C21:late-order",
          "function %d (priority %d) called before function %d (priority %d%s)", i, R_[best].prio, R_[low].f, R_[low].prio, R_[low].before_exit ? "" : ", registered during exit");
    R_[best].called = 1;
    sim_log("function %d (priority %d) called", i, R_[best].prio);
    sim_state(f->act);
    switch (f->act) {
    case 0: add(&crng); sim_probe("registered during exit"); break;
    case 1: add(&crng); add(&crng); add(&crng); sim_probe("registered during exit"); break;
    case 2: cork_error_set_printf(5, "late %d", i); CHECK(cork_error_code() == 5 && strstr(cork_error_message(), "late "), "C21:late-error", "error API broken during exit");
            sim_probe("error API during exit"); break;
    case 3: { struct cork_hash_table *t = cork_string_hash_table_new(0, 0); int isnew = 0; void *ok, *ov;
              cork_hash_table_put(t, "k", "v", &isnew, &ok, &ov);
              CHECK(cork_hash_table_get(t, "k") != 0, "C21:late-table", "hash table broken during exit"); cork_hash_table_free(t); break; }
    case 4: { struct cork_buffer *b = cork_buffer_new(); cork_buffer_printf(b, "%d", i); cork_buffer_free(b); break; }
    case 5: { int ran = 0; struct cork_thread *t = cork_thread_new("late", &ran, 0, tiny);
              CHECK(cork_thread_start(t) == 0 && cork_thread_join(t) == 0 && ran, "C21:late-thread", "thread broken during exit"); sim_probe("thread during exit"); break; }
    default: break;
    }
}
static void worker(struct thr *t)
{
    int n = 1 + rndn(&t->rng, 4);
    while (n--) {
        switch (rndn(&t->rng, 4)) {
        case 0: cork_error_set_string(3, "x"); cork_error_clear(); break;
        default: add(&t->rng);
        }
        if (rndn(&t->rng, 3) == 0) sim_yield();
    }
}
static void run(void)
{
    struct thr th[4]; int i, n = ch(W, 4), k, first = ch(W, 3); uint64_t s0 = rnd_seed(), s[4];
    struct cork_alloc *dbg = 0;
    crng = rnd_seed();
    for (i = 0; i < 4; i++) s[i] = rnd_seed();
    if (ch(W, 3) == 1) { dbg = cork_debug_alloc_new(cork_allocator); cork_set_allocator(dbg); sim_probe("custom allocator"); }
    if (first == 1) { cork_error_set_string(1, "early"); cork_error_clear(); }
    for (k = ch(W, 20) == 19 ? 20 + ch(W, 200) : ch(W, 8); k > 0; k--) add(&s0);
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, s[i], worker, 0);
    for (k = ch(W, 6); k > 0; k--) add(&s0);
    for (i = 0; i < n; i++) thr_join(&th[i]);
    if (first == 2) { cork_error_set_string(1, "late"); cork_error_clear(); }
    exiting = 1;
    end_process(0);
    for (i = 0; i < nreg; i++)
        CHECK(R_[i].called, "C21:not-called", "function %d (priority %d, registered %s) was not called for this registration", R_[i].f, R_[i].prio, R_[i].before_exit ? "before exit" : "during exit");
}
DEFCHECK(C21, run);
