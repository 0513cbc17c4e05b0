#include "common.h"

static void thr_task(void *a) { struct thr *t = a; t->fn(t); t->done = 1; }
static void *thr_pth(void *a) { struct thr *t = a; t->fn(t); t->done = 1; return t; }
static int thr_cork(void *a) { struct thr *t = a; t->fn(t); t->done = 1; return 0; }

void thr_start(struct thr *t, int kind, int id, uint64_t seed, void (*fn)(struct thr *), void *ctx)
{
    char nm[16];
    memset(t, 0, sizeof *t);
    t->kind = kind; t->id = id; t->fn = fn; t->ctx = ctx; t->rng = seed;
    snprintf(nm, sizeof nm, "t%d", id);
    switch (kind) {
    case TK_PTHREAD:
        while (sim_pthread_create(&t->p, 0, thr_pth, t) != 0) sim_clear_last_injected();
        break;
    case TK_CORK:
        t->c = cork_thread_new(nm, t, 0, thr_cork);
        CHECK(cork_thread_start(t->c) == 0, "start-failed", "cork_thread_start failed without a reason");
        break;
    default:
        t->t = sim_spawn(nm, thr_task, t);
    }
    t->started = 1;
}
void thr_join(struct thr *t)
{
    switch (t->kind) {
    case TK_PTHREAD: sim_pthread_join(t->p, 0); break;
    case TK_CORK: CHECK(cork_thread_join(t->c) == 0, "join-failed", "cork_thread_join failed for a successful body"); break;
    default: sim_join(t->t);
    }
    CHECK(t->done, "join-early", "join returned before the thread had finished");
}
uint64_t rnd(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t rnd_seed(void) { return ch(W, 1 << 30); }

void end_process(size_t leftover)
{
    sim_run_atexit();
    if (sim_heap_live() != leftover) {
        sim_heap_dump();
        sim_fail(sim_heap_live() > leftover ? "leak" : "over-free", "%zu heap blocks (%zu bytes) still allocated after exit clean-up, expected %zu",
                 sim_heap_live(), sim_heap_live_bytes(), leftover);
    }
}

extern int sim_heap_fill;
__attribute__((noinline)) void dirty_stack(void)
{
    volatile unsigned char b[6000]; size_t i;
    for (i = 0; i < sizeof b; i++) b[i] = sim_heap_fill ? 1 : 0;
}
/* the name of a directory entry: a given one, or a numbered one; perhaps padded to a length up to 255 */
void fs_name(char *out, int number, const char *name, int len)
{
    int n = number >= 0 ? sprintf(out, "e%02d", number) : sprintf(out, "%s", name);
    while (n < len && n < 255) out[n] = (len & 3) == 2 ? "%sx%n"[n % 5] : "nopq"[len & 3], n++;
    out[n] = 0;
}
