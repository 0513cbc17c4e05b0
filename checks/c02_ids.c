/* C02: thread identifiers. */
#include "common.h"

struct ent { int live; cork_thread_id id; const void *who; char name[24]; };
static struct ent reg[128];
static int nreg;

static void claim(cork_thread_id id, const void *who, const char *name)
{
    int i, mine = -1;
    CHECK(id != CORK_THREAD_NONE, "C02:zero-id", "%s has identifier 0", name);
    for (i = 0; i < nreg; i++) {
        if (!reg[i].live) continue;
        if (reg[i].who == who) { mine = i; continue; }
        CHECK(reg[i].id != id, "C02:duplicate-id", "%s and %s both have identifier %u", name, reg[i].name, id);
    }
    if (mine >= 0) {
        CHECK(reg[mine].id == id, "C02:id-changed", "the identifier of %s changed from %u to %u", name, reg[mine].id, id);
        return;
    }
    CHECK(nreg < 128, "internal", "too many threads");
    reg[nreg].live = 1; reg[nreg].id = id; reg[nreg].who = who;
    snprintf(reg[nreg].name, sizeof reg[nreg].name, "%s", name);
    nreg++;
    sim_log("identifier of %s is %u", name, id);
}
static void gone(const void *who)
{
    int i;
    for (i = 0; i < nreg; i++) if (reg[i].who == who) reg[i].live = 0;
}

struct lib { struct cork_thread *h; int depth, n, created, started, ended; uint64_t rng; char name[24]; };
static struct lib libs[40];
static int nlibs;
static void act(uint64_t *rng, const void *me, struct cork_thread *own, const char *name, int depth);

static int lib_run(void *a)
{
    struct lib *l = a;
    if (rndn(&l->rng, 2)) CHECK(cork_current_thread_get() == l->h, "C02:handle", "inside %s the current-thread handle is not its own", l->name);
    act(&l->rng, l->h, l->h, l->name, l->depth);
    l->ended = 1;
    return 0;
}
static struct lib *make(uint64_t *rng, int depth)
{
    struct lib *l;
    if (nlibs >= 14) return 0;
    l = &libs[nlibs];
    snprintf(l->name, sizeof l->name, "lib%d", nlibs);
    nlibs++;
    l->rng = rnd(rng); l->depth = depth + 1;
    l->h = cork_thread_new(l->name, l, 0, lib_run);
    CHECK(strcmp(cork_thread_get_name(l->h), l->name) == 0, "C02:name", "handle reports name %s instead of %s", cork_thread_get_name(l->h), l->name);
    claim(cork_thread_get_id(l->h), l->h, l->name);
    l->created = 1;
    return l;
}
static void observe(const void *me, struct cork_thread *own, const char *name)
{
    cork_thread_id id = cork_current_thread_get_id();
    claim(id, me, name);
    if (own) CHECK(id == cork_thread_get_id(own), "C02:inside-outside", "%s sees identifier %u, its handle reports %u", name, id, cork_thread_get_id(own));
    CHECK(cork_current_thread_get() == own, "C02:handle", "in %s the current-thread handle is %s", name, own ? "not its own" : "not null");
}
static void act(uint64_t *rng, const void *me, struct cork_thread *own, const char *name, int depth)
{
    struct lib *mine[4]; int n = 0, i, k = 1 + rndn(rng, 4);
    for (i = 0; i < k; i++) {
        switch (rndn(rng, 5)) {
        case 0: case 1: observe(me, own, name); break;
        case 2: CHECK(cork_current_thread_get() == own, "C02:handle", "in %s the current-thread handle is wrong", name); break;
        default:
            if (n < 4 && depth < 2) {
                struct lib *l = make(rng, depth);
                if (!l) break;
                mine[n++] = l;
                if (rndn(rng, 3)) {
                    int tries = 0;
                    while (cork_thread_start(l->h) != 0) {
                        CHECK(sim_last_errno_injected() != 0, "C02:start", "start failed without a reason");
                        sim_clear_last_injected(); cork_error_clear(); sim_probe("start refused");
                        claim(cork_thread_get_id(l->h), l->h, l->name);
                        if (rndn(rng, 3) == 0) sim_yield();
                        if (++tries == 2 || rndn(rng, 3) == 0) { tries = -1; break; }
                    }
                    l->started = tries >= 0;
                }
            }
        }
        if (rndn(rng, 3) == 0) sim_yield();
        for (int j = 0; j < n; j++) claim(cork_thread_get_id(mine[j]->h), mine[j]->h, mine[j]->name);
    }
    observe(me, own, name);
    for (i = 0; i < n; i++) {
        struct cork_thread *h = mine[i]->h;
        claim(cork_thread_get_id(h), h, mine[i]->name);
        if (mine[i]->started) { /* it may end only now */
            CHECK(cork_thread_join(h) == 0, "C02:join", "join failed");
        } else {
            if (rndn(rng, 2)) sim_yield();
            cork_thread_free(h);
        }
        gone(h);
        sim_state(rndn(rng, 2));
    }
    observe(me, own, name);
}
static void foreign(struct thr *t)
{
    char nm[24];
    snprintf(nm, sizeof nm, "foreign%d", t->id);
    act(&t->rng, t, 0, nm, 0);
    gone(t);
}
static int unused(void *a) { (void) a; return 0; }
static void run(void)
{
    struct thr th[5]; int n = 1 + ch(W, 4), i, self = ch(W, 3); uint64_t seeds[5], s0 = rnd_seed();
    for (i = 0; i < n; i++) seeds[i] = rnd_seed();
    if (ch(W, 2)) sim_fault_enable(FT_PTHREAD_CREATE, 200);
    if (self == 1) observe(&nreg, 0, "main");
    sim_step_limit = 8000000;
    if (ch(W, 50) == 49) {                  /* identifiers go beyond a byte */
        int k = ch(W, 30) ? 240 + ch(W, 20) : 65520 + ch(W, 20);
        while (k-- > 0) cork_thread_free(cork_thread_new("x", 0, 0, unused));
        sim_probe("many identifiers given out before");
    }
    for (i = 0; i < n; i++) {
        memset(&th[i], 0, sizeof th[i]);
        thr_start(&th[i], ch(W, 2), i, seeds[i], foreign, 0);
    }
    if (self == 2) act(&s0, &nreg, 0, "main", 0);
    for (i = 0; i < n; i++) thr_join(&th[i]);
    observe(&nreg, 0, "main");
    end_process(0);
}
DEFCHECK(C02, run);
