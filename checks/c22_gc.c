/* C22: garbage collection frees all garbage once, and nothing else. */
#include "common.h"

#define MAXO 64
#define NE 4
#define ROOTS 1024              /* only used to make collections likely at any moment */
struct world;
struct obj { uint32_t magic; int id; struct world *w; struct obj *e[NE]; struct obj *pin; const char *name; };
struct mo { struct obj *p; int kind, held, e[NE], pin, dead, task; };
struct world { struct mo o[MAXO]; int n; uint64_t rng; int fillers; struct obj *fill[ROOTS + 64]; int nfill, in_lib, freed, flood, unchained; struct obj *chain[300]; int nchain; };
static int nthr, with_pins;

static void reach(struct world *w, char *m)
{
    int st[MAXO], k = 0, i, j;
    memset(m, 0, MAXO);
    for (i = 0; i < w->n; i++) if (w->o[i].held > 0) { m[i] = 1; st[k++] = i; }
    for (i = 0; i < w->n; i++) if (!w->o[i].dead && w->o[i].pin >= 0 && !m[w->o[i].pin]) { m[w->o[i].pin] = 1; st[k++] = w->o[i].pin; }
    while (k) { i = st[--k]; for (j = 0; j < NE; j++) { int t = w->o[i].e[j]; if (t >= 0 && !m[t]) { m[t] = 1; st[k++] = t; } } }
}
static struct obj *check_obj(void *v, const char *what)
{
    struct obj *s = v;
    sim_check_range(s, sizeof *s, 0, what);
    CHECK(s->magic == 0x600d600d, "C22:wild", "%s: not one of the objects", what);
    return s;
}
static void o_free(void *v)
{
    struct obj *s = check_obj(v, "finalised object"); struct mo *m;
    char r[MAXO];
    if (s->id < 0) { CHECK(s->id <= -2, "C22:live-freed", "an object that is referenced was finalised"); s->magic = 0; if (s->id == -3) s->w->unchained++; else s->w->freed++; return; }
    m = &s->w->o[s->id];
    CHECK(m->p == s, "C22:wild", "finalised object %d is not where it was", s->id);
    CHECK(!m->dead, "C22:finalised-twice", "object %d was finalised twice", s->id);
    CHECK(sim_task_id() == m->task, "C22:other-thread", "object %d was finalised by another thread than its own", s->id);
    CHECK(s->w->in_lib, "C22:late", "object %d finalised outside of a collector call", s->id);
    reach(s->w, r);
    CHECK(!r[s->id], "C22:live-freed", "object %d was finalised although it is still reachable", s->id);
    m->dead = 1;
    sim_log("object %d finalised", s->id);
    s->magic = 0;
    cork_strfree(s->name);
    if (s->pin) { struct obj *p = s->pin; s->pin = 0; m->pin = -1; cork_gc_decref(p); }
    if (nthr > 1) sim_point(0);
}
static void o_recurse(struct cork_gc *gc, void *v, cork_gc_recurser rec, void *ud)
{
    struct obj *s = check_obj(v, "visited object"); int i;
    if (s->id >= 0) CHECK(!s->w->o[s->id].dead, "C22:use-after-finalise", "object %d was visited after it was finalised", s->id);
    for (i = 0; i < NE; i++) rec(gc, s->e[i], ud);
}
static struct cork_gc_obj_iface full = { o_free, o_recurse }, leaf = { o_free, NULL };

static int pick(struct world *w, int mode)   /* 0 reachable, 1 held, 2 reachable non-leaf, 3 reachable leaf */
{
    char r[MAXO]; int c[MAXO], k = 0, i;
    reach(w, r);
    for (i = 0; i < w->n; i++)
        if (mode == 1 ? w->o[i].held > 0 : r[i] && (mode == 0 || (mode == 2) == (w->o[i].kind == 0))) c[k++] = i;
    return k ? c[rndn(&w->rng, k)] : -1;
}
#define LIB(x) do { w->in_lib++; x; w->in_lib--; } while (0)
static void drop(struct world *w, int i) { w->o[i].held--; sim_log("drop %d", i); LIB(cork_gc_decref(w->o[i].p)); }
static void op(struct world *w)
{
    int i, j, t, k = rndn(&w->rng, 16);
    if (w->n == 0) k = 0;
    if (k < 4 && w->n < MAXO) {
        struct mo *m = &w->o[w->n]; struct obj *p; char nm[24]; int kids[NE];
        memset(m, 0, sizeof *m);
        m->kind = rndn(&w->rng, with_pins ? 3 : 6) == 0; m->pin = -1; m->task = sim_task_id();
        for (j = 0; j < NE; j++) kids[j] = m->kind == 0 && rndn(&w->rng, 2) ? pick(w, 0) : -1;
        t = with_pins && rndn(&w->rng, 2) ? pick(w, 3) : -1;
        LIB(p = cork_gc_alloc(sizeof(struct obj), m->kind ? &leaf : &full));
        sim_check_range(p, sizeof *p, 1, "new object");
        memset(p, 0, sizeof *p);
        p->magic = 0x600d600d; p->id = w->n; p->w = w;
        snprintf(nm, sizeof nm, "object %d", w->n); p->name = cork_strdup(nm);
        for (j = 0; j < NE; j++) {
            m->e[j] = kids[j];
            if (kids[j] >= 0) { LIB(p->e[j] = cork_gc_incref(w->o[kids[j]].p)); CHECK(p->e[j] == w->o[kids[j]].p, "C22:incref", "cork_gc_incref returned another pointer"); }
        }
        if (t >= 0) { LIB(p->pin = cork_gc_incref(w->o[t].p)); m->pin = t; }
        m->p = p; m->held = 1; w->n++;
        sim_log("new %d edges %d %d %d %d pin %d", w->n - 1, m->e[0], m->e[1], m->e[2], m->e[3], m->pin);
    } else if (k < 6) {
        if ((i = pick(w, 0)) >= 0) {
            sim_log("hold %d", i); LIB(cork_gc_incref(w->o[i].p)); w->o[i].held++;
            if (rndn(&w->rng, 60) == 59) {              /* very many references to one object */
                t = nthr == 1 && rndn(&w->rng, 20) == 19 ? 66000 : 250 + rndn(&w->rng, 20);
                sim_log("hold %d another %d times", i, t); sim_probe("hundreds of references to one object");
                sim_nopreempt++;
                for (j = 0; j < t; j++) LIB(cork_gc_incref(w->o[i].p));
                w->o[i].held += t;
                if (t > 1000 || rndn(&w->rng, 2)) { t -= rndn(&w->rng, 3); for (j = 0; j < t; j++) { w->o[i].held--; LIB(cork_gc_decref(w->o[i].p)); } }
                sim_nopreempt--;
            }
        }
    } else if (k < 9) {
        if ((i = pick(w, 1)) >= 0) drop(w, i);
        if (rndn(&w->rng, 6) == 5) LIB(cork_gc_decref(NULL));
    } else if (k < 13) {
        struct obj *old; int ot; int steal = rndn(&w->rng, 3) == 2;
        if ((i = pick(w, 2)) < 0) return;
        j = rndn(&w->rng, NE);
        t = rndn(&w->rng, 3) == 2 ? -1 : pick(w, steal ? 1 : 0);
        if (t < 0) steal = 0;
        if (steal) {            /* a reference that moves into its own cycle is lost without any decref: nobody can notice */
            char r[MAXO]; w->o[t].held--; reach(w, r); w->o[t].held++;
            if (!r[i]) steal = 0;
        }
        old = w->o[i].p->e[j]; ot = w->o[i].e[j];
        sim_log("edge %d.%d %d -> %d%s", i, j, ot, t, steal ? " (stolen)" : "");
        if (t < 0) w->o[i].p->e[j] = NULL;
        else if (steal) { w->o[i].p->e[j] = w->o[t].p; w->o[t].held--; }
        else LIB(w->o[i].p->e[j] = cork_gc_incref(w->o[t].p));
        w->o[i].e[j] = t;
        LIB(cork_gc_decref(old));
    } else if (k < 15) {        /* fill the table of possible roots */
        int cnt;
        if (!w->fillers) return;
        sim_nopreempt++;
        cnt = rndn(&w->rng, 4) ? w->nfill - rndn(&w->rng, 3) : rndn(&w->rng, w->nfill + 1);
        sim_log("touch %d fillers", cnt);
        for (i = 0; i < cnt; i++) LIB({ cork_gc_incref(w->fill[i]); cork_gc_decref(w->fill[i]); });
        sim_nopreempt--;
    } else if (rndn(&w->rng, 3) == 2) { sim_log("collect"); LIB(cork_gc_done()); }
    else if (nthr > 1) sim_yield();
}
static void all_gone(struct world *w, const char *when)
{
    char r[MAXO]; int i;
    reach(w, r);
    for (i = 0; i < w->n; i++)
        CHECK(r[i] == !w->o[i].dead, "C22:not-freed", "%s: object %d is %s but %s", when, i, r[i] ? "reachable" : "not reachable", w->o[i].dead ? "was finalised" : "was not finalised");
}
static void done(struct world *w)
{
    LIB(cork_gc_done());
    all_gone(w, "after the collector was shut down");
    CHECK(w->unchained == (w->nchain > 0 ? w->nchain : 0), "C22:not-freed", "%d of the %d members of a dropped chain were finalised", w->unchained, w->nchain);
}
/* cyclic garbage is collected at some time even if nobody asks for it */
static void flood(struct world *w)
{
    int i, freed0 = w->freed, max = 0;
    sim_nopreempt++;
    for (i = 0; i < 20000; i++) {
        struct obj *p;
        LIB(p = cork_gc_alloc(sizeof *p, &full));
        memset(p, 0, sizeof *p); p->magic = 0x600d600d; p->id = -2; p->w = w; p->e[i & 3] = p;
        if (i & 4) LIB(cork_gc_incref(p)); else { LIB(cork_gc_incref(p)); LIB(cork_gc_incref(p)); LIB(cork_gc_decref(p)); }
        LIB(cork_gc_decref(p));
        if (i + 1 - (w->freed - freed0) > max) max = i + 1 - (w->freed - freed0);
    }
    sim_nopreempt--;
    CHECK(max < 16384, "C22:accumulates", "%d pieces of cyclic garbage have accumulated", max);
    sim_probe("flood of cyclic garbage");
}
/* a long chain or ring of objects, referenced at its head only */
static void chain(struct world *w)
{
    int i, L = 2 + rndn(&w->rng, rndn(&w->rng, 2) ? 20 : 290), ring = rndn(&w->rng, 2), back = rndn(&w->rng, 2);
    sim_nopreempt++;
    for (i = 0; i < L; i++) {
        struct obj *p;
        LIB(p = cork_gc_alloc(sizeof *p, &full));
        memset(p, 0, sizeof *p); p->magic = 0x600d600d; p->id = -1; p->w = w; w->chain[i] = p;
        if (i) { w->chain[i - 1]->e[0] = p; if (back) LIB(p->e[1] = cork_gc_incref(w->chain[i - 1])); }
    }
    if (ring) LIB(w->chain[L - 1]->e[2] = cork_gc_incref(w->chain[0]));
    w->nchain = L;
    sim_nopreempt--;
    sim_probe(ring || back ? "long cycle" : "long chain");
}
static void unchain(struct world *w)
{
    int i;
    if (!w->nchain) return;
    for (i = 0; i < w->nchain; i++) { check_obj(w->chain[i], "member of a chain"); CHECK(w->chain[i]->id == -1, "C22:wild", "member %d of a chain was overwritten", i); w->chain[i]->id = -3; }
    sim_nopreempt++;
    LIB(cork_gc_decref(w->chain[0]));
    sim_nopreempt--;
}
static void body(struct thr *t)
{
    struct world *w = t->ctx; int i, steps = 1 + rndn(&t->rng, rndn(&t->rng, 3) ? 25 : 110);
    w->rng = rnd(&t->rng);
    if (rndn(&w->rng, 2)) LIB(cork_gc_init());
    if (w->fillers) {
        w->nfill = ROOTS + 2 - rndn(&w->rng, 14);
        sim_nopreempt++;
        for (i = 0; i < w->nfill; i++) {
            struct obj *p = w->fill[i] = cork_gc_alloc(sizeof *p, rndn(&w->rng, 2) ? &leaf : &full);
            memset(p, 0, sizeof *p); p->magic = 0x600d600d; p->id = -1; p->w = w;
        }
        sim_nopreempt--;
    }
    if (rndn(&w->rng, 6) == 5) chain(w);
    while (steps--) op(w);
    if (w->nchain && rndn(&w->rng, 2)) { unchain(w); for (steps = rndn(&w->rng, 10); steps--; ) op(w); } else if (w->nchain) w->nchain = -w->nchain;
    if (w->flood) { flood(w); for (steps = rndn(&w->rng, 20); steps--; ) op(w); }
    for (i = 0; i < w->nfill; i++) w->fill[i]->id = -2;
    sim_nopreempt++;
    for (i = 0; i < w->nfill; i++) LIB(cork_gc_decref(w->fill[i]));
    sim_nopreempt--;
    if (w->nchain < 0) { w->nchain = -w->nchain; unchain(w); }
    if (rndn(&w->rng, 2)) {     /* keep some references over the first shutdown */
        for (i = 0; i < w->n; i++) while (w->o[i].held > 0 && rndn(&w->rng, 3)) drop(w, i);
        done(w);
        sim_probe("references held over a shutdown");
    }
    for (i = w->n - 1; i >= 0; i--) { int j = rndn(&w->rng, 2) ? i : w->n - 1 - i; while (w->o[j].held > 0) drop(w, j); }
    for (i = 0; i < w->n; i++) while (w->o[i].held > 0) drop(w, i);
    done(w);
    for (i = 0; i < w->n; i++) CHECK(w->o[i].dead, "C22:not-freed", "object %d was never finalised", i);
    cork_gc_done();
    sim_state(w->n * 64 + w->fillers);
}
static void run(void)
{
    static struct world wd[3]; struct thr t[3]; int i;
    sim_step_limit = 6000000;
    nthr = ch(W, 3) == 2 ? 2 + ch(W, 2) : 1;
    with_pins = ch(W, 3) == 2;
    memset(wd, 0, sizeof wd);
    for (i = 0; i < nthr; i++) wd[i].fillers = ch(W, nthr > 1 ? 4 : 2);
    for (i = 0; i < nthr; i++) if (nthr > 1) wd[i].fillers = wd[i].fillers == 3;
    if (nthr == 1) { sim_nopreempt++; wd[0].flood = ch(W, 60) == 59; }
    if (ch(W, 2)) cork_set_allocator(cork_debug_alloc_new(cork_allocator));
    for (i = 0; i < nthr; i++) thr_start(&t[i], nthr == 1 ? TK_TASK : ch(W, 3), i, rnd_seed(), body, &wd[i]);
    for (i = 0; i < nthr; i++) thr_join(&t[i]);
    end_process(0);
}
DEFCHECK(C22, run);
