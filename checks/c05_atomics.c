/* C05: atomic operations are linearizable. */
#include "common.h"
#include "u.h"

#define MAXH 20
struct op { int kind, op, var, task; uint64_t a, b, ret, call, back; };
static struct op H[MAXH];
static int nh, kind; static uint64_t clock_;
static uint64_t init_[2];

static uint64_t norm(uint64_t v) { return kind == 0 ? (uint64_t) (int64_t) (int) v : kind == 1 ? (unsigned) v : v; }
static uint64_t value(int v)
{
    return kind == 0 ? (uint64_t) (int64_t) u_at_int[v] : kind == 1 ? u_at_uint[v] : kind == 2 ? u_at_size[v] : (uint64_t) u_at_ptr[v];
}
/* sequential specification */
static uint64_t apply(struct op *o, uint64_t *st)
{
    uint64_t old = *st, r;
    switch (o->op) {
    case 0: *st = norm(old + o->a); r = *st; break;
    case 1: *st = norm(old + o->a); r = old; break;
    case 2: *st = norm(old - o->a); r = *st; break;
    case 3: *st = norm(old - o->a); r = old; break;
    default: r = old; if (old == norm(o->a)) *st = norm(o->b);
    }
    return r;
}
static struct { uint64_t st; uint32_t done; } seen[4096]; static int nseen;
/* is there an order of the operations of one variable, consistent with real time, that explains all results? */
static int lin(struct op **o, int n, uint32_t done, uint64_t st, uint64_t fin)
{
    int i, j;
    if (done == (1u << n) - 1) return st == fin;
    for (i = 0; i < nseen; i++) if (seen[i].st == st && seen[i].done == done) return 0;
    for (i = 0; i < n; i++) {
        uint64_t s = st; int ok = 1;
        if ((done >> i) & 1) continue;
        for (j = 0; j < n && ok; j++) if (!((done >> j) & 1) && j != i && o[j]->back < o[i]->call) ok = 0;
        if (!ok) continue;
        if (apply(o[i], &s) != o[i]->ret) continue;
        if (lin(o, n, done | 1u << i, s, fin)) return 1;
    }
    if (nseen < 4096) { seen[nseen].st = st; seen[nseen++].done = done; }
    return 0;
}
static uint64_t pick(uint64_t *r)
{
    switch (rndn(r, 8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (uint64_t) -1;
    case 3: return kind == 2 || kind == 3 ? 0x123456789abull : 0x7fffffff;
    case 4: return kind >= 2 ? (uint64_t) 1 << 63 : 0x80000000u;
    default: return rndn(r, 4);
    }
}
static void body(struct thr *t)
{
    int n = 2 + rndn(&t->rng, 4), spins = rndn(&t->rng, 3);
    while (n-- > 0 && nh < MAXH) {
        struct op *o = &H[nh++];
        o->kind = kind; o->task = t->id; o->var = rndn(&t->rng, 4) == 0; o->op = kind == 3 ? 4 : rndn(&t->rng, 5);
        o->a = norm(pick(&t->rng)); o->b = norm(pick(&t->rng));
        if (o->op == 4 && rndn(&t->rng, 3)) o->a = value(o->var);    /* a compare-and-swap that can succeed */
        o->back = (uint64_t) -1;
        o->call = ++clock_;
        o->ret = norm(u_atomic(kind, o->op, o->var, o->a, o->b));
        o->back = ++clock_;
        sim_log("op %d var %d (%llx,%llx) -> %llx", o->op, o->var, (long long) o->a, (long long) o->b, (long long) o->ret);
        if (o->op == 4 && o->ret == o->a) sim_probe("compare-and-swap succeeded");
        sim_state(o->ret);
        if (spins) sim_yield();
    }
}
static void run(void)
{
    struct thr th[4]; int n = 2 + ch(W, 3), i, v; uint64_t s[4], r;
    kind = ch(W, 4);
    r = rnd_seed();
    for (i = 0; i < n; i++) s[i] = rnd_seed();
    for (v = 0; v < 2; v++) {
        init_[v] = norm(pick(&r));
        if (kind == 0) u_at_int[v] = (int) init_[v]; else if (kind == 1) u_at_uint[v] = (unsigned) init_[v];
        else if (kind == 2) u_at_size[v] = init_[v]; else u_at_ptr[v] = (void *) init_[v];
    }
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 2), i, s[i], body, 0);
    for (i = 0; i < n; i++) thr_join(&th[i]);
    for (v = 0; v < 2; v++) {
        struct op *o[MAXH]; int m = 0, k, overlap = 0;
        for (i = 0; i < nh; i++) if (H[i].var == v) o[m++] = &H[i];
        for (i = 0; i < m; i++) for (k = 0; k < m; k++) if (i != k && o[i]->call < o[k]->call && o[k]->call < o[i]->back) overlap = 1;
        if (overlap) sim_probe("overlapping operations");
        nseen = 0;
        CHECK(lin(o, m, 0, init_[v], value(v)), "C05:not-linearizable",
              "no order of the %d operations on variable %d explains their results and the final value %llx", m, v, (long long) value(v));
    }
}
DEFCHECK(C05, run);
