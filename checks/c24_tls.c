/* C24: thread-local variables. */
#include "common.h"
#include "u.h"

static struct { int live; const void *p; size_t n; int thread, variant, var; } reg[2400];
static int nreg;
static struct { void *p; int variant, freed, thread; } own[1000];
static int nown;

static void *get(int v, int i) { return v ? u_tls_key_get(i) : u_tls_std_get(i); }
static size_t size(int v, int i) { return v ? u_tls_key_size(i) : u_tls_std_size(i); }

void *u_tls_alloc(int variant, size_t n)
{
    void *p = sim_calloc(1, n);
    int i;
    for (i = 0; i < nown; i++)
        CHECK(own[i].thread != sim_task_id() || own[i].variant != variant, "C24:allocated-twice", "task %d allocated a second instance", sim_task_id());
    own[nown].p = p; own[nown].variant = variant; own[nown].thread = sim_task_id(); own[nown].freed = 0; nown++;
    return p;
}
void u_tls_free(int variant, void *p)
{
    int i;
    for (i = nown - 1; i >= 0; i--) if (own[i].p == p && own[i].variant == variant) {      /* the latest: storage may be reused */
        CHECK(!own[i].freed, "C24:released-twice", "an instance was released twice");
        CHECK(own[i].thread == sim_task_id(), "C24:released-elsewhere", "the instance of task %d was released by task %d", own[i].thread, sim_task_id());
        own[i].freed = 1;
        memset(p, 0xdd, 8);
        sim_free(p);
        return;
    }
    sim_fail("C24:release-pointer", "the release function was called with an unknown pointer");
}
static void first_seen(int th, int v, int i, void *p, size_t n)
{
    int k; size_t b;
    if (n > 8 || v == 1) sim_check_range(p, n, 0, "thread-local variable");
    for (b = 0; b < n; b++) CHECK(((char *) p)[b] == 0, "C24:not-zero", "thread %d variable %d/%d: byte %zu is %d on first sight", th, v, i, b, ((char *) p)[b]);
    for (k = 0; k < nreg; k++)
        if (reg[k].live && (const char *) p < (const char *) reg[k].p + reg[k].n && (const char *) reg[k].p < (const char *) p + n)
            sim_fail("C24:shared", "variable %d/%d of thread %d overlaps variable %d/%d of thread %d", v, i, th, reg[k].variant, reg[k].var, reg[k].thread);
    CHECK(nreg < 2400, "internal", "table full");
    reg[nreg].live = 1; reg[nreg].p = p; reg[nreg].n = n; reg[nreg].thread = th; reg[nreg].variant = v; reg[nreg].var = i; nreg++;
}
static int used_key;                       /* key instances made by the main thread, which are never released */
static void act(int th, uint64_t *r, int n, int is_main)
{
    void *addr[2][4] = { { 0 } }; char val[2][4][200]; size_t b; int k;
    memset(val, 0, sizeof val);
    while (n-- > 0) {
        int v = rndn(r, 2), i = rndn(r, 4); size_t sz = size(v, i); char *p;
        if (!addr[v][i] && rndn(r, 4) == 0) {           /* first touched by storing */
            for (b = 0; b < sz; b++) val[v][i][b] = (char) rnd(r);
            p = get(v, i); first_seen(th, v, i, p, sz);
            if (v) u_tls_key_poke(i, val[v][i]); else u_tls_std_poke(i, val[v][i]);
            addr[v][i] = p;
            if (is_main && v) used_key++;
            continue;
        }
        p = get(v, i);
        if (!addr[v][i]) { first_seen(th, v, i, p, sz); addr[v][i] = p; if (is_main && v) used_key++; }
        CHECK(p == addr[v][i], "C24:moved", "thread %d variable %d/%d moved", th, v, i);
        CHECK(memcmp(p, val[v][i], sz) == 0, "C24:altered", "thread %d variable %d/%d does not hold what the thread stored last", th, v, i);
        if (rndn(r, 2)) {
            for (b = 0; b < sz; b++) val[v][i][b] = (char) rnd(r);
            if (v) u_tls_key_poke(i, val[v][i]); else u_tls_std_poke(i, val[v][i]);
        }
        if (rndn(r, 3) == 0) sim_yield();
        sim_state(v * 4 + i);
    }
    if (!is_main) for (k = 0; k < nreg; k++) if (reg[k].thread == th) reg[k].live = 0;
}
static void on_abort(void)
{
    CHECK(sim_fault_count(FT_KEY_ERR), "C24:spurious-abort", "the process was terminated although nothing failed");
    sim_probe("terminated after the system refused a key or its storage");
}
static void body(struct thr *t) { act(t->id, &t->rng, 2 + rndn(&t->rng, 16), 0); }
static void run(void)
{
    struct thr th[6]; int n = 2 + ch(W, 5), i, m = ch(W, 3), waves = 1 + ch(W, 2), wv; uint64_t s, mr = rnd_seed();
    if (ch(W, 60) == 59) { waves = 10 + ch(W, 25); sim_probe("many threads over time"); }
    CHECK(u_tls_key_is_key(), "internal", "the key variant was not compiled with keys");
    sim_abort_ok = 1; sim_abort_cb = on_abort;
    if (ch(F, 6) == 5) sim_fault_enable(FT_KEY_ERR, chr_(F, 10, 300));
    if (m == 1) act(100, &mr, 8, 1);
    for (wv = 0; wv < waves; wv++) {
        for (i = 0; i < n; i++) { s = rnd_seed(); thr_start(&th[i], ch(W, 3), i + wv * 10, s, body, 0); }
        if (m == 2 && wv == 0) act(100, &mr, 8, 1);
        for (i = 0; i < n; i++) thr_join(&th[i]);
        for (i = 0; i < nown; i++) if (own[i].variant == 1 && own[i].thread != 0)
            CHECK(own[i].freed, "C24:not-released", "the instance of task %d was not released at its exit", own[i].thread);
        if (wv) sim_probe("later threads after earlier ones ended");
    }
    end_process(used_key);
}
DEFCHECK(C24, run);
