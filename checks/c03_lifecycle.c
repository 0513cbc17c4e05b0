/* C03: thread start/join life cycle. */
#include "common.h"

#define MAXL 16
struct lib {
    struct cork_thread *h; int idx, behave, owner_depth;
    char *data;                       /* heap block handed over as user data */
    int destr_fn;                     /* 0 = none */
    int destroyed, ran, ended, started, joined, freed;
    int posted, code, rc; char name[140]; const char *msg; char msgbuf[64];
    uint64_t rng;
};
static struct lib L[MAXL];
static int nl;
static char longmsg[30000];

static struct lib *of_data(void *d) { int i; for (i = 0; i < nl; i++) if (L[i].data == d && !L[i].freed) return &L[i]; sim_fail("C03:user-data", "called with a pointer that is no thread's user data"); }
static void destr(void *d)
{
    struct lib *l = of_data(d);
    CHECK(l->destr_fn, "C03:destructor", "destructor of %s called though none was given", l->name);
    CHECK(l->destroyed == 0, "C03:destructor", "user data of %s destroyed twice", l->name);
    CHECK(!l->started || l->ended, "C03:destructor-early", "user data of %s destroyed before its body had finished", l->name);
    l->destroyed = 1;
    sim_log("destructor of %s", l->name);
    memset(d, 0xdd, 16);
    sim_free(d); l->data = 0;
}
static void some_joins(uint64_t *rng);
static struct lib *make(uint64_t *rng, int depth);
static void use(struct lib *l, uint64_t *rng);

static int body(void *d)
{
    struct lib *l = of_data(d);
    CHECK(!l->ran, "C03:ran-twice", "the body of %s was run a second time", l->name);
    CHECK(l->started, "C03:not-started", "the body of %s runs though it was not started", l->name);
    CHECK(cork_error_code() == CORK_ERROR_NONE, "C03:dirty-error", "%s starts with error %u set", l->name, cork_error_code());
    CHECK(memcmp(d, l->name, strlen(l->name)) == 0, "C03:user-data", "user data of %s was altered", l->name);
    l->ran = 1;
    sim_log("body of %s begins", l->name);
    if (l->owner_depth < 2 && rndn(&l->rng, 3) == 0) {
        struct lib *c = make(&l->rng, l->owner_depth + 1);
        if (c) { use(c, &l->rng); cork_error_clear(); sim_probe("thread started by a library thread"); }
    }
    if (rndn(&l->rng, 3) == 0) { sim_fault_note(FT_STALL); sim_sleep(1 + rndn(&l->rng, 100)); }
    switch (l->behave) {
    case 0: l->rc = 0; break;
    case 1: cork_error_set_string(l->code, l->msg); l->rc = -1; break;
    case 2: l->rc = 3; break;                              /* fails without setting an error */
    case 3: cork_error_set_string(l->code, l->msg); l->rc = 0; break;   /* stale error, success */
    case 4: cork_error_set_string(77, "stale"); cork_error_clear(); l->rc = -1; break;
    default: cork_error_set_string(99, "first"); cork_error_clear(); cork_error_set_printf(l->code, "%s", l->msg); l->rc = 1;
    }
    CHECK(memcmp(d, l->name, strlen(l->name)) == 0, "C03:user-data", "user data of %s was altered", l->name);
    l->ended = 1;
    sim_log("body of %s ends, result %d", l->name, l->rc);
    return l->rc;
}
static struct lib *make(uint64_t *rng, int depth)
{
    static const char *const nm[] = { "w", "worker", "", "a thread with a long name", "per%cent %d", "exactly15chars_",
        "a name that is longer than any system would want to keep for a thread, so long that it does not fit into a buffer of sixty-four" };
    struct lib *l; char tmp[140]; int k;
    if (nl >= MAXL) return 0;
    l = &L[nl]; l->idx = nl; nl++;
    l->rng = rnd(rng); l->owner_depth = depth;
    l->behave = rndn(&l->rng, 6); l->code = rndn(&l->rng, 3) ? 1 + rndn(&l->rng, 200) : 1 + (int) (rnd(&l->rng) & 0x7ffffffe);
    snprintf(l->name, sizeof l->name, "%s%d", nm[rndn(&l->rng, 7)], l->idx);
    k = rndn(&l->rng, 5);
    if (k == 0) l->msg = ""; else if (k == 1) l->msg = longmsg; else if (k == 2) l->msg = "100% %s %n broken";
    else { snprintf(l->msgbuf, sizeof l->msgbuf, "failure of number %d", l->idx); l->msg = l->msgbuf; }
    l->destr_fn = rndn(&l->rng, 4) != 0;
    l->data = sim_malloc(160); memset(l->data, 0, 160); strcpy(l->data, l->name);
    strcpy(tmp, l->name);
    l->h = cork_thread_new(tmp, l->data, l->destr_fn ? destr : 0, body);
    memset(tmp, '#', sizeof tmp - 1);
    CHECK(strcmp(cork_thread_get_name(l->h), l->name) == 0, "C03:name", "the name of %s was not kept", l->name);
    return l;
}
static int try_start(struct lib *l)
{
    int rc;
    uint32_t before = sim_fault_count(FT_PTHREAD_CREATE);
    int preset = rndn(&l->rng, 2);
    if (preset) cork_error_set_string(1234, "before"); else cork_error_clear();
    l->started = 1;
    rc = cork_thread_start(l->h);
    if (rc == 0) {
        CHECK(sim_last_errno_injected() == 0, "C03:start-success", "start succeeded though the thread was refused");
        if (preset) CHECK(cork_error_code() == 1234, "C03:start-error", "a successful start changed the error condition");
        return 0;
    }
    l->started = 0;
    CHECK(!l->ran, "C03:start-fail-ran", "start failed but the body ran");
    CHECK(sim_last_errno_injected() != 0, "C03:start-fails", "start failed (error %u) without a reason", cork_error_code());
    CHECK((int) cork_error_code() == sim_last_errno_injected(), "C03:start-errno", "start failed with error %u, the system reported %d",
          cork_error_code(), sim_last_errno_injected());
    CHECK(strcmp(cork_error_message(), strerror(sim_last_errno_injected())) == 0, "C03:start-message", "start error message is '%s'", cork_error_message());
    sim_clear_last_injected();
    sim_probe("start refused");
    (void) before;
    return -1;
}
static void check_gone(struct lib *l)
{
    if (l->destr_fn) CHECK(l->destroyed == 1, "C03:destructor", "user data of %s was not destroyed", l->name);
    else { sim_free(l->data); l->data = 0; }
    l->freed = 1;
}
static void release_unstarted(struct lib *l)
{
    cork_thread_free(l->h);
    CHECK(!l->ran, "C03:free-ran", "%s ran though it was never started", l->name);
    check_gone(l);
}
static void do_join(struct lib *l)
{
    int preset = rndn(&l->rng, 3), rc; char *before = 0; cork_error bc;
    if (preset) cork_error_set_string(4321, preset == 1 ? "joiner's own" : longmsg); else cork_error_clear();
    bc = cork_error_code();
    if (preset) before = strdup(cork_error_message());
    if (!l->ended) sim_probe("join before the body finished"); else sim_probe("join after the body finished");
    rc = cork_thread_join(l->h);
    CHECK(l->ran == 1 && l->ended, "C03:join-early", "join of %s returned before its body had %s", l->name, l->ran ? "finished" : "run");
    CHECK((rc != 0) == (l->rc != 0), "C03:join-result", "join of %s returned %d, its body returned %d", l->name, rc, l->rc);
    if (rc == 0) {
        CHECK(cork_error_code() == bc, "C03:joiner-error", "successful join changed the joiner's error code from %u to %u", bc, cork_error_code());
        if (preset) CHECK(strcmp(cork_error_message(), before) == 0, "C03:joiner-error", "successful join changed the joiner's error message");
    } else {
        const char *m = cork_error_message();
        if (l->behave == 2 || l->behave == 4)
            CHECK(cork_error_code() == CORK_UNKNOWN_ERROR, "C03:join-code", "body failed without an error, join reports code %u", cork_error_code());
        else {
            CHECK((int) cork_error_code() == l->code, "C03:join-code", "body failed with error %d, join reports %u", l->code, cork_error_code());
            CHECK(strstr(m, l->msg), "C03:join-message", "join message '%.100s' lacks the body's '%.60s'", m, l->msg);
        }
        CHECK(strstr(m, l->name), "C03:join-message", "join message '%.100s' lacks the thread's name", m);
        sim_probe("error propagated");
    }
    free(before);
    l->joined = 1;
    check_gone(l);
    sim_state(l->behave * 4 + preset);
}
static int wants_join(void *a) { struct lib *l = a; return l->posted; }
static void use(struct lib *l, uint64_t *rng)
{
    int tries = 1 + rndn(rng, 2), ok = -1;
    if (rndn(rng, 6) == 0) { release_unstarted(l); return; }
    while (tries-- > 0 && ok != 0) ok = try_start(l);
    if (ok != 0) { release_unstarted(l); sim_probe("freed after refused start"); return; }
    if (rndn(rng, 3) == 0) sim_yield();
    do_join(l);
}
/* threads started by main, joined by somebody else */
static struct lib *handoff[6]; static int nh;
static void joiner(struct thr *t)
{
    int i;
    for (i = 0; i < nh; i++)
        if (i % 2 == t->id) {
            sim_block(wants_join, handoff[i]);
            if (handoff[i]->posted == 1) do_join(handoff[i]);
        }
}
static void worker(struct thr *t)
{
    int i, n = 1 + rndn(&t->rng, 3);
    for (i = 0; i < n; i++) { struct lib *l = make(&t->rng, 0); if (l) use(l, &t->rng); }
}
static void run(void)
{
    struct thr jn[2], wk[3]; int i, nj, nw; uint64_t s[8];
    memset(longmsg, 'm', ch(W, 10) == 9 ? 3000 + ch(W, 26900) : 2999);
    if (ch(W, 2)) sim_fault_enable(FT_PTHREAD_CREATE, 250);
    sim_fault_budget(6);
    nh = ch(W, 4); nj = nh ? 1 + ch(W, 2) : 0; nw = ch(W, 3);
    for (i = 0; i < 8; i++) s[i] = rnd_seed();
    for (i = 0; i < nh; i++) handoff[i] = make(&s[i], 0);
    sim_faults_off++;
    for (i = 0; i < nj; i++) { memset(&jn[i], 0, sizeof jn[i]); thr_start(&jn[i], TK_TASK, nj == 1 ? 0 : i, s[4 + i], joiner, 0); }
    for (i = 0; i < nw; i++) thr_start(&wk[i], TK_TASK, i, s[6 + i], worker, 0);
    sim_faults_off--;
    for (i = 0; i < nh; i++) {
        struct lib *l = handoff[i];
        if (try_start(l) != 0) { release_unstarted(l); l->posted = 2; continue; }
        if (nj == 1 && i % 2 == 1) { do_join(l); l->posted = 2; }
        else l->posted = 1;
    }
    if (ch(W, 2)) { struct lib *l = make(&s[0], 0); if (l) use(l, &s[1]); }
    for (i = 0; i < nj; i++) thr_join(&jn[i]);
    for (i = 0; i < nw; i++) thr_join(&wk[i]);
    for (i = 0; i < nl; i++) CHECK(L[i].freed, "internal", "%s not freed", L[i].name);
    end_process(0);
}
DEFCHECK(C03, run);
