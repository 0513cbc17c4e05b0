/* C23: current-time timestamps. */
#include "common.h"

/* history of the clock: it runs with simulated time and sometimes jumps */
static struct { unsigned __int128 before, after; } jump[400]; static int njump;
static unsigned __int128 now_ns(void) { int64_t s, n; sim_wall_get_ns(&s, &n); return (unsigned __int128) (uint64_t) s * 1000000000u + n; }
static int jumping, backwards, stalls;
static unsigned __int128 lim;
static void set_wall(unsigned __int128 t)
{
    /* wall = sim_wall_sec + (sim_now + off) */
    int64_t s = (int64_t) (uint64_t) (t / 1000000000u), n = (int64_t) (uint64_t) (t % 1000000000u);
    sim_wall_sec = s; sim_wall_off_ns = n - (int64_t) sim_now;
}
static void do_jump(void)
{
    unsigned __int128 b = now_ns(), a; uint64_t d;
    if (njump == 400) return;
    switch (ch(F, 5)) {
    case 0: d = 1 + ch(F, 3000); break;                       /* nanoseconds */
    case 1: d = 1000ull * (1 + ch(F, 1000)); break;
    case 2: d = 1000000ull * (1 + ch(F, 2000)); break;
    case 3: d = 1000000000ull * (1 + ch(F, 100000)); break;
    default: d = 1000000000u - (uint64_t) (b % 1000000000u) - (ch(F, 2) ? 0 : 1 + ch(F, 400)); break;  /* to a second boundary */
    }
    if (backwards && ch(F, 2)) a = b > d ? b - d : 0; else a = b + d;
    if (a >= lim) return;
    jump[njump].before = b; jump[njump].after = a; njump++;
    set_wall(a);
    sim_fault_note(FT_CLOCK_JUMP);
}
static void on_call(const char *name)
{
    (void) name;
    if (jumping && ch(F, 3) == 0) do_jump();
    if (stalls && ch(F, 12) == 0) { sim_fault_note(FT_STALL); sim_sleep(ch(F, 2) ? 1000 * (1 + ch(F, 1000)) : 1000000ull * (1 + ch(F, 3000))); }
}
/* timestamp of an instant, in the library's 32.32 format, exactly rounded down */
static unsigned __int128 fix(unsigned __int128 ns) { return (ns << 32) / 1000000000u; }
static int inside(cork_timestamp ts, unsigned __int128 a, unsigned __int128 b)
{
    /* clock resolution one microsecond; either end rounded by the conversion */
    unsigned __int128 lo = fix(a / 1000 * 1000), hi = fix(b) + 1;
    if (lo) lo--;
    return ts >= lo && ts <= hi;
}
static int ncalls; static uint64_t hi_ts; static uint64_t hi_seq;

static void one(uint64_t *r, uint64_t *last, int id)
{
    cork_timestamp ts = 0x5555555555555555ull; unsigned __int128 a, b; int j0, j, ok; uint64_t floor_ts = hi_ts, seen;
    (void) r;
    j0 = njump; a = now_ns();
    cork_timestamp_init_now(&ts);
    b = now_ns();
    ncalls++;
    for (ok = 0, j = j0; j < njump && !ok; j++) {
        ok = inside(ts, a, jump[j].before);
        a = jump[j].after;
    }
    if (!ok) ok = inside(ts, a, b);
    CHECK(ok, "C23:not-the-time", "thread %d: timestamp %llx is not the time during the call; clock went from %llu.%09u to %llu.%09u with %d jumps", id,
          (unsigned long long) ts, (unsigned long long) (a / 1000000000u), (unsigned) (a % 1000000000u), (unsigned long long) (b / 1000000000u), (unsigned) (b % 1000000000u), njump - j0);
    seen = cork_timestamp_sec(ts);
    CHECK(seen == (ts >> 32), "C23:seconds", "seconds of %llx", (unsigned long long) ts);
    if (!backwards) {
        CHECK(ts >= *last, "C23:decreasing", "timestamps decreased from %llx to %llx", (unsigned long long) *last, (unsigned long long) ts);
        CHECK(ts >= floor_ts, "C23:decreasing", "a call that began after another had returned %llx returned %llx", (unsigned long long) floor_ts, (unsigned long long) ts);
        if (ts > hi_ts) hi_ts = ts;
    }
    *last = ts;
    sim_state((uint64_t) (b - a) / 200);
    if ((b / 1000000000u) != (a / 1000000000u)) sim_probe("second boundary during the call");
}
static void body(struct thr *t)
{
    int n = 1 + rndn(&t->rng, 8); uint64_t last = 0;
    while (n-- > 0) {
        one(&t->rng, &last, t->id);
        switch (rndn(&t->rng, 5)) {
        case 0: sim_sleep(1 + rndn(&t->rng, 3000)); break;
        case 1: sim_sleep(1000000ull * rndn(&t->rng, 1500)); break;
        case 2: if (jumping) do_jump(); break;
        default: break;
        }
    }
}
static void run(void)
{
    static const uint32_t secs[] = { 1700000000u, 0, 1, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffffffu, 951782399u, 1000000000u };
    struct thr th[4]; int n = 1 + ch(W, 3), i; unsigned __int128 t; uint64_t s[4];
    lim = (unsigned __int128) 0x100000000ull * 1000000000u - 30000000000ull;
    jumping = ch(W, 2); backwards = jumping && ch(W, 2); stalls = ch(W, 2);
    t = (unsigned __int128) (ch(W, 3) ? secs[ch(W, 9)] : ch(W, 0x7fffffff)) * 1000000000u;
    switch (ch(W, 4)) {
    case 0: t += ch(W, 1000000000); break;
    case 1: t += 999990000 + ch(W, 10000); break;         /* just before a second boundary */
    case 2: t += 999999000 + ch(W, 1000); break;
    default: t += ch(W, 5000); break;
    }
    if (t >= lim) { lim = (unsigned __int128) 0x100000000ull * 1000000000u; jumping = backwards = 0; stalls = 0; n = 1; if (t > lim - 100000) t = lim - 100000 + t % 1000; }
    if (lim - t < 40000000000ull) { jumping = backwards = stalls = 0; }
    set_wall(t);
    sim_syscall_cb = on_call;
    for (i = 0; i < n; i++) s[i] = rnd_seed();
    if (lim - t < 40000000000ull) { uint64_t last = 0; for (i = 0; i < 3; i++) one(0, &last, 0); }
    else {
        for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 2), i, s[i], body, 0);
        for (i = 0; i < n; i++) thr_join(&th[i]);
    }
    sim_syscall_cb_off();
    end_process(0);
}
DEFCHECK(C23, run);
