/* C04: per-thread error condition. */
#include "common.h"

struct mod { int code; char *msg; };
static char big_[30000], *big;              /* a message of 1499 bytes, now and then much longer */
static int used_threads;

static const char *lit(uint64_t *r)
{
    static const char *const t[] = { "", "x", "cannot open file", "50% done %s", "\xc3\xa9\xe2\x82\xac", "a\nb\tc" };
    uint32_t k = rndn(r, 8);
    return k < 6 ? t[k] : big + (k == 6 ? strlen(big) * 4 / 5 : 0);
}
static void setm(struct mod *m, int code, const char *a, const char *b)
{
    char *n = malloc(strlen(a) + strlen(b) + 1);
    strcpy(n, a); strcat(n, b);
    free(m->msg);
    m->msg = n; m->code = code;
}
static void query(struct mod *m, const char *who, uint64_t *r)
{
    int k;
    for (k = 0; k < 3; k++) {
        if (rndn(r, 3) == 0) continue;
        switch (k) {
        case 0: CHECK(cork_error_occurred() == (m->code != 0), "C04:occurred", "%s: occurred is %d, expected error %d", who, cork_error_occurred(), m->code); break;
        case 1: CHECK((int) cork_error_code() == m->code, "C04:code", "%s: error code %u, expected %d", who, cork_error_code(), m->code); break;
        default:
            { const char *g = cork_error_message(); if (!g) g = "";
              CHECK(strcmp(g, m->msg) == 0, "C04:message", "%s: message '%.80s', expected '%.80s'", who, g, m->msg); }
        }
    }
}
/* Not the unassigned numbers: for these glibc's strerror formats into a buffer of the (here: only) operating system thread. */
static int an_errno(uint64_t *r)
{
    static const int errs[] = { ENOENT, EINTR, EACCES, ENOSPC, 1, 133 };
    int e = rndn(r, 2) ? errs[rndn(r, 6)] : 1 + (int) rndn(r, 133);
    return e == 41 || e == 58 ? EIO : e;
}
static void vset(int code, const char *f, ...) { va_list a; va_start(a, f); cork_error_set_vprintf(code, f, a); va_end(a); }
static void vpre(const char *f, ...) { va_list a; va_start(a, f); cork_error_prefix_vprintf(f, a); va_end(a); }

static void ops(struct mod *m, const char *who, uint64_t *r, int n)
{
    while (n-- > 0) {
        const char *s = lit(r), *p = lit(r); int c = rndn(r, 3) ? 1 + rndn(r, 100000) : (int) ((uint32_t) rnd(r) | 1), e; char *b = malloc(70000); size_t bsz = 70000;
        switch (rndn(r, 15)) {
        case 0: cork_error_set_printf(c, "%s/%d", s, c); snprintf(b, bsz, "%s/%d", s, c); setm(m, c, b, ""); break;
        case 1: cork_error_set_string(c, s); setm(m, c, s, ""); break;
        case 2: vset(c, "%s-%s", s, who); snprintf(b, bsz, "%s-%s", s, who); setm(m, c, b, ""); break;
        case 3: e = an_errno(r); errno = e; cork_system_error_set(); setm(m, e, strerror(e), ""); break;
        case 4: e = an_errno(r); cork_system_error_set_explicit(e); setm(m, e, strerror(e), ""); break;
        case 5: cork_unknown_error_set_(who); setm(m, CORK_UNKNOWN_ERROR, "Unknown error in ", who); break;
        case 6: if (m->code || rndn(r, 4) == 0) { cork_error_prefix_printf("%s(%d): ", p, c); snprintf(b, bsz, "%s(%d): ", p, c);
                { char *o = m->msg; m->msg = 0; if (strlen(o) < 12000) setm(m, m->code, b, o); else { setm(m, m->code, b, o); } free(o); } } break;
        case 7: if (m->code || rndn(r, 4) == 0) { char *o = m->msg; cork_error_prefix_string(p); m->msg = 0; setm(m, m->code, p, o); free(o); } break;
        case 8: if (m->code || rndn(r, 4) == 0) { char *o = m->msg; vpre("%s", p); m->msg = 0; setm(m, m->code, p, o); free(o); } break;
        case 13:                            /* the message itself is part of the prefix */
            if (m->code && strlen(m->msg) < 30000) {
                int how = rndn(r, 3);
                snprintf(b, bsz, how ? "%s [%s]: " : "%s%s", m->msg, how ? who : "");
                if (how == 0) cork_error_prefix_string(cork_error_message()); else if (how == 1) cork_error_prefix_printf("%s [%s]: ", cork_error_message(), who); else vpre("%s [%s]: ", cork_error_message(), who);
                { char *o = m->msg; m->msg = 0; setm(m, m->code, b, o); free(o); }
            }
            break;
        case 14:                            /* the message itself is part of a new one */
            if (m->code && strlen(m->msg) < 30000) {
                int how = rndn(r, 4);
                if (how == 1) snprintf(b, bsz, "%s: %s", who, m->msg); else if (how == 2) snprintf(b, bsz, "%s (%s)", m->msg, who); else snprintf(b, bsz, "%s", m->msg + (how ? strlen(m->msg) / 3 : 0));
                if (how == 0) cork_error_set_string(c, cork_error_message()); else if (how == 1) cork_error_set_printf(c, "%s: %s", who, cork_error_message());
                else if (how == 2) vset(c, "%s (%s)", cork_error_message(), who); else cork_error_set_string(c, cork_error_message() + strlen(m->msg) / 3);
                setm(m, c, b, "");
                sim_probe("message made from the message before");
            }
            break;
        case 9: case 10: cork_error_clear(); setm(m, 0, "", ""); break;
        case 11: cork_error_set(1000, 7, "old %s", s); snprintf(b, bsz, "old %s", s); setm(m, 1007, b, ""); break;
        default: if (rndn(r, 2)) sim_yield();
        }
        free(b);
        query(m, who, r);
        sim_state(m->code ? 1 : 0);
    }
    query(m, who, r); 
    CHECK((int) cork_error_code() == m->code, "C04:code", "%s: error code %u, expected %d", who, cork_error_code(), m->code);
}
static void body(struct thr *t)
{
    struct mod m = { 0, 0 }; char nm[16];
    used_threads++;
    snprintf(nm, sizeof nm, "thread%d", t->id);
    setm(&m, 0, "", "");
    ops(&m, nm, &t->rng, 2 + rndn(&t->rng, 10));
    cork_error_clear();      /* a library thread returns 0 */
    free(m.msg);
}
static struct mod mm; static uint64_t mrng; static int ncl, cl_ran;
static void cl_early(void) { cl_ran++; sim_probe("cleanup function uses the error condition"); ops(&mm, "early cleanup", &mrng, 3); }
static void cl_same(void) { cl_ran++; ops(&mm, "same-priority cleanup", &mrng, 3); }
static void cl_late(void) { cl_ran++; sim_probe("late cleanup function uses the error condition"); ops(&mm, "late cleanup", &mrng, 3); }
static int own_tls_empty;
static void run(void)
{
    struct thr th[5]; int n = 2 + ch(W, 4), i, order = ch(W, 3), self = ch(W, 2), cl = ch(W, 8), waves = 1; uint64_t s[5];
    memset(big_, 'e', sizeof big_ - 1); big = big_ + sizeof big_ - 1500;
    if (ch(W, 20) == 19) { big = big_ + ch(W, 28000); sim_probe("very long messages"); }
    if (ch(W, 50) == 49) { waves = 2 + ch(W, 40); sim_probe("many threads over time"); }
    setm(&mm, 0, "", ""); mrng = rnd_seed();
    for (i = 0; i < n; i++) s[i] = rnd_seed();
    if (order == 1) query(&mm, "main", &mrng);
    /* registered before or after the library's own clean-up */
    if (order == 2 && (cl & 2)) { cork_cleanup_at_exit(0, cl_same); ncl++; }
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, s[i], body, 0);
    if (self) ops(&mm, "main", &mrng, 1 + rndn(&mrng, 6));
    for (i = 0; i < n; i++) thr_join(&th[i]);
    while (--waves > 0) {
        for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, rnd_seed(), body, 0);
        for (i = 0; i < n; i++) thr_join(&th[i]);
    }
    query(&mm, "main", &mrng);
    if (cl & 1) { cork_cleanup_at_exit(-5, cl_early); ncl++; }
    if ((cl & 2) && order != 2 && self) { cork_cleanup_at_exit(0, cl_same); ncl++; }
    if ((cl & 4) && order != 0) { cork_cleanup_at_exit(20, cl_late); ncl++; }
    (void) own_tls_empty;
    end_process(0);
    CHECK(cl_ran == ncl, "C04:cleanup-lost", "%d of %d cleanup functions ran", cl_ran, ncl);
    free(mm.msg);
}
DEFCHECK(C04, run);
