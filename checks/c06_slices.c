/* C06: managed buffers and slices shared between threads. */
#include "common.h"

#define NM 4
#define NS 24
#define BIG 70000
struct mb { int kind; struct cork_managed_buffer *m; char *raw; size_t size; uint32_t salt; int users, freed; struct cork_buffer *cb; };
static struct mb M[NM]; static int nm;
struct slot { int used; int isref; int m; size_t off, len; struct cork_slice s; int owner; };
static struct slot box[6];                 /* handed over between threads */
static struct slot pub[NM];                /* kept by main, copied from by everybody at the same time */
static char statics[64];

static void freer(void *buf, size_t size)
{
    int i;
    for (i = 0; i < nm; i++)
        if (M[i].kind == 0 && M[i].raw == buf) {
            CHECK(!M[i].freed, "C06:freed-twice", "the storage of buffer %d was released twice", i);
            CHECK(size == M[i].size, "C06:free-size", "buffer %d released with size %zu instead of %zu", i, size, M[i].size);
            CHECK(M[i].users == 0, "C06:freed-early", "the storage of buffer %d was released while %d references or slices of it exist", i, M[i].users);
            M[i].freed = 1;
            sim_log("storage of buffer %d released", i);
            memset(buf, 0xEE, size);
            sim_free(buf);
            return;
        }
    sim_fail("C06:free-pointer", "release function called with an unknown pointer");
}
static void verify(struct slot *s)
{
    static char whole[BIG];
    struct mb *b;
    if (s->isref) {
        b = &M[s->m];
        CHECK(!b->freed, "C06:freed-early", "buffer %d was released while referenced", s->m);
        sim_check_range(b->m, sizeof *b->m, 0, "referenced managed buffer");
        CHECK(b->m->size == b->size, "C06:size", "buffer %d reports size %zu", s->m, b->m->size);
        sim_check_range(b->m->buf, b->size, 0, "contents of a referenced buffer");
        sim_pattern(b->size, b->salt, whole);
        CHECK(memcmp(b->m->buf, whole, b->size) == 0, "C06:contents", "contents of buffer %d changed", s->m);
        return;
    }
    CHECK(s->s.size == s->len, "C06:slice-size", "a slice of %zu bytes reports %zu", s->len, s->s.size);
    if (s->m < 0) memcpy(whole, statics, sizeof statics); else sim_pattern(M[s->m].size, M[s->m].salt, whole);
    if (s->m >= 0) sim_check_range(s->s.buf, s->len, 0, "contents of a slice");
    CHECK(memcmp(s->s.buf, whole + s->off, s->len) == 0, "C06:contents", "slice %zu+%zu of buffer %d does not read the bytes it was made from", s->off, s->len, s->m);
}
static void drop(struct slot *s)
{
    if (s->m >= 0) M[s->m].users--;
    if (s->isref) cork_managed_buffer_unref(M[s->m].m);
    else { cork_slice_finish(&s->s); CHECK(s->s.buf == 0 && s->s.size == 0 && cork_slice_is_empty(&s->s), "C06:finish", "a finished slice is not empty"); }
    s->used = 0;
}
static struct slot *empty(struct slot *l) { int i; for (i = 0; i < NS; i++) if (!l[i].used) return &l[i]; return 0; }
static struct slot *any(struct slot *l, uint64_t *r)
{
    int i, k = 0, c = 0;
    for (i = 0; i < NS; i++) c += l[i].used;
    if (!c) return 0;
    k = rndn(r, c);
    for (i = 0; i < NS; i++) if (l[i].used && k-- == 0) return &l[i];
    return 0;
}
static void copy_of(struct slot *d, struct slot *s, uint64_t *r)
{
    size_t off = rndn(r, s->len + 1), len = rndn(r, 3) ? rndn(r, s->len - off + 1) : s->len - off; int rc;
    int how = rndn(r, 4);
    if (s->m >= 0) M[s->m].users++;
    d->used = 1; d->isref = 0; d->m = s->m; d->off = s->off + off; d->len = len;
    memset(&d->s, 0x5a, sizeof d->s);
    switch (how) {
    case 0: rc = cork_slice_copy(&d->s, &s->s, off, len); break;
    case 1: rc = cork_slice_copy_fast(&d->s, &s->s, off, len); break;
    case 2: d->len = s->len - off; rc = cork_slice_copy_offset(&d->s, &s->s, off); break;
    default: d->len = s->len - off; rc = cork_slice_copy_offset_fast(&d->s, &s->s, off);
    }
    CHECK(rc == 0, "C06:copy-failed", "copying %zu+%zu of a %zu-byte slice failed", off, len, s->len);
}
static void body(struct thr *t)
{
    struct slot l[NS]; uint64_t *r = &t->rng; int n = 4 + rndn(r, 14), i;
    memset(l, 0, sizeof l);
    memcpy(l, t->ctx, sizeof(struct slot) * NM);
    while (n-- > 0) {
        struct slot *s = any(l, r), *d = empty(l);
        switch (rndn(r, 11)) {
        case 0: case 1:                                   /* another reference, or a slice of it */
            if (!s || !d || !s->isref) break;
            M[s->m].users++;
            if (rndn(r, 3) == 0) {
                struct cork_managed_buffer *m = cork_managed_buffer_ref(M[s->m].m);
                CHECK(m == M[s->m].m, "C06:ref", "referencing returned a different object");
                if (rndn(r, 60) == 59) {                  /* more references than fit into a byte */
                    int k, many = rndn(r, 30) ? 240 + rndn(r, 80) : 65520 + rndn(r, 40);
                    for (k = 0; k < many; k++) cork_managed_buffer_ref(m);
                    sim_yield(); verify(s);
                    for (k = 0; k < many; k++) cork_managed_buffer_unref(m);
                    sim_probe(many > 65000 ? "65,500 references" : "hundreds of references");
                }
                *d = *s;
            } else {
                size_t off = rndn(r, M[s->m].size + 1), len = rndn(r, M[s->m].size - off + 1); int rc;
                d->used = 1; d->isref = 0; d->m = s->m; d->off = off; d->len = len;
                if (rndn(r, 3) == 0) { d->len = M[s->m].size - off; rc = cork_managed_buffer_slice_offset(&d->s, M[s->m].m, off); }
                else rc = cork_managed_buffer_slice(&d->s, M[s->m].m, off, len);
                CHECK(rc == 0, "C06:slice-failed", "a valid slice was refused");
            }
            break;
        case 2: case 3: if (s && d && !s->isref) copy_of(d, s, r); break;
        case 4: { struct slot *p = &pub[rndn(r, NM)]; if (d && p->used) { copy_of(d, p, r); sim_probe("copied a slice shared by all threads"); } break; }
        case 5: if (s && !s->isref) {                     /* narrow */
                size_t off = rndn(r, s->len + 1), len = rndn(r, s->len - off + 1); int rc = 0; const void *b = s->s.buf;
                switch (rndn(r, 6)) {
                case 0: rc = cork_slice_slice(&s->s, off, len); break;
                case 3: rc = cork_slice_slice_offset_fast(&s->s, off); len = s->len - off; break;
                case 4: cork_slice_advance(&s->s, off); len = s->len - off; break;
                case 1: rc = cork_slice_slice_offset(&s->s, off); len = s->len - off; break;
                case 2: CHECK(cork_slice_advance_checked(&s->s, off) == b, "C06:advance", "advance returned a wrong pointer"); len = s->len - off; break;
                default: rc = cork_slice_slice_fast(&s->s, off, len);
                }
                CHECK(rc == 0, "C06:slice-failed", "narrowing a slice within its bounds failed");
                s->off += off; s->len = len;
            } break;
        case 6: if (s && !s->isref) {                     /* light copy, finished before its source */
                struct cork_slice lc, lc2; size_t off = rndn(r, s->len + 1), len = rndn(r, s->len - off + 1), off2; int rc, again = rndn(r, 4) == 0;
                if (s->m >= 0) M[s->m].users++;
                memset(&lc, 0x5a, sizeof lc);
                switch (rndn(r, 4)) {
                case 0: rc = cork_slice_light_copy(&lc, &s->s, off, len); break;
                case 1: rc = cork_slice_light_copy_fast(&lc, &s->s, off, len); break;
                case 2: len = s->len - off; rc = cork_slice_light_copy_offset(&lc, &s->s, off); break;
                default: len = s->len - off; rc = cork_slice_light_copy_offset_fast(&lc, &s->s, off);
                }
                CHECK(rc == 0 && lc.size == len, "C06:copy-failed", "light copy failed");
                if (again) {                              /* a light copy of the light copy */
                    off2 = rndn(r, len + 1);
                    CHECK(cork_slice_light_copy_offset(&lc2, &lc, off2) == 0 && lc2.size == len - off2, "C06:copy-failed", "light copy of a light copy failed");
                    CHECK(memcmp(lc2.buf, (const char *) s->s.buf + off + off2, lc2.size) == 0, "C06:contents", "a light copy of a light copy reads other bytes");
                    if (rndn(r, 2)) sim_yield();
                    cork_slice_finish(&lc2);
                }
                if (rndn(r, 3) == 0) {                    /* narrowed */
                    off2 = rndn(r, len + 1);
                    CHECK((rndn(r, 2) ? cork_slice_slice_offset(&lc, off2) : cork_slice_slice_offset_fast(&lc, off2)) == 0 && lc.size == len - off2, "C06:slice-failed", "narrowing a light copy failed");
                    off += off2;
                }
                if (s->m >= 0) sim_check_range(lc.buf, lc.size, 0, "contents of a light copy");
                CHECK(memcmp(lc.buf, (const char *) s->s.buf + off, lc.size) == 0, "C06:contents", "a light copy reads other bytes");
                if (rndn(r, 2)) sim_yield();
                if (d && rndn(r, 2)) {                    /* a full copy of a light copy stands on its own */
                    struct slot t_ = *s;
                    t_.s = lc; t_.off = s->off + off; t_.len = lc.size;
                    copy_of(d, &t_, r);
                }
                if (s->m >= 0) M[s->m].users--;
                cork_slice_finish(&lc);
            } break;
        case 7: if (s) {                                  /* refused requests change nothing */
                struct cork_slice bad; int rc, own = 0; size_t n = s->isref ? M[s->m].size : s->len, off, len;
                static const size_t far[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX - 20 };
                switch (rndn(r, 4)) {
                case 0: off = n + 1 + rndn(r, 9); len = rndn(r, 2) ? 0 : -off; break;
                case 1: off = rndn(r, n + 1); len = n - off + 1 + rndn(r, 9); break;
                case 2: off = 1 + rndn(r, n + 1); len = rndn(r, 2) ? -(size_t) rndn(r, off) - 1 : -off; break;    /* the sum wraps around */
                default: off = far[rndn(r, 4)]; len = rndn(r, 2) ? far[rndn(r, 4)] : rndn(r, 30);
                }
                if (off <= n && len <= n - off) break;
                memset(&bad, 0x77, sizeof bad);
                if (s->isref) rc = len == n - off ? cork_managed_buffer_slice_offset(&bad, M[s->m].m, off) : cork_managed_buffer_slice(&bad, M[s->m].m, off, len);
                else switch (rndn(r, 5)) {
                case 0: rc = cork_slice_copy(&bad, &s->s, off, len); break;
                case 1: rc = cork_slice_light_copy(&bad, &s->s, off, len); break;
                case 2: rc = off > n ? cork_slice_copy_offset(&bad, &s->s, off) : cork_slice_copy(&bad, &s->s, off, len); break;
                case 3: rc = off > n ? cork_slice_light_copy_offset(&bad, &s->s, off) : cork_slice_light_copy(&bad, &s->s, off, len); break;
                default: own = 1; rc = off <= n || rndn(r, 2) ? cork_slice_slice(&s->s, off, len) : cork_slice_slice_offset(&s->s, off);
                }
                if (own) { CHECK(rc != 0 && cork_error_occurred(), "C06:bad-slice", "narrowing a slice of %zu bytes to %zu+%zu was granted", n, off, len); cork_error_clear(); verify(s); break; }
                CHECK(rc != 0 && cork_error_occurred(), "C06:bad-slice", "an out-of-range slice was granted");
                CHECK(bad.buf == 0 && bad.size == 0, "C06:bad-slice", "a refused slice is not empty");
                cork_slice_finish(&bad); cork_error_clear();
            } break;
        case 8: { int b = rndn(r, 6);                     /* hand over, or take over */
            if (!box[b].used && s) { box[b] = *s; s->used = 0; }
            else if (box[b].used && d) { *d = box[b]; box[b].used = 0; if (d->owner != t->id) sim_probe("slice handed to another thread"); }
            break; }
        default: if (s) { verify(s); drop(s); }
        }
        if ((s = any(l, r))) verify(s);
        if (rndn(r, 4) == 0) sim_yield();
        sim_state(n & 3);
    }
    for (i = 0; i < NS; i++) if (l[i].used) { verify(&l[i]); drop(&l[i]); }
}
static void run(void)
{
    struct thr th[4]; static struct slot init[4][NM]; int n = 2 + ch(W, 3), i, k, keep = ch(W, 2); uint64_t s[4], r = rnd_seed();
    static char tmp[BIG]; int big = ch(W, 24) == 0;
    sim_pattern(sizeof statics, 99, statics);
    for (i = 0; i < n; i++) s[i] = rnd_seed();
    nm = 1 + rndn(&r, NM);
    for (i = 0; i < nm; i++) {
        struct mb *b = &M[i];
        b->kind = rndn(&r, 4); b->salt = i * 7 + 1; b->size = rndn(&r, 4) ? 1 + rndn(&r, 60) : rndn(&r, 500); b->users = 1;
        if (big && rndn(&r, 2)) b->size = rndn(&r, 3) ? 65534 + rndn(&r, 4) : BIG;
        if (b->kind >= 2 && b->size == 0) b->size = 1;
        sim_pattern(b->size, b->salt, tmp);
        if (b->kind == 0) { b->raw = sim_malloc(b->size ? b->size : 1); memcpy(b->raw, tmp, b->size); b->m = cork_managed_buffer_new(b->raw, b->size, freer); }
        else if (b->kind == 1) b->m = cork_managed_buffer_new_copy(tmp, b->size);
        else if (b->kind == 2) { b->cb = cork_buffer_new(); cork_buffer_set(b->cb, tmp, b->size); b->m = cork_buffer_to_managed_buffer(b->cb); }
        else {                              /* there is nothing but slices */
            b->cb = cork_buffer_new(); cork_buffer_set(b->cb, tmp, b->size);
            pub[i].used = 1; pub[i].m = i; pub[i].len = b->size;
            CHECK(cork_buffer_to_slice(b->cb, &pub[i].s) == 0, "C06:slice-failed", "a buffer could not be turned into a slice");
            for (k = 0; k < n; k++) { copy_of(&init[k][i], &pub[i], &r); init[k][i].owner = k; }
            continue;
        }
        memset(tmp, 0, sizeof tmp);
        if (rndn(&r, 3) == 0) {
            b->users++;
            pub[i].used = 1; pub[i].m = i; pub[i].len = b->size;
            CHECK(cork_managed_buffer_slice(&pub[i].s, b->m, 0, b->size) == 0, "C06:slice-failed", "a valid slice was refused");
        }
        for (k = 0; k < n; k++) { b->users++; cork_managed_buffer_ref(b->m); init[k][i].used = 1; init[k][i].isref = 1; init[k][i].m = i; init[k][i].owner = k; }
    }
    for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 2), i, s[i], body, init[i]);
    /* the creator drops its own reference while the others work */
    for (i = 0; i < nm; i++) { struct slot me = { 1, 1, i }; if (M[i].kind == 3 || (keep && i == 0)) continue; verify(&me); drop(&me); }
    /* copy-once slices of storage that lives long enough */
    if (rndn(&r, 2)) {
        struct cork_slice a, c; size_t off = rndn(&r, 60);
        cork_slice_init_copy_once(&a, statics, sizeof statics);
        CHECK(cork_slice_copy(&c, &a, off, 4) == 0 && c.size == 4 && memcmp(c.buf, statics + off, 4) == 0, "C06:copy-once", "copy of a copy-once slice is wrong");
        CHECK(a.size == sizeof statics && memcmp(a.buf, statics, sizeof statics) == 0, "C06:copy-once", "a copy-once slice changed by being copied");
        CHECK(c.buf != statics + off, "C06:copy-once", "a copy still refers to the original storage");
        if (rndn(&r, 2)) { cork_slice_finish(&a); CHECK(memcmp(c.buf, statics + off, 4) == 0, "C06:copy-once", "copy changed after its source was finished"); cork_slice_finish(&c); }
        else { cork_slice_finish(&c); CHECK(memcmp(a.buf, statics, sizeof statics) == 0, "C06:copy-once", "source changed"); cork_slice_finish(&a); }
        /* static slices are never released */
        cork_slice_init_static(&a, statics, sizeof statics);
        CHECK(cork_slice_copy(&c, &a, 1, 5) == 0 && c.buf == statics + 1 && c.size == 5, "C06:static", "copy of a static slice is wrong");
        cork_slice_finish(&a); cork_slice_finish(&c);
    }
    for (i = 0; i < n; i++) thr_join(&th[i]);
    for (i = 0; i < 6; i++) if (box[i].used) { verify(&box[i]); drop(&box[i]); }
    for (i = 0; i < nm; i++) { if (pub[i].used) { verify(&pub[i]); drop(&pub[i]); } if (keep && i == 0 && M[0].kind != 3) { struct slot me = { 1, 1, 0 }; verify(&me); drop(&me); } }
    for (i = 0; i < nm; i++) {
        CHECK(M[i].users == 0, "internal", "model count %d", M[i].users);
        if (M[i].kind == 0) CHECK(M[i].freed, "C06:not-freed", "the storage of buffer %d was not released after its last user", i);
    }
    end_process(0);
}
DEFCHECK(C06, run);
