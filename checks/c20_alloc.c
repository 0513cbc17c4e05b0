/* C20: allocators conserve memory, and report or abort on allocation failure. */
#include "common.h"
#include "u.h"

void sim_abort(void);
extern void (*u_indep_cb)(int kind);
#define NA 5
#define NBLK 40
#define NREC 4096
/* A user's allocator: remembers what it handed out.  Everything that does not come from an allocation of its own is
 * inherited from libcork's defaults. */
struct al { struct cork_alloc *a; int kind; int uds, freed_uds, live; };     /* kind 0 recorder, 1 debug */
static struct al A[NA], X[120]; static int na, nx;                            /* X: never used, only made and released */
static struct { void *p; size_t n; int al; } rec[NREC];
static struct blk { void *p; size_t n; uint32_t salt; int al, str; } B[NBLK];
static uint64_t R; static uint32_t f0; static int no_return, in_exit;

static int who(const struct cork_alloc *a) { int i; for (i = 0; i < na; i++) if (A[i].a == a) return i; sim_fail("C20:wild-allocator", "an allocator callback got an unknown allocator"); }
static void rec_add(void *p, size_t n, int al)
{
    uint32_t i = (uint64_t) p / 8 % NREC, k = 0;
    while (rec[i].p) { i = (i + 1) % NREC; if (++k == NREC) sim_discard("too many blocks"); }
    rec[i].p = p; rec[i].n = n; rec[i].al = al;
    A[al].live++;
}
static int rec_find(void *p, int al) { uint32_t i, k; for (i = (uint64_t) p / 8 % NREC, k = 0; k < NREC && rec[i].p; k++, i = (i + 1) % NREC) if (rec[i].p == p && rec[i].al == al) return i; return -1; }
static void rec_del(void *p, size_t n, int al, const char *op)
{
    int i = rec_find(p, al);
    CHECK(i >= 0, "C20:foreign-free", "%s of an address that allocator %d never handed out", op, al);
    CHECK(rec[i].n == n, "C20:wrong-size", "%s with size %zu of a block of allocator %d requested with size %zu", op, n, al, rec[i].n);
    rec[i].p = (void *) -1; A[al].live--;
}
/* -1 marks deleted slots; they are reused when the table is compacted */
static void rec_compact(void) { static struct { void *p; size_t n; int al; } t[NREC]; int i; memcpy(t, rec, sizeof t); memset(rec, 0, sizeof rec); for (i = 0; i < NREC; i++) if (t[i].p && t[i].p != (void *) -1) { A[t[i].al].live--; rec_add(t[i].p, t[i].n, t[i].al); } }

static void *r_xmalloc(const struct cork_alloc *a, size_t n) { void *p = cork_alloc_xmalloc(a->parent, n); if (p) rec_add(p, n, who(a)); return p; }
static void *r_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { void *p = cork_alloc_xcalloc(a->parent, c, n); if (p) rec_add(p, c * n, who(a)); return p; }
static void *r_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n)
{
    void *q; int al = who(a);
    if (p) { int i = rec_find(p, al); CHECK(i >= 0, "C20:foreign-free", "reallocation of an address that allocator %d never handed out", al); CHECK(rec[i].n == o, "C20:wrong-size", "reallocation from size %zu of a block requested with size %zu", o, rec[i].n); }
    q = cork_alloc_xrealloc(a->parent, p, o, n);
    if (q) { if (p) rec_del(p, o, al, "reallocation"); rec_add(q, n, al); }
    return q;
}
static void *r_malloc(const struct cork_alloc *a, size_t n) { void *p = cork_alloc_xmalloc(a, n); if (!p) sim_abort(); return p; }
static void *r_calloc(const struct cork_alloc *a, size_t c, size_t n) { void *p = cork_alloc_xcalloc(a, c, n); if (!p) sim_abort(); return p; }
static void *r_realloc(const struct cork_alloc *a, void *o, size_t os, size_t n) { void *p = cork_alloc_xrealloc(a, o, os, n); if (!p) sim_abort(); return p; }
static void r_free(const struct cork_alloc *a, void *p, size_t n) { if (p) { rec_del(p, n, who(a), "release"); memset(p, 0x77, n); } cork_alloc_free(a->parent, p, n); }
static void free_ud(void *ud)
{
    struct al *x = ud;
    x->freed_uds++;
    CHECK(x->freed_uds <= x->uds, "C20:user-data", "user data of an allocator was released more often than it was set");
}
static void set_ud(struct al *x) { x->uds++; cork_alloc_set_user_data(x->a, x, free_ud); CHECK(x->freed_uds == x->uds - 1, "C20:user-data", "replacing user data released it %d times", x->freed_uds - x->uds + 2); CHECK(x->a->user_data == x, "C20:user-data", "user data is not what was set"); }

static uint32_t injected(void) { return sim_fault_count(FT_MALLOC) - f0; }
static int legit;
static void on_abort(void)
{
    CHECK(injected() || no_return, "C20:spurious-abort", "the process was terminated although no allocation failed");
    legit = 1;
    sim_probe(no_return ? "wrong size detected" : "aborted after a failed allocation");
}
static const struct cork_alloc *al_of(int i) { return i < 0 ? cork_allocator : A[i].a; }
static void fill(struct blk *b) { sim_check_range(b->p, b->n, 1, "new block"); sim_pattern(b->n, b->salt, b->p); }
static void verify(struct blk *b, size_t n, const char *what)
{
    static char exp[74000];
    if (n > sizeof exp) n = sizeof exp;
    sim_check_range(b->p, n, 0, what);
    sim_pattern(n, b->salt, exp);
    CHECK(memcmp(b->p, exp, n) == 0, "C20:contents", "%s: the contents of a block of %zu bytes changed", what, b->n);
}
static size_t a_size(void)
{
    switch (rndn(&R, 8)) { case 0: return 0; case 1: return 1 + rndn(&R, 16); case 2: return rndn(&R, 12) ? 4000 + rndn(&R, 4500) : 65530 + rndn(&R, 8000); case 3: return 8 * (1 + rndn(&R, 20)); default: return 1 + rndn(&R, 300); }
}
static size_t huge(void)
{
    static const size_t h[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 6, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 9, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t) 1 << 62 };
    return h[rndn(&R, 9)];
}
static struct blk *slot(void) { int i; for (i = 0; i < NBLK; i++) if (!B[i].p) return &B[i]; return 0; }
static struct blk *some(int str) { int i, k = rndn(&R, NBLK), j; for (i = 0; i < NBLK; i++) { j = (i + k) % NBLK; if (B[j].p && B[j].str == str) return &B[j]; } return 0; }
static void got(struct blk *b, void *p, size_t n, int al, int zero, int x, const char *op)
{
    size_t i;
    legit = 0;
    if (!p) {
        CHECK(x, "C20:null", "%s returned null", op);
        CHECK(injected(), "C20:spurious-null", "%s of %zu bytes returned null although no allocation failed", op, n);
        sim_probe("null after a failed allocation");
        return;
    }
    sim_check_range(p, n, 1, op);
    if (zero) for (i = 0; i < n; i++) CHECK(((char *) p)[i] == 0, "C20:not-zero", "%s: byte %zu of %zu is not zero", op, i, n);
    if (al >= 0 && A[al].kind == 0) { int k = rec_find(p, al); CHECK(k >= 0 && rec[k].n == n, "C20:wrong-allocator", "%s: the block does not come from that allocator with that size", op); }
    b->p = p; b->n = n; b->al = al; b->salt = rndn(&R, 1 << 20); b->str = 0;
    fill(b);
}
static void release(struct blk *b)
{
    const struct cork_alloc *a = al_of(b->al); void *p = b->p;
    if (b->str) {
        const char *s = p;
        CHECK(cork_strlen(s) == b->n && strlen(s) == b->n, "C20:string", "a string of %zu characters reports %zu", b->n, cork_strlen(s));
        b->p = 0;
        if (a == cork_allocator && rndn(&R, 2)) cork_strfree(s); else cork_alloc_strfree(a, s);
        return;
    }
    verify(b, b->n, "release");
    b->p = 0;
    if (a == cork_allocator && rndn(&R, 2)) cork_free(p, b->n);
    else if (b->n % 4 == 0 && rndn(&R, 2)) { if (a == cork_allocator) cork_cfree(p, b->n / 4, 4); else cork_alloc_cfree(a, p, b->n / 4, 4); }
    else if (b->n && rndn(&R, 4) == 0) cork_alloc_cfree(a, p, 1, b->n);
    else if (rndn(&R, 4) == 0) cork_alloc_cfree(a, p, b->n, 1);
    else cork_alloc_free(a, p, b->n);
}
static void op(void)
{
    int al = (int) rndn(&R, na + 1) - 1, k = rndn(&R, 16), x = rndn(&R, 2); const struct cork_alloc *a = al_of(al); struct blk *b; size_t n, c; void *p;
    int cur = a == cork_allocator && rndn(&R, 2);
    f0 = sim_fault_count(FT_MALLOC);
    if (a == cork_allocator) { int i; for (i = 0, al = -1; i < na; i++) if (A[i].a == a) al = i; }
    if (k < 4 && (b = slot())) {
        n = a_size();
        sim_log("%smalloc(%zu) al=%d", x ? "x" : "", n, al);
        p = x ? cur ? cork_xmalloc(n) : cork_alloc_xmalloc(a, n) : cur ? cork_malloc(n) : cork_alloc_malloc(a, n);
        got(b, p, n, al, 0, x, "malloc");
    } else if (k < 6 && (b = slot())) {
        c = rndn(&R, 6) ? 1 + rndn(&R, 20) : 0; n = rndn(&R, 6) ? 1 + rndn(&R, 40) : 0;
        sim_log("%scalloc(%zu, %zu) al=%d", x ? "x" : "", c, n, al);
        p = x ? cur ? cork_xcalloc(c, n) : cork_alloc_xcalloc(a, c, n) : cur ? cork_calloc(c, n) : cork_alloc_calloc(a, c, n);
        got(b, p, c * n, al, 1, x, "calloc");
    } else if (k < 8 && (b = slot())) {
        char s[300]; const char *q; size_t len;
        n = rndn(&R, sizeof s - 1); sim_pattern(n, 5, s); for (c = 0; c < n; c++) s[c] = 'a' + (unsigned char) s[c] % 26; s[n] = 0;
        len = rndn(&R, 2) ? rndn(&R, n + 1) : (size_t) -1;
        sim_log("%sstrdup(%zu) al=%d", x ? "x" : "", len == (size_t) -1 ? n : len, al);
        if (len == (size_t) -1) { len = n; q = x ? cur ? cork_xstrdup(s) : cork_alloc_xstrdup(a, s) : cur ? cork_strdup(s) : cork_alloc_strdup(a, s); }
        else q = x ? cur ? cork_xstrndup(s, len) : cork_alloc_xstrndup(a, s, len) : cur ? cork_strndup(s, len) : cork_alloc_strndup(a, s, len);
        if (!q) { CHECK(x && injected(), x ? "C20:spurious-null" : "C20:null", "strdup returned null"); return; }
        CHECK(memcmp(q, s, len) == 0 && q[len] == 0, "C20:string", "strdup changed the string");
        b->p = (void *) q; b->n = len; b->al = al; b->str = 1;
    } else if (k < 12 && (b = some(0))) {
        int f = x && rndn(&R, 2); size_t old = b->n, keep; void *was = b->p;
        a = al_of(al = b->al); if (a != cork_allocator) cur = 0;
        n = a_size();
        keep = old < n ? old : n;
        verify(b, old, "before reallocation");
        sim_log("%srealloc%s(%zu -> %zu) al=%d", x ? "x" : "", f ? "f" : "", old, n, al);
        p = f ? cur ? cork_xreallocf(was, old, n) : cork_alloc_xreallocf(a, was, old, n) :
            x ? cur ? cork_xrealloc(was, old, n) : cork_alloc_xrealloc(a, was, old, n) :
                cur ? cork_realloc(was, old, n) : cork_alloc_realloc(a, was, old, n);
        if (!p) {
            CHECK(x, "C20:null", "realloc returned null");
            CHECK(injected(), "C20:spurious-null", "reallocation to %zu bytes returned null although no allocation failed", n);
            if (f) {
                if (al >= 0 && A[al].kind == 0) CHECK(rec_find(was, al) < 0, "C20:not-freed", "a failing xreallocf did not release the block");
                b->p = 0;
            } else {
                if (al >= 0 && A[al].kind == 0) CHECK(rec_find(was, al) >= 0, "C20:lost", "a failing xrealloc released the block");
                verify(b, old, "after failed reallocation");
            }
            return;
        }
        b->p = p; b->n = keep; verify(b, keep, "after reallocation"); b->n = n;
        fill(b);
    } else if (k == 12 && (b = slot())) {       /* reallocation of nothing */
        int f = x && rndn(&R, 2);
        n = a_size();
        sim_log("%srealloc%s(null -> %zu) al=%d", x ? "x" : "", f ? "f" : "", n, al);
        p = f ? cork_alloc_xreallocf(a, NULL, 0, n) : x ? cork_alloc_xrealloc(a, NULL, 0, n) : cork_alloc_realloc(a, NULL, 0, n);
        got(b, p, n, al, 0, x, "realloc");
    } else if (k == 13) {                       /* more than there can be */
        n = huge(); c = rndn(&R, 3);
        sim_log("impossible request al=%d", al);
        b = some(0);
        p = c == 0 ? cork_alloc_xmalloc(a, n) : c == 1 ? cork_alloc_xcalloc(a, n, 1 + rndn(&R, 3)) : cork_alloc_xcalloc(a, 3 + rndn(&R, 60), n);
        CHECK(!p, "C20:impossible", "an allocation of more bytes than a size_t can count returned a block");
        if (b) { a = al_of(b->al); p = cork_alloc_xrealloc(a, b->p, b->n, n); CHECK(!p, "C20:impossible", "a reallocation to %zu bytes returned a block", n); verify(b, b->n, "after failed reallocation"); }
    } else if ((b = rndn(&R, 4) ? some(0) : some(1))) { sim_log("release %zu bytes of al=%d", b->n, b->al); release(b); }
}
static void at_exit(void)
{
    struct cork_buffer b = CORK_BUFFER_INIT(); void *p = cork_malloc(33);
    f0 = sim_fault_count(FT_MALLOC);
    in_exit++;
    cork_buffer_printf(&b, "%d", 42); cork_buffer_done(&b);
    cork_free(p, 33);
}
static void step(int kind) { if (!kind) rec_compact(); sim_state(kind); }
static int w_dir(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { return 0; }
static int t_body(void *ud) { const char *s = cork_strdup("thread"); cork_error_set_printf(77, "%s %d", s, 5); cork_strfree(s); return -1; }
static void t_free(void *ud) { cork_free(ud, 21); }
struct gco { struct gco *next; };
static void g_rec(struct cork_gc *gc, void *o, cork_gc_recurser r, void *ud) { r(gc, ((struct gco *) o)->next, ud); }
static struct cork_gc_obj_iface g_if = { 0, g_rec };
static int c_data(struct cork_stream_consumer *c, const void *b, size_t n, bool f) { return 0; }
static int c_eof(struct cork_stream_consumer *c) { return 0; }
static void c_free(struct cork_stream_consumer *c) { }
/* the parts of the library that need the operating system */
static void lib_more(void)
{
    struct cork_stream_consumer sink = { c_data, c_eof, c_free }, *sc; struct cork_file *f; struct cork_path_list *l; struct cork_file_list *fl; struct cork_dir_walker w = { w_dir, w_dir, w_dir };
    int k, n = 1 + rndn(&R, 5);
    while (n--) switch (k = rndn(&R, 7), sim_log("part %d", k), k) {
    case 0: {
        struct cork_thread *t = cork_thread_new("name", cork_malloc(21), t_free, t_body);
        if (rndn(&R, 3)) { CHECK(cork_thread_start(t) == 0, "C20:start", "a thread did not start"); CHECK(cork_thread_join(t) == -1 && cork_error_code() == 77, "C20:join", "a thread's error got lost"); cork_error_clear(); } else cork_thread_free(t);
        break; }
    case 1:
        f = cork_file_new("/d/e/f");
        cork_file_mkdir(f, 0755, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE); cork_error_clear(); cork_file_free(f);
        cork_walk_directory("/d", &w);
        if (rndn(&R, 2)) { f = cork_file_new_from_path(cork_path_new("/d")); cork_file_remove(f, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE); cork_error_clear(); cork_file_free(f); }
        break;
    case 2:
        l = cork_path_list_new("/d:/:/nowhere"); f = cork_path_list_find_file(l, "e"); if (f) cork_file_free(f); cork_error_clear();
        fl = cork_path_list_find_files(l, "d"); if (fl) cork_file_list_free(fl); cork_error_clear(); cork_path_list_free(l);
        { struct cork_path *p = cork_path_cwd(), *q; if (p) cork_path_free(p); p = cork_path_new("x/y"); q = cork_path_absolute(p); if (q) cork_path_free(q); cork_path_free(p); p = cork_path_home(); if (p) cork_path_free(p); l = cork_path_data_paths(); if (l) cork_path_list_free(l); l = cork_path_config_paths(); if (l) cork_path_list_free(l); cork_error_clear(); }
        break;
    case 3:
        sc = cork_file_from_path_consumer_new("/out", 0x41 /* O_WRONLY | O_CREAT */);
        if (sc) { cork_stream_consumer_data(sc, "hello", 5, true); cork_stream_consumer_eof(sc); cork_stream_consumer_free(sc); }
        cork_consume_file_from_path(&sink, "/out", 0); cork_error_clear();
        break;
    case 4: {
        struct cork_exec *e = cork_exec_new_with_params("prog", "a", "bb", NULL); struct cork_subprocess_group *g = cork_subprocess_group_new(); int rc;
        cork_exec_set_env(e, cork_env_clone_current()); cork_env_add(cork_exec_env(e), "NAME", "value"); cork_exec_set_cwd(e, "/d"); if (rndn(&R, 2)) cork_exec_set_cwd(e, "/");
        if (rndn(&R, 2)) cork_exec_set_env(e, cork_env_new());
        cork_subprocess_group_add(g, cork_subprocess_new_exec(e, &sink, NULL, &rc));
        cork_subprocess_group_add(g, cork_subprocess_new(cork_malloc(21), t_free, t_body, NULL, &sink, &rc));
        cork_subprocess_group_free(g);
        break; }
    case 5: {
        struct gco *a = cork_gc_new_iface(struct gco, &g_if), *b = cork_gc_new_iface(struct gco, &g_if);
        a->next = cork_gc_incref(b); b->next = rndn(&R, 2) ? cork_gc_incref(a) : NULL;
        cork_gc_decref(a); cork_gc_decref(b); cork_gc_done();
        break; }
    default: {
        static char text[70000]; size_t ms = rndn(&R, 4) ? 10 + rndn(&R, 3) : 65500 + rndn(&R, 100);
        struct cork_managed_buffer *m = cork_managed_buffer_new_copy(memset(text, 'm', ms), ms); struct cork_slice s; struct cork_buffer *b = cork_buffer_new(); struct cork_mempool *mp = cork_mempool_new_ex(struct gco, 128);
        cork_managed_buffer_slice_offset(&s, m, 4); cork_managed_buffer_unref(m); cork_slice_finish(&s);
        cork_buffer_append_string(b, "some contents"); cork_buffer_to_slice(b, &s); cork_slice_finish(&s);
        m = cork_buffer_to_managed_buffer(cork_buffer_new()); cork_managed_buffer_unref(m);
        cork_mempool_free_object(mp, cork_mempool_new_object(mp)); cork_mempool_free(mp);
        { struct cork_hash_table *h = cork_pointer_hash_table_new(0, 0); int i; for (i = 1; i < 300; i++) cork_hash_table_put(h, (void *) (size_t) i, h, NULL, NULL, NULL); cork_hash_table_free(h); }
        }
    }
}
static void body(struct thr *t)
{
    u_indep(t->rng, 1 + t->rng % 5, U_ALL);
}
static void run(void)
{
    int i, steps = 1 + ch(W, 60), lib = ch(W, 3), cur; struct thr t[2];
    na = 0; memset(A, 0, sizeof A); memset(B, 0, sizeof B); memset(rec, 0, sizeof rec); in_exit = 0; legit = 0; no_return = 0; f0 = 0;
    R = rnd_seed();
    sim_faults_off++;
    sim_abort_cb = on_abort; sim_abort_ok = 1; f0 = 0;
    na = ch(W, NA + 1); cur = -1;
    for (i = 0; i < na; i++) {
        int pa = (int) ch(W, i + 1) - 1; const struct cork_alloc *parent = pa < 0 ? cork_allocator : A[pa].a;
        int own; size_t lv = sim_heap_live();
        int napub = na; na = i;             /* the new one gets its memory from a parent */
        A[i].kind = ch(W, 2);
        A[i].a = A[i].kind ? cork_debug_alloc_new(parent) : cork_alloc_new_alloc(parent);
        na = napub;
        CHECK(A[i].a->parent == parent, "C20:parent", "a new allocator has the wrong parent");
        (void) lv;
        if (A[i].kind == 0) {
            own = ch(W, 32);
            cork_alloc_set_xmalloc(A[i].a, r_xmalloc); cork_alloc_set_free(A[i].a, r_free);
            if (own & 1) cork_alloc_set_xcalloc(A[i].a, r_xcalloc);
            if (own & 2) cork_alloc_set_xrealloc(A[i].a, r_xrealloc);
            if (own & 4) cork_alloc_set_malloc(A[i].a, r_malloc);
            if (own & 8) cork_alloc_set_calloc(A[i].a, r_calloc);
            if (own & 16) cork_alloc_set_realloc(A[i].a, r_realloc);
        }
        if (ch(W, 2)) set_ud(&A[i]);
        if (ch(W, 6) == 5) set_ud(&A[i]);
    }
    if (ch(W, 30) == 29) {
        nx = 1 + ch(W, ch(W, 2) ? 20 : 120); sim_probe("many allocators");
        for (i = 0; i < nx; i++) {
            int pa = (int) ch(W, na + 1) - 1; const struct cork_alloc *parent = pa < 0 ? cork_allocator : A[pa].a;
            X[i].a = ch(W, 2) ? cork_debug_alloc_new(parent) : cork_alloc_new_alloc(parent);
            if (ch(W, 3)) set_ud(&X[i]);
        }
    }
    if (na && ch(W, 3)) { cur = ch(W, na); cork_set_allocator(A[cur].a); CHECK(cork_allocator == A[cur].a, "C20:current", "the current allocator is not the one that was set"); }
    if (ch(W, 2)) cork_cleanup_at_exit(ch(W, 30) - 10, at_exit); else in_exit = 1;
    sim_faults_off--;
    if (ch(F, 2)) { sim_fault_enable(FT_MALLOC, chr_(F, 1, 200)); if (ch(F, 2)) sim_fault_budget(1 + ch(F, 3)); }
    while (steps--) { op(); if (steps % 8 == 0) rec_compact(); }
    if (lib) {                              /* everything else in the library uses the current allocator */
        int n = ch(W, 4) == 3 ? 2 : 1;
        f0 = sim_fault_count(FT_MALLOC);
        u_indep_cb = step;
        if (ch(W, 2)) { cork_env_add(0, "HOME", "/home"); lib_more(); sim_probe("system parts over the allocators"); }
        else if (n == 1) { uint64_t s = rnd_seed(); u_indep(s, 1 + s % 5, U_ALL); }
        else {
            for (i = 0; i < n; i++) thr_start(&t[i], ch(W, 2) ? TK_TASK : TK_PTHREAD, i, rnd_seed(), body, 0);
            for (i = 0; i < n; i++) thr_join(&t[i]);
        }
        sim_probe("library over the allocators");
    }
    f0 = sim_fault_count(FT_MALLOC);
    sim_faults_off++;
    if (ch(W, 10) == 9) {                   /* the debugging allocator notices a wrong size */
        for (i = 0; i < NBLK; i++) if (B[i].p && B[i].al >= 0 && A[B[i].al].kind == 1 && !B[i].str) {
            size_t n = B[i].n, bad = ch(W, 2) || !n ? n + 1 + ch(W, 9) : n - 1; static const int sh[] = { 8, 16, 31, 32, 63 }; const struct cork_alloc *a = A[B[i].al].a;
            if (ch(W, 3) == 2) bad = n + ((size_t) (1 + 2 * ch(W, 3)) << sh[ch(W, 5)]);
            no_return = 1;
            switch (ch(W, 4)) {
            case 0: cork_alloc_free(a, B[i].p, bad); break;
            case 1: cork_alloc_cfree(a, B[i].p, 1, bad ? bad : 2); break;
            case 2: cork_alloc_realloc(a, B[i].p, bad, n / 2); break;
            default: cork_alloc_xrealloc(a, B[i].p, bad, n);
            }
            sim_fail("C20:size-not-checked", "the debugging allocator accepted the release of %zu bytes with size %zu", n, bad);
        }
    }
    for (i = 0; i < NBLK; i++) if (B[i].p) { release(&B[i]); if (i % 8 == 0) rec_compact(); }
    sim_state(na);
    end_process(0);
    for (i = 0; i < na; i++) {
        CHECK(A[i].freed_uds == A[i].uds, "C20:user-data", "user data of allocator %d was set %d times, released %d times", i, A[i].uds, A[i].freed_uds);
        CHECK(A[i].live == 0, "C20:not-returned", "%d blocks of allocator %d were not returned to it", A[i].live, i);
    }
    for (i = 0; i < nx; i++) CHECK(X[i].freed_uds == X[i].uds, "C20:user-data", "user data of allocator %d of many was set %d times, released %d times", i, X[i].uds, X[i].freed_uds);
    CHECK(in_exit == 1, "C20:exit", "the cleanup function ran %d times", in_exit);
}
DEFCHECK(C20, run);
