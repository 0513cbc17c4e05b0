/* A thread that only uses objects of its own (instrumented).  Everything it
 * observes goes into a digest, which must not depend on other threads. */
#include <inttypes.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/threads.h"
#include "u.h"

struct ctx { uint64_t rng, dig; };
static uint64_t rnd_(struct ctx *c)
{
    uint64_t z = (c->rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint32_t rn(struct ctx *c, uint32_t n) { return (uint32_t) (rnd_(c) % n); }
static void fold(struct ctx *c, uint64_t v) { c->dig = (c->dig ^ v) * 0x100000001b3ull; c->dig ^= c->dig >> 29; }
static void folds(struct ctx *c, const char *s) { if (!s) { fold(c, 0xdead); return; } while (*s) fold(c, (unsigned char) *s++); fold(c, 256); }
static void foldb(struct ctx *c, const void *p, size_t n) { const unsigned char *s = p; while (n--) fold(c, *s++); fold(c, 257); }
static void word(struct ctx *c, char *d) { int n = rn(c, 12); while (n-- > 0) *d++ = 'a' + rn(c, 6); *d = 0; }

static void s_buffer(struct ctx *c)
{
    struct cork_buffer *b = cork_buffer_new(), *o = cork_buffer_new(); int n = 3 + rn(c, 8); char w[16];
    while (n--) {
        word(c, w);
        switch (rn(c, 12)) {
        case 0: cork_buffer_set_string(b, w); break;
        case 1: cork_buffer_append_string(b, w); break;
        case 2: cork_buffer_printf(b, "%s=%d", w, (int) rn(c, 1000)); break;
        case 3: cork_buffer_append_printf(b, "[%s|%u]", w, rn(c, 99)); break;
        case 4: cork_buffer_append_c_string(b, "x\ny\"z\\\x01", 7); break;
        case 5: cork_buffer_append_hex_dump(b, rn(c, 4), w, strlen(w)); break;
        case 6: cork_buffer_append_indent(b, rn(c, 5)); break;
        case 7: cork_buffer_append_multiline(b, 0, "some\ntext", 9); break;
        case 8: cork_buffer_copy(o, b); break;
        case 9: cork_buffer_truncate(b, rn(c, 20)); break;
        case 10: cork_buffer_append_copy(b, o); break;
        default: cork_buffer_append_binary(b, 0, "\x00\x7f\xff" "abc", 6); break;
        }
        if (b->size > 3000) cork_buffer_clear(b);
        fold(c, b->size); foldb(c, b->buf, b->size);
        fold(c, cork_buffer_equal(b, o));
    }
    cork_buffer_free(b); cork_buffer_free(o);
}
static void s_hash(struct ctx *c)
{
    struct cork_hash_table *t = cork_string_hash_table_new(rn(c, 20), 0); int n = 8 + rn(c, 40), i;
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e;
    char k[60][8];
    memset(k, 0, sizeof k);
    for (i = 0; i < 60; i++) { k[i][0] = 'a' + i % 7; k[i][1] = 'a' + (i / 7) % 7; k[i][2] = 'A' + i % 3; }
    while (n--) {
        i = rn(c, 60);
        switch (rn(c, 5)) {
        case 0: case 1: { bool isnew; void *ok, *ov; cork_hash_table_put(t, k[i], (void *) (uintptr_t) (1 + rn(c, 1000)), &isnew, &ok, &ov); fold(c, isnew); fold(c, (uintptr_t) ov); break; }
        case 2: fold(c, (uintptr_t) cork_hash_table_get(t, k[i])); break;
        case 3: { void *v = 0; fold(c, cork_hash_table_delete(t, k[i], 0, &v)); fold(c, (uintptr_t) v); break; }
        default: { bool isnew; e = cork_hash_table_get_or_create(t, k[i], &isnew); fold(c, isnew); if (isnew) e->value = (void *) (uintptr_t) 7; fold(c, (uintptr_t) e->value); }
        }
        fold(c, cork_hash_table_size(t));
    }
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it))) { folds(c, e->key); fold(c, (uintptr_t) e->value); }
    if (rn(c, 2)) { cork_hash_table_clear(t); fold(c, cork_hash_table_size(t)); }
    cork_hash_table_free(t);
}
static void s_array(struct ctx *c)
{
    cork_array(uint32_t) a; struct cork_string_array sa; int n = 2 + rn(c, 24); char w[16]; size_t i;
    cork_array_init(&a); cork_string_array_init(&sa);
    while (n--) {
        if (rn(c, 3) == 0 && cork_array_size(&a)) { cork_array_remove(&a, rn(c, cork_array_size(&a))); }
        else cork_array_append(&a, rn(c, 9999));
        word(c, w); cork_string_array_append(&sa, w);
    }
    for (i = 0; i < cork_array_size(&a); i++) fold(c, cork_array_at(&a, i));
    for (i = 0; i < cork_array_size(&sa); i++) folds(c, cork_array_at(&sa, i));
    cork_array_done(&a); cork_array_done(&sa);
}
struct node { struct cork_dllist_item item; uint32_t v; };
static void s_list(struct ctx *c)
{
    struct cork_dllist l; struct cork_dllist_item *cur, *nx; struct node *nd; int n = 1 + rn(c, 12); struct cork_ring_buffer *rb = cork_ring_buffer_new(1 + rn(c, 6));
    cork_dllist_init(&l);
    while (n--) {
        nd = cork_new(struct node); nd->v = rn(c, 1000);
        if (rn(c, 2)) cork_dllist_add_to_head(&l, &nd->item); else cork_dllist_add_to_tail(&l, &nd->item);
        fold(c, cork_ring_buffer_add(rb, (void *) (uintptr_t) (nd->v + 1)) == 0);
        if (rn(c, 3) == 0) fold(c, (uintptr_t) cork_ring_buffer_pop(rb));
        fold(c, (uintptr_t) cork_ring_buffer_peek(rb));
    }
    fold(c, cork_dllist_size(&l));
    cork_dllist_foreach(&l, cur, nx, struct node, nd, item) { fold(c, nd->v); cork_dllist_remove(cur); cork_delete(struct node, nd); }
    cork_ring_buffer_free(rb);
}
static void init_obj(void *ud, void *o) { *(uint64_t *) o = 0x1111; ++*(int *) ud; }
static void done_obj(void *ud, void *o) { --*(int *) ud; (void) o; }
static void s_pool(struct ctx *c)
{
    int live = 0, n = 3 + rn(c, 20), k = 0, i; void *o[24];
    struct cork_mempool *mp = cork_mempool_new_size_ex(8 + 8 * rn(c, 4), 256);
    cork_mempool_set_user_data(mp, &live, 0); cork_mempool_set_init_object(mp, init_obj); cork_mempool_set_done_object(mp, done_obj);
    while (n--) {
        if (k && rn(c, 3) == 0) { i = rn(c, k); fold(c, *(uint64_t *) o[i]); *(uint64_t *) o[i] = 0x2222; cork_mempool_free_object(mp, o[i]); o[i] = o[--k]; }
        else if (k < 24) { o[k] = cork_mempool_new_object(mp); fold(c, *(uint64_t *) o[k]); *(uint64_t *) o[k] = rn(c, 100000); k++; }
        for (i = 0; i < k; i++) fold(c, *(uint64_t *) o[i]);
    }
    while (k) cork_mempool_free_object(mp, o[--k]);
    cork_mempool_free(mp);
    fold(c, live);
}
static void s_bits(struct ctx *c)
{
    size_t n = 1 + rn(c, 70), i; struct cork_bitset *b = cork_bitset_new(n);
    for (i = 0; i < 12; i++) cork_bitset_set(b, rn(c, n), rn(c, 2));
    for (i = 0; i < n; i++) fold(c, cork_bitset_get(b, i));
    cork_bitset_clear(b);
    for (i = 0; i < n; i++) fold(c, cork_bitset_get(b, i));
    cork_bitset_free(b);
}
static void s_format(struct ctx *c)
{
    struct cork_ipv4 a4; struct cork_ipv6 a6; struct cork_ip ip; char buf[128]; struct cork_buffer d = CORK_BUFFER_INIT(); cork_timestamp ts; cork_u128 u;
    static const char *const good[] = { "192.168.1.100", "::1", "fe80::200:f8ff:fe21:67cf", "::ffff:192.168.1.1", "10.0.0.1", "1:2:3:4:5:6:7:8" };
    static const char *const bad[] = { "1.2.3", "::1::2", "hello", "", "300.1.1.1", "1:2:3:4:5:6:7:8:9" };
    int i;
    for (i = 0; i < 4; i++) {
        uint32_t r = rn(c, 4);
        for (int j = 0; j < 16; j++) a6._.u8[j] = rn(c, 3) ? 0 : rn(c, 256);
        for (int j = 0; j < 4; j++) a4._.u8[j] = rn(c, 256);
        cork_ipv4_to_raw_string(&a4, buf); folds(c, buf);
        cork_ipv6_to_raw_string(&a6, buf); folds(c, buf);
        if (r) { fold(c, cork_ip_init(&ip, good[rn(c, 6)])); cork_ip_to_raw_string(&ip, buf); folds(c, buf); }
        else { fold(c, cork_ip_init(&ip, bad[rn(c, 6)])); fold(c, cork_error_code()); folds(c, cork_error_message()); cork_error_clear(); }
        u = cork_u128_from_32(rn(c, 2) ? 0 : (uint32_t) rnd_(c), (uint32_t) rnd_(c), (uint32_t) rnd_(c), (uint32_t) rnd_(c));
        folds(c, cork_u128_to_decimal(buf, u)); folds(c, cork_u128_to_hex(buf, u)); folds(c, cork_u128_to_padded_hex(buf, u));
        ts = rnd_(c);
        cork_buffer_clear(&d);
        fold(c, cork_timestamp_format_utc(ts, rn(c, 2) ? "%Y-%m-%d %H:%M:%S.%3f %%" : "%s+%6f", &d)); folds(c, d.buf);
        fold(c, cork_hash_buffer(rn(c, 9), buf, strlen(buf))); fold(c, cork_stable_hash_buffer(1, buf, strlen(buf)));
    }
    cork_buffer_done(&d);
}
static void s_env(struct ctx *c)
{
    struct cork_env *e = rn(c, 2) ? cork_env_new() : cork_env_clone_current(); int n = 2 + rn(c, 10); static const char *const nm[] = { "A", "B", "HOME", "PATH", "LONGER_NAME" };
    while (n--) {
        const char *k = nm[rn(c, 5)]; char w[16];
        switch (rn(c, 4)) {
        case 0: word(c, w); cork_env_add(e, k, w); break;
        case 1: cork_env_add_printf(e, k, "%s:%d", k, (int) rn(c, 100)); break;
        case 2: cork_env_remove(e, k); break;
        default: folds(c, cork_env_get(e, k));
        }
    }
    for (n = 0; n < 5; n++) folds(c, cork_env_get(e, nm[n]));
    { struct cork_exec *x = cork_exec_new_with_params("prog", "one", "two", NULL); cork_exec_add_param(x, "three"); cork_exec_set_env(x, e); cork_exec_set_cwd(x, "/tmp");
      folds(c, cork_exec_description(x)); fold(c, cork_exec_param_count(x)); folds(c, cork_exec_param(x, cork_exec_param_count(x) - 1)); folds(c, cork_exec_cwd(x)); cork_exec_free(x); }
}
static void s_slice(struct ctx *c)
{
    struct cork_managed_buffer *m; struct cork_slice s, t, x; char w[16]; size_t n; struct cork_buffer b = CORK_BUFFER_INIT(); struct cork_stream_consumer *sc;
    word(c, w); n = strlen(w);
    m = cork_managed_buffer_new_copy(w, n + 1);
    memset(w, 0, sizeof w);
    fold(c, cork_managed_buffer_slice(&s, m, 0, n));
    cork_managed_buffer_unref(m);
    fold(c, cork_slice_copy(&t, &s, n / 2, n - n / 2)); foldb(c, t.buf, t.size);
    fold(c, cork_slice_copy(&x, &t, 5, 100) != 0 ? cork_error_code() : 0); cork_error_clear();
    cork_slice_finish(&t);
    foldb(c, s.buf, s.size);
    cork_slice_finish(&s);
    cork_buffer_append(&b, "stream:", 7);
    sc = cork_buffer_to_stream_consumer(&b);
    fold(c, cork_stream_consumer_data(sc, "abc", 3, true)); fold(c, cork_stream_consumer_data(sc, "def", 3, false)); fold(c, cork_stream_consumer_eof(sc)); cork_stream_consumer_free(sc);
    foldb(c, b.buf, b.size);
    cork_buffer_done(&b);
}
static void s_path(struct ctx *c)
{
    char w[16], v[16]; struct cork_path *p, *q, *r; struct cork_path_list *l; size_t i;
    word(c, w); word(c, v);
    p = cork_path_new(w); q = cork_path_join(p, v); r = cork_path_dirname(q);
    folds(c, cork_path_get(q)); folds(c, cork_path_get(r)); cork_path_append(r, "x/y"); folds(c, cork_path_get(r));
    cork_path_set_basename(r); folds(c, cork_path_get(r));
    cork_path_free(p); cork_path_free(q); cork_path_free(r);
    l = cork_path_list_new("/a:/b/c::d"); for (i = 0; i < cork_path_list_size(l); i++) folds(c, cork_path_get(cork_path_list_get(l, i))); folds(c, cork_path_list_to_string(l)); cork_path_list_free(l);
    switch (rn(c, 6)) {
    case 0: p = cork_path_home(); break;
    case 1: p = cork_path_user_cache_path(); break;
    case 2: p = cork_path_user_runtime_path(); break;
    case 3: p = cork_path_cwd(); break;
    case 4: p = cork_path_new(w); cork_path_set_absolute(p); break;
    default: l = rn(c, 2) ? cork_path_config_paths() : cork_path_data_paths(); p = NULL;
             if (l) { folds(c, cork_path_list_to_string(l)); fold(c, cork_path_list_size(l)); cork_path_list_free(l); }
    }
    if (p) { folds(c, cork_path_get(p)); cork_path_free(p); } else if (cork_error_occurred()) { fold(c, cork_error_code()); folds(c, cork_error_message()); cork_error_clear(); }
}
static void s_error(struct ctx *c)
{
    char w[16]; word(c, w);
    cork_error_set_printf(3 + rn(c, 5), "%s!", w); cork_error_prefix_printf("%d: ", (int) rn(c, 9)); fold(c, cork_error_code()); folds(c, cork_error_message()); cork_error_clear(); fold(c, cork_error_occurred());
}
/* --- the rest of the interfaces --- */
struct cnt { int init, done, reuse, rem; uint64_t sum; };
static void cb_init(void *ud, void *o) { struct cnt *k = ud; k->init++; *(uint64_t *) o = 0; }
static void cb_done(void *ud, void *o) { struct cnt *k = ud; k->done++; k->sum += *(uint64_t *) o; }
static void cb_reuse(void *ud, void *o) { struct cnt *k = ud; k->reuse++; *(uint64_t *) o = 5; }
static void cb_remove(void *ud, void *o) { struct cnt *k = ud; k->rem++; k->sum += 3 * *(uint64_t *) o; }
static int cb_copy(void *ud, void *d, const void *s) { int *left = ud; if ((*left)-- == 0) return -1; *(uint64_t *) d = *(const uint64_t *) s + 1; return 0; }
static void free_u64(void *p) { cork_delete(uint64_t, p); }
static void fold_cnt(struct ctx *c, struct cnt *k) { fold(c, k->init); fold(c, k->done); fold(c, k->reuse); fold(c, k->rem); fold(c, k->sum); }
static void s_array2(struct ctx *c)
{
    cork_array(uint64_t) a, b; cork_array(uint64_t *) p; struct cnt k = { 0 }, *kp; int n = 3 + rn(c, 14), left; size_t i, at; struct cork_string_array x, y; char w[16];
    cork_array_init(&a); cork_array_init(&b); cork_pointer_array_init(&p, free_u64); cork_string_array_init(&x); cork_string_array_init(&y);
    kp = cork_new(struct cnt); *kp = k;
    cork_array_set_callback_data(&a, &k, NULL);
    cork_array_set_callback_data(&b, kp, NULL);
    if (rn(c, 2)) { cork_array_set_init(&a, cb_init); cork_array_set_done(&a, cb_done); cork_array_set_init(&b, cb_init); cork_array_set_done(&b, cb_done); }
    if (rn(c, 2)) { cork_array_set_reuse(&a, cb_reuse); cork_array_set_remove(&a, cb_remove); cork_array_set_reuse(&b, cb_reuse); }
    while (n--) {
        switch (rn(c, 9)) {
        case 0: case 1: cork_array_append(&a, rn(c, 1000)); break;
        case 2: *cork_array_append_get(&b) = rn(c, 1000); break;
        case 3: if ((at = rn(c, cork_array_size(&a) + 1)) < cork_array_size(&a)) cork_array_remove_range(&a, at, 1 + rn(c, cork_array_size(&a) - at)); break;
        case 4: left = rn(c, 4) ? -1 : (int) rn(c, 4); fold(c, cork_array_copy(&b, &a, rn(c, 2) && cork_array_size(&a) ? cb_copy : cork_array_size(&a) ? NULL : cb_copy, &left)); break;
        case 5: cork_array_clear(&b); break;
        case 6: cork_array_ensure_size(&a, rn(c, 40)); break;
        case 7: { uint64_t *v = cork_new(uint64_t); *v = rn(c, 50); cork_array_append(&p, v); if (rn(c, 3) == 0) cork_array_remove(&p, rn(c, cork_array_size(&p))); else if (rn(c, 6) == 0) cork_array_clear(&p); break; }
        default: word(c, w); cork_string_array_append(&x, w); if (rn(c, 3) == 0) cork_string_array_copy(&y, &x); if (rn(c, 5) == 0) cork_array_clear(&x); else if (rn(c, 4) == 0 && cork_array_size(&x)) cork_array_remove(&x, rn(c, cork_array_size(&x)));
        }
        fold(c, cork_array_size(&a)); fold(c, cork_array_size(&b)); fold(c, cork_array_is_empty(&p)); fold(c, cork_raw_array_element_size(cork_array_to_raw(&a)));
        fold_cnt(c, &k); fold_cnt(c, kp);
    }
    for (i = 0; i < cork_array_size(&a); i++) fold(c, *(uint64_t *) cork_raw_array_at(cork_array_to_raw(&a), i));
    for (i = 0; i < cork_raw_array_size(cork_array_to_raw(&b)); i++) fold(c, ((uint64_t *) cork_raw_array_elements(cork_array_to_raw(&b)))[i]);
    for (i = 0; i < cork_array_size(&p); i++) fold(c, *cork_array_at(&p, i));
    for (i = 0; i < cork_array_size(&y); i++) folds(c, cork_array_at(&y, i));
    cork_array_set_callback_data(&b, kp, NULL);
    cork_array_done(&a); cork_array_done(&b); cork_array_done(&p); cork_array_done(&x); cork_array_done(&y);
    fold_cnt(c, &k); fold_cnt(c, kp);
    cork_delete(struct cnt, kp);
}
struct hud { int salt; };
static cork_hash h_hash(void *ud, const void *k) { return cork_hash_buffer(((struct hud *) ud)->salt, k, 8) & 0x3f; }
static bool h_eq(void *ud, const void *a, const void *b) { return *(const uint64_t *) a % 40 == *(const uint64_t *) b % 40 && ((struct hud *) ud)->salt >= 0; }
static cork_hash h_hash40(void *ud, const void *k) { uint64_t v = *(const uint64_t *) k % 40; return h_hash(ud, &v); }
static void h_freeud(void *ud) { cork_delete(struct hud, ud); }
static uint64_t *box(struct ctx *c) { uint64_t *v = cork_new(uint64_t); *v = rn(c, 400); return v; }
struct mapc { struct ctx *c; int n; };
static enum cork_hash_table_map_result h_map(void *ud, struct cork_hash_table_entry *e)
{
    struct mapc *m = ud;
    fold(m->c, *(uint64_t *) e->key); fold(m->c, *(uint64_t *) e->value); fold(m->c, e->hash);
    if (m->n-- == 0) return CORK_HASH_TABLE_MAP_ABORT;
    return rn(m->c, 3) == 0 ? CORK_HASH_TABLE_MAP_DELETE : CORK_HASH_TABLE_MAP_CONTINUE;
}
static void s_hash2(struct ctx *c)
{
    struct cork_hash_table *t = cork_hash_table_new(rn(c, 3) ? 0 : rn(c, 100), 0), *pt = cork_pointer_hash_table_new(rn(c, 40), 0); struct hud *ud = cork_new(struct hud); int n = 5 + rn(c, 60), i;
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; static const char keys[64];
    ud->salt = rn(c, 5);
    cork_hash_table_set_user_data(t, ud, h_freeud); cork_hash_table_set_hash(t, h_hash40); cork_hash_table_set_equals(t, h_eq);
    cork_hash_table_set_free_key(t, free_u64); cork_hash_table_set_free_value(t, free_u64);
    while (n--) {
        uint64_t probe = rn(c, 400), *k, *v; void *ok, *ov; bool isnew; cork_hash h = h_hash40(ud, &probe);
        switch (rn(c, 11)) {
        case 0: case 1: k = box(c); v = box(c); cork_hash_table_put(t, k, v, &isnew, &ok, &ov); fold(c, isnew); if (!isnew) { fold(c, *(uint64_t *) ok); fold(c, *(uint64_t *) ov); free_u64(ok); free_u64(ov); } else { fold(c, ok == NULL); fold(c, ov == NULL); } break;
        case 2: k = box(c); v = box(c); cork_hash_table_put_hash(t, h_hash40(ud, k), k, v, &isnew, &ok, &ov); fold(c, isnew); if (!isnew) { free_u64(ok); free_u64(ov); } break;
        case 3: v = cork_hash_table_get(t, &probe); fold(c, v ? *v : 7); v = cork_hash_table_get_hash(t, h, &probe); fold(c, v ? *v : 8); break;
        case 4: e = cork_hash_table_get_entry(t, &probe); fold(c, e ? *(uint64_t *) e->key : 9); if (e && rn(c, 2)) cork_hash_table_delete_entry(t, e); break;
        case 5: e = cork_hash_table_get_entry_hash(t, h, &probe); fold(c, e ? e->hash : 0); break;
        case 6: k = box(c); e = cork_hash_table_get_or_create(t, k, &isnew); fold(c, isnew); if (isnew) e->value = box(c); else free_u64(k); break;
        case 7: k = box(c); e = cork_hash_table_get_or_create_hash(t, h_hash40(ud, k), k, &isnew); if (isnew) e->value = box(c); else free_u64(k); break;
        case 8: fold(c, cork_hash_table_delete(t, &probe, NULL, NULL)); break;
        case 9: fold(c, cork_hash_table_delete_hash(t, h, &probe, NULL, NULL)); break;
        default:
            if (rn(c, 4) == 0) { struct mapc m = { c, (int) rn(c, 20) - 1 }; cork_hash_table_map(t, &m, h_map); }
            else if (rn(c, 8) == 0) cork_hash_table_clear(t);
            else if (rn(c, 4) == 0) cork_hash_table_ensure_size(t, rn(c, 90));
        }
        i = rn(c, 64);
        if (rn(c, 2)) cork_hash_table_put(pt, (void *) &keys[i], (void *) (uintptr_t) (i + 1), NULL, NULL, NULL);
        else if (rn(c, 2)) { ov = 0; fold(c, cork_hash_table_delete(pt, &keys[i], &ok, &ov)); fold(c, (uintptr_t) ov); }
        else fold(c, (uintptr_t) cork_hash_table_get(pt, &keys[i]));
        fold(c, cork_hash_table_size(t)); fold(c, cork_hash_table_size(pt));
    }
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it))) { fold(c, *(uint64_t *) e->key); fold(c, *(uint64_t *) e->value); }
    cork_hash_table_iterator_init(pt, &it);
    while ((e = cork_hash_table_iterator_next(&it))) fold(c, (uintptr_t) e->value);
    cork_hash_table_free(t); cork_hash_table_free(pt);
}
static void l_map(struct cork_dllist_item *i, void *ud) { fold(ud, cork_container_of(i, struct node, item)->v); }
static int l_visit(void *ud, struct cork_dllist_item *i) { struct mapc *m = ud; fold(m->c, cork_container_of(i, struct node, item)->v); return m->n-- == 0 ? 17 : 0; }
static void s_list2(struct ctx *c)
{
    struct cork_dllist l[2]; struct cork_dllist_item *cur, *nx; struct node *nd; int n = 2 + rn(c, 14), i; struct cork_ring_buffer rb; struct cork_bitset bs; struct mapc m; size_t bits = 1 + rn(c, 90);
    cork_dllist_init(&l[0]); cork_dllist_init(&l[1]);
    fold(c, cork_ring_buffer_init(&rb, 1 + rn(c, 5))); cork_bitset_init(&bs, bits); cork_bitset_clear(&bs);
    while (n--) {
        struct cork_dllist *x = &l[rn(c, 2)];
        nd = cork_new(struct node); nd->v = rn(c, 1000);
        switch (rn(c, 4)) {
        case 0: cork_dllist_add_to_head(x, &nd->item); break;
        case 1: if (cork_dllist_head(x)) cork_dllist_add_after(cork_dllist_head(x), &nd->item); else cork_dllist_add(x, &nd->item); break;
        case 2: if (cork_dllist_tail(x)) cork_dllist_add_before(cork_dllist_tail(x), &nd->item); else cork_dllist_add(x, &nd->item); break;
        default: cork_dllist_add_to_tail(x, &nd->item);
        }
        if (rn(c, 6) == 0) { if (rn(c, 2)) cork_dllist_add_list_to_tail(&l[0], &l[1]); else cork_dllist_add_list_to_head(&l[0], &l[1]); }
        fold(c, cork_dllist_size(x)); fold(c, cork_dllist_is_empty(&l[1]));
        cork_dllist_map(x, l_map, c); m.c = c; m.n = (int) rn(c, 9) - 1; fold(c, cork_dllist_visit(x, &m, l_visit));
        for (i = rn(c, 4); i > 0; i--) { fold(c, cork_ring_buffer_add(&rb, (void *) (uintptr_t) (nd->v + 1))); fold(c, cork_ring_buffer_is_full(&rb)); }
        for (i = rn(c, 4); i > 0; i--) { fold(c, (uintptr_t) cork_ring_buffer_peek(&rb)); fold(c, (uintptr_t) cork_ring_buffer_pop(&rb)); }
        cork_bitset_set(&bs, rn(c, bits), rn(c, 3)); fold(c, cork_bitset_get(&bs, rn(c, bits)));
    }
    foldb(c, bs.bits, bs.byte_count);
    for (i = 0; i < 2; i++) cork_dllist_foreach(&l[i], cur, nx, struct node, nd, item) { fold(c, nd->v); cork_dllist_remove(cur); cork_delete(struct node, nd); }
    cork_ring_buffer_done(&rb); cork_bitset_done(&bs);
}
static void p_init(void *ud, void *o) { struct cnt *k = ud; k->init++; *(uint64_t *) o = 1; }
static void p_done(void *ud, void *o) { struct cnt *k = ud; k->done++; k->sum ^= *(uint64_t *) o; }
static void p_free(void *ud) { struct cnt *k = ud; k->rem++; }
static void s_pool2(struct ctx *c)
{
    struct cnt k = { 0 }, k2 = { 0 }; int i, n = 1 + rn(c, 12), live = 0; uint64_t *o[60]; struct node *nd;
    struct cork_mempool *mp = cork_mempool_new_ex(uint64_t, 64 + 16 * rn(c, 20)), *dp = cork_mempool_new(struct node);
    cork_mempool_set_user_data(mp, &k, p_free);
    cork_mempool_set_callbacks(mp, &k2, rn(c, 2) ? p_free : NULL, p_init, p_done);
    fold_cnt(c, &k);
    while (n--) {
        for (i = rn(c, 8); i > 0 && live < 60; i--) { o[live] = cork_mempool_new_object(mp); fold(c, *o[live]); *o[live++] = rn(c, 5000); }
        for (i = rn(c, 8); i > 0 && live; i--) { int j = rn(c, live); fold(c, *o[j]); cork_mempool_free_object(mp, o[j]); o[j] = o[--live]; }
        nd = cork_mempool_new_object(dp); nd->v = n; fold(c, nd->v); cork_mempool_free_object(dp, nd);
    }
    while (live) cork_mempool_free_object(mp, o[--live]);
    cork_mempool_free(mp); cork_mempool_free(dp);
    fold_cnt(c, &k2);
}
static void m_free(void *b, size_t n) { cork_free(b, n); }
static void s_slice2(struct ctx *c)
{
    struct cork_managed_buffer *m; struct cork_slice s, t, u; size_t n = 1 + rn(c, 40), i, off, len; char *raw = cork_malloc(n); int k = 2 + rn(c, 8);
    for (i = 0; i < n; i++) raw[i] = 'a' + rn(c, 26);
    m = cork_managed_buffer_new(raw, n, m_free);
    switch (rn(c, 4)) {
    case 0: fold(c, cork_managed_buffer_slice_offset(&s, m, rn(c, n))); break;
    case 1: cork_slice_init_copy_once(&s, raw, n); break;
    case 2: cork_slice_init_static(&s, raw, n); break;
    default: fold(c, cork_managed_buffer_slice(&s, m, 0, n));
    }
    while (k--) {
        off = rn(c, s.size + 2); len = rn(c, s.size + 2);
        switch (rn(c, 7)) {
        case 0: fold(c, cork_slice_slice(&s, off, len)); break;
        case 1: if (off <= s.size) fold(c, cork_slice_slice_offset_fast(&s, off)); break;
        case 2: fold(c, cork_slice_advance_checked(&s, off) != NULL); break;
        case 3: if (off <= s.size) fold(c, cork_slice_advance(&s, off) != NULL); break;
        case 4: if (cork_slice_light_copy(&t, &s, off, len) == 0) { foldb(c, t.buf, t.size); fold(c, cork_slice_equal(&t, &s)); if (cork_slice_copy_offset(&u, &t, 0) == 0) { fold(c, cork_slice_equal(&t, &u)); cork_slice_finish(&u); } cork_slice_finish(&t); } break;
        case 5: if (off <= s.size && cork_slice_light_copy_offset(&t, &s, off) == 0) { foldb(c, t.buf, t.size); cork_slice_finish(&t); } break;
        default: if (off + len <= s.size && cork_slice_copy_fast(&t, &s, off, len) == 0) { foldb(c, t.buf, t.size); cork_slice_finish(&t); }
        }
        fold(c, cork_error_occurred() ? cork_error_code() : 1); folds(c, cork_error_occurred() ? cork_error_message() : ""); cork_error_clear();
        foldb(c, s.buf, s.size);
    }
    cork_slice_finish(&s); fold(c, cork_slice_is_empty(&s));
    fold(c, cork_managed_buffer_slice(&s, m, n, 1)); cork_error_clear();
    cork_managed_buffer_unref(m);
    { struct cork_buffer *b = cork_buffer_new(); char w[16]; word(c, w); cork_buffer_append_string(b, w); cork_buffer_append_literal(b, "!");
      if (rn(c, 2)) { fold(c, cork_buffer_to_slice(b, &s)); foldb(c, s.buf, s.size); cork_slice_finish(&s); }
      else { m = cork_buffer_to_managed_buffer(b); foldb(c, m->buf, m->size); cork_managed_buffer_unref(m); } }
}
static void s_values(struct ctx *c)
{
    struct cork_ipv4 v4; struct cork_ipv6 v6; struct cork_ip a, b; char buf[128], txt[64]; struct cork_buffer d = CORK_BUFFER_INIT(); cork_timestamp ts; cork_u128 x, y; cork_big_hash bh = CORK_BIG_HASH_INIT(); int i, j;
    static const char *const fmt[] = { "%Y", "%m/%d", "%H:%M:%S", "%s.%9f", "%1f%2f%3f", "%", "%q", "%0f", "%10f", "no specifiers", "%%", "a%Yb%mc" };
    for (i = 0; i < 3; i++) {
        unsigned o[4];
        for (j = 0; j < 4; j++) o[j] = rn(c, 300);
        snprintf(txt, sizeof txt, "%u.%u.%u.%u", o[0], o[1], o[2], o[3]);
        fold(c, cork_ipv4_init(&v4, txt)); if (cork_error_occurred()) { folds(c, cork_error_message()); cork_error_clear(); } else { cork_ipv4_to_raw_string(&v4, buf); folds(c, buf); fold(c, cork_ipv4_is_valid_network(&v4, rn(c, 34))); }
        snprintf(txt, sizeof txt, rn(c, 2) ? "%x:%x::%x" : rn(c, 2) ? "::%x:%x:%u.1.2.3" : "%x:%x:1:2:3:4:5:%x", (unsigned) rn(c, 70000), (unsigned) rn(c, 65536), (unsigned) rn(c, 260));
        fold(c, cork_ipv6_init(&v6, txt)); if (cork_error_occurred()) { folds(c, cork_error_message()); cork_error_clear(); } else { cork_ipv6_to_raw_string(&v6, buf); folds(c, buf); fold(c, cork_ipv6_is_valid_network(&v6, rn(c, 130))); }
        fold(c, cork_ip_init(&a, txt)); if (cork_error_occurred()) { fold(c, cork_error_code()); cork_error_clear(); cork_ip_from_ipv4(&a, "\x0a\x00\x00\x01"); }
        cork_ip_from_ipv6(&b, "\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x01"); fold(c, cork_ip_equal(&a, &b)); cork_ip_to_raw_string(&b, buf); folds(c, buf); cork_ip_to_raw_string(&a, buf); folds(c, buf); fold(c, cork_ip_is_valid_network(&b, rn(c, 129)));
        x = cork_u128_from_64(rnd_(c), rnd_(c)); y = rn(c, 2) ? cork_u128_from_64(0, rnd_(c)) : x;
        fold(c, cork_u128_eq(x, y) | cork_u128_ne(x, y) << 1 | cork_u128_lt(x, y) << 2 | cork_u128_le(x, y) << 3 | cork_u128_gt(x, y) << 4 | cork_u128_ge(x, y) << 5);
        x = cork_u128_add(x, y); x = cork_u128_sub(x, cork_u128_shl(y, rn(c, 127))); x = cork_u128_shr(x, rn(c, 120)); fold(c, cork_u128_be64(x, 0)); fold(c, cork_u128_be64(x, 1));
        folds(c, cork_u128_to_decimal(buf, x)); folds(c, cork_u128_to_hex(buf, y)); folds(c, cork_u128_to_padded_hex(buf, x));
        switch (rn(c, 5)) { case 0: cork_timestamp_init_sec(&ts, rn(c, 2000000000)); break; case 1: cork_timestamp_init_msec(&ts, rn(c, 2000000000), rn(c, 1000)); break; case 2: cork_timestamp_init_usec(&ts, rn(c, 2000000000), rn(c, 1000000)); break; case 3: cork_timestamp_init_nsec(&ts, rn(c, 2000000000), rn(c, 1000000000)); break; default: cork_timestamp_init_gsec(&ts, rn(c, 2000000000), rnd_(c) & 0xffffffff); }
        fold(c, cork_timestamp_sec(ts)); fold(c, cork_timestamp_gsec(ts)); fold(c, cork_timestamp_msec(ts)); fold(c, cork_timestamp_usec(ts)); fold(c, cork_timestamp_nsec(ts));
        cork_buffer_clear(&d);
        j = rn(c, 12);
        fold(c, rn(c, 2) ? cork_timestamp_format_utc(ts, fmt[j], &d) : cork_timestamp_format_local(ts, fmt[j], &d)); if (cork_error_occurred()) { fold(c, cork_error_code()); folds(c, cork_error_message()); cork_error_clear(); } else folds(c, d.buf);
        bh = cork_big_hash_buffer(bh, txt, strlen(txt)); fold(c, cork_u128_be64(bh.u128, 0)); fold(c, cork_big_hash_equal(bh, bh)); fold(c, cork_stable_hash_buffer(i, txt, strlen(txt))); fold(c, cork_hash_buffer(i, txt, rn(c, strlen(txt) + 1)));
    }
    folds(c, cork_version_string()); folds(c, cork_revision_string());
    cork_buffer_done(&d);
}
static void vp(struct ctx *c, struct cork_buffer *b, const char *f, ...)
{
    va_list a; int how = rn(c, 4);
    va_start(a, f);
    switch (how) {
    case 0: cork_buffer_vprintf(b, f, a); break;
    case 1: cork_buffer_append_vprintf(b, f, a); break;
    case 2: cork_error_set_vprintf(9, f, a); folds(c, cork_error_message()); cork_error_clear(); break;
    default: cork_error_set_string(8, "base"); cork_error_prefix_vprintf(f, a); folds(c, cork_error_message()); cork_error_clear();
    }
    va_end(a);
}
static void s_text(struct ctx *c)
{
    struct cork_buffer b = CORK_BUFFER_INIT(), d; char w[300]; int i, n = 2 + rn(c, 6), k;
    cork_buffer_init(&d);
    for (i = 0; i < n; i++) {
        size_t len = rn(c, 3) ? rn(c, 40) : 200 + rn(c, 90), j;
        for (j = 0; j < len; j++) w[j] = rn(c, 5) ? 32 + rn(c, 95) : rn(c, 2) ? '\n' : (char) rn(c, 256);
        switch (k = rn(c, 8)) {
        case 0: cork_buffer_append_c_string(&b, w, len); break;
        case 1: cork_buffer_append_hex_dump(&b, rn(c, 6), w, len); break;
        case 2: cork_buffer_append_multiline(&b, rn(c, 6), w, len); break;
        case 3: cork_buffer_append_binary(&b, rn(c, 6), w, len); break;
        case 4: cork_buffer_set_literal(&d, "literal"); cork_buffer_ensure_size(&d, rn(c, 500)); break;
        case 5: w[len] = 0; for (j = 0; j < len; j++) if (!w[j]) w[j] = '0'; vp(c, &b, "<%s %d>", w, i); break;
        case 6: cork_buffer_truncate(&b, rn(c, 60)); break;
        default: cork_buffer_append(&d, w, len); cork_buffer_set(&b, d.buf ? d.buf : "", d.size);
        }
        foldb(c, b.buf, b.size); foldb(c, d.buf, d.size); fold(c, cork_buffer_equal(&b, &d));
        if (b.size) { fold(c, cork_buffer_byte(&b, rn(c, b.size))); fold(c, cork_buffer_char(&b, b.size)); }
        if (b.size > 4000) cork_buffer_clear(&b);
    }
    cork_buffer_done(&b); cork_buffer_done(&d);
}
static void fp(struct ctx *c, struct cork_path *p) { if (!p) { fold(c, cork_error_occurred()); cork_error_clear(); return; } folds(c, cork_path_get(p)); cork_path_free(p); }
static void fl(struct ctx *c, struct cork_path_list *l) { size_t i; if (!l) { fold(c, cork_error_occurred()); cork_error_clear(); return; } for (i = 0; i < cork_path_list_size(l); i++) folds(c, cork_path_get(cork_path_list_get(l, i))); folds(c, cork_path_list_to_string(l)); cork_path_list_free(l); }
static void s_path2(struct ctx *c)
{
    char v[16], w[16], lst[64]; struct cork_path *p, *q, *r; struct cork_path_list *l; struct cork_file_list *f; size_t i;
    word(c, v); word(c, w);
    p = cork_path_new(v); q = cork_path_new(w); r = cork_path_clone(q);
    cork_path_append_path(r, p); folds(c, cork_path_get(r)); fp(c, cork_path_join_path(p, r)); fp(c, cork_path_basename(r));
    cork_path_set_dirname(r); folds(c, cork_path_get(r)); cork_path_set(r, "/a//b/"); fp(c, cork_path_dirname(r)); fp(c, cork_path_basename(r)); cork_path_append(r, rn(c, 2) ? "/abs" : ""); folds(c, cork_path_get(r));
    fold(c, cork_path_set_absolute(q)); folds(c, cork_path_get(q)); fp(c, cork_path_absolute(p)); fp(c, cork_path_cwd()); fold(c, cork_path_set_cwd(p)); folds(c, cork_path_get(p)); cork_error_clear();
    l = cork_path_list_new_empty(); cork_path_list_add(l, q); cork_path_list_add(l, r); f = cork_file_list_new(l);
    for (i = 0; i < cork_file_list_size(f); i++) folds(c, cork_path_get(cork_file_path(cork_file_list_get(f, i))));
    cork_file_list_add(f, cork_file_new(v)); cork_file_list_add(f, cork_file_new_from_path(p)); fold(c, cork_file_list_size(f)); folds(c, cork_path_get(cork_file_path(cork_file_list_get(f, 2))));
    cork_file_list_free(f); fl(c, l);
    f = cork_file_list_new_empty(); fold(c, cork_file_list_size(f)); cork_file_list_free(f);
    snprintf(lst, sizeof lst, "%s:/%s::%s/", v, w, w); fl(c, cork_path_list_new(lst)); fl(c, cork_path_list_new(""));
    fp(c, cork_path_home()); fl(c, cork_path_config_paths()); fl(c, cork_path_data_paths()); fp(c, cork_path_user_cache_path()); fp(c, cork_path_user_runtime_path());
}
static void s_error2(struct ctx *c)
{
    char w[16], big[700]; int i, n = 1 + rn(c, 5);
    for (i = 0; i < n; i++) {
        word(c, w);
        switch (rn(c, 9)) {
        case 0: cork_error_set_string(i + 2, w); break;
        case 1: cork_error_prefix_string(w); break;
        case 2: cork_error_set(0x1000, i, "old %s", w); break;
        case 3: cork_error_prefix("old %s: ", w); break;
        case 4: cork_system_error_set_explicit(1 + rn(c, 30)); break;
        case 5: cork_unknown_error(); break;
        case 6: if (rn(c, 2)) cork_undefined("%s", w); else cork_redefined("%s %d", w, i); break;
        case 7: memset(big, 'x', sizeof big); big[100 + rn(c, 590)] = 0; cork_parse_error("%s", big); break;
        default: cork_error_clear();
        }
        fold(c, cork_error_occurred()); fold(c, cork_error_code()); if (cork_error_occurred()) folds(c, cork_error_message());
    }
    cork_error_clear();
}
static int sc_data(struct cork_stream_consumer *s, const void *b, size_t n, bool f) { return 0; }
static void s_exec2(struct ctx *c)
{
    char w[16]; struct cork_exec *x = cork_exec_new("/bin/prog"), *y; char *sa[3] = { "name", w, NULL }; size_t i; int k, n = rn(c, 5); struct cork_subprocess *sp; struct cork_subprocess_group *g;
    struct cork_stream_consumer sc = { sc_data, 0, 0 }; struct cork_env *e;
    cork_exec_add_param(x, "argv0");
    while (n--) { word(c, w); cork_exec_add_param(x, w); }
    for (i = 0; i < cork_exec_param_count(x); i++) folds(c, cork_exec_param(x, i));
    folds(c, cork_exec_program(x)); folds(c, cork_exec_description(x)); folds(c, cork_exec_cwd(x)); fold(c, cork_exec_env(x) == NULL);
    for (k = rn(c, 3); k > 0; k--) { word(c, w); cork_exec_set_cwd(x, w); folds(c, cork_exec_cwd(x)); }
    for (k = rn(c, 3); k > 0; k--) { e = cork_env_clone_current(); word(c, w); cork_env_add(e, "VAR", w); cork_env_add_printf(e, "VAR2", "%s%s", w, w); cork_env_remove(e, "VAR"); cork_exec_set_env(x, e); folds(c, cork_env_get(cork_exec_env(x), "VAR2")); folds(c, cork_env_get(cork_exec_env(x), "VAR")); }
    word(c, w); y = cork_exec_new_with_param_array("arr", sa); word(c, w); folds(c, cork_exec_param(y, 1)); folds(c, cork_exec_description(y));
    g = cork_subprocess_group_new(); sp = cork_subprocess_new_exec(x, &sc, NULL, NULL); fold(c, cork_subprocess_is_finished(sp)); cork_subprocess_group_add(g, sp);
    cork_subprocess_group_free(g);
    cork_exec_free(y);
}
/* the same objects, grown large; other threads run in between */
static void big_word(struct ctx *c, char *d, size_t n) { size_t i; for (i = 0; i < n; i++) d[i] = 'a' + (i * 7 + (i >> 8)) % 26; d[rn(c, n)] = '!'; d[n] = 0; }
static void s_big(struct ctx *c)
{
    static const uint32_t sz[] = { 130, 260, 520, 1030, 4100, 9000, 17000 };
    size_t n = sz[rn(c, 7)], i, m; char *w = cork_malloc(70001), *w2;
    switch (rn(c, 11)) {
    case 0: {
        struct cork_buffer b = CORK_BUFFER_INIT(); struct cork_slice s; struct cork_managed_buffer *mb; int k = 1 + rn(c, 3);
        if (rn(c, 4) == 0) n = 30000 + rn(c, 40000);
        big_word(c, w, n); cork_buffer_printf(&b, "%s", w); u_indep_step(21, b.size);
        while (k--) {
            switch (rn(c, 5)) {
            case 0: cork_buffer_append_printf(&b, "<%s>", w + rn(c, n)); break;
            case 1: cork_buffer_append_c_string(&b, w, rn(c, 600)); break;
            case 2: cork_buffer_append_hex_dump(&b, 2, w, rn(c, 600)); break;
            case 3: cork_buffer_append_multiline(&b, rn(c, 200), w, rn(c, n)); break;
            default: cork_buffer_append(&b, w, n);
            }
            u_indep_step(21, b.size); foldb(c, b.buf, b.size);
        }
        mb = cork_managed_buffer_new_copy(b.buf, b.size); cork_buffer_done(&b);
        fold(c, cork_managed_buffer_slice(&s, mb, 1, mb->size - 1)); u_indep_step(21, s.size); foldb(c, s.buf, s.size); cork_slice_finish(&s); cork_managed_buffer_unref(mb);
        break; }
    case 1: {
        cork_array(uint32_t) a; struct cork_string_array sa; if (n > 1100) n = 1100;
        cork_array_init(&a); cork_string_array_init(&sa);
        for (i = 0; i < n; i++) cork_array_append(&a, rn(c, 99999));
        u_indep_step(21, n);
        for (i = 0; i < n / 8; i++) { char t[16]; word(c, t); cork_string_array_append(&sa, t); }
        for (i = 0; i < cork_array_size(&a); i++) fold(c, cork_array_at(&a, i));
        for (i = 0; i < cork_array_size(&sa); i++) folds(c, cork_array_at(&sa, i));
        cork_array_done(&a); cork_array_done(&sa); break; }
    case 2: {
        struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0); struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; if (n > 1100) n = 1100;
        for (i = 0; i < n; i++) cork_hash_table_put(t, (void *) (uintptr_t) (1 + i * 3), (void *) (uintptr_t) (1 + rn(c, 5000)), NULL, NULL, NULL);
        u_indep_step(21, n);
        for (i = 0; i < n / 2; i++) { void *k = 0, *v = 0; fold(c, cork_hash_table_delete(t, (void *) (uintptr_t) (1 + rn(c, 3 * n)), &k, &v)); fold(c, (uintptr_t) v); }
        u_indep_step(21, cork_hash_table_size(t));
        cork_hash_table_iterator_init(t, &it); while ((e = cork_hash_table_iterator_next(&it))) { fold(c, (uintptr_t) e->key); fold(c, (uintptr_t) e->value); }
        cork_hash_table_free(t); break; }
    case 3: {
        struct cork_mempool *mp = cork_mempool_new_size(8 << rn(c, 5)); uint64_t **o = (uint64_t **) (void *) w; if (n > 1100) n = 1100;
        for (i = 0; i < n; i++) { o[i] = cork_mempool_new_object(mp); *o[i] = i ^ c->rng; if (i % 100 == 99) u_indep_step(21, i); }
        for (i = 0; i < n / 2; i++) { m = rn(c, n); fold(c, *o[m]); cork_mempool_free_object(mp, o[m]); o[m] = cork_mempool_new_object(mp); *o[m] = i; }
        u_indep_step(21, n);
        for (i = 0; i < n; i++) { fold(c, *o[i]); cork_mempool_free_object(mp, o[i]); }
        cork_mempool_free(mp); break; }
    case 4: {
        struct cork_bitset *b = cork_bitset_new(n);
        for (i = 0; i < 60; i++) cork_bitset_set(b, rn(c, n), true);
        u_indep_step(21, n);
        for (i = 0; i < n; i++) if (cork_bitset_get(b, i)) fold(c, i);
        cork_bitset_free(b); break; }
    case 5: {
        struct cork_ring_buffer *rb; if (n > 1100) n = 1100;
        rb = cork_ring_buffer_new(n); for (i = 0; i < n + 5; i++) fold(c, cork_ring_buffer_add(rb, (void *) (uintptr_t) (i + 1 + rn(c, 9))));
        u_indep_step(21, n);
        for (i = 0; i < n + 2; i++) fold(c, (uintptr_t) cork_ring_buffer_pop(rb));
        cork_ring_buffer_free(rb); break; }
    case 6: {
        struct cork_env *e = cork_env_new(); struct cork_exec *x = cork_exec_new("prog"); char k[24]; if (n > 280) n = 280;
        for (i = 0; i < n; i++) { snprintf(k, sizeof k, "V%u", (unsigned) i); cork_env_add_printf(e, k, "%u", (unsigned) rn(c, 1000)); cork_exec_add_param(x, k); }
        big_word(c, w, 5000); cork_env_add(e, "LONG", w);
        u_indep_step(21, n);
        for (i = 0; i < n; i++) { snprintf(k, sizeof k, "V%u", (unsigned) i); folds(c, cork_env_get(e, k)); folds(c, cork_exec_param(x, i)); }
        folds(c, cork_env_get(e, "LONG")); folds(c, cork_exec_description(x));
        cork_env_free(e); cork_exec_free(x); break; }
    case 7: {
        struct cork_path *p, *q; struct cork_path_list *l; big_word(c, w, n); for (i = 0; i < n; i += 50) w[i] = '/';
        p = cork_path_new(w); q = cork_path_join(p, "name"); u_indep_step(21, n); folds(c, cork_path_get(q)); cork_path_set_dirname(q); folds(c, cork_path_get(q)); cork_path_free(p); cork_path_free(q);
        for (i = 10; i < n; i += 25) w[i] = ':';
        l = cork_path_list_new(w); u_indep_step(21, n); folds(c, cork_path_list_to_string(l)); fold(c, cork_path_list_size(l)); cork_path_list_free(l); break; }
    case 8:
        big_word(c, w, n); cork_error_set_printf(77, "%s|%s", w, w); u_indep_step(21, n); cork_error_prefix_printf("%s: ", w + n / 2); u_indep_step(21, n); fold(c, cork_error_code()); folds(c, cork_error_message()); cork_error_clear(); break;
    case 9: {
        struct cork_dllist l; struct node *nd = cork_calloc(1100, sizeof *nd); struct mapc mc; if (n > 1100) n = 1100;
        cork_dllist_init(&l);
        for (i = 0; i < n; i++) { nd[i].v = rn(c, 1000); cork_dllist_add_to_tail(&l, &nd[i].item); if (rn(c, 9) == 0) cork_dllist_remove(&nd[i].item); }
        u_indep_step(21, n); fold(c, cork_dllist_size(&l)); mc.c = c; mc.n = -1; fold(c, cork_dllist_visit(&l, &mc, l_visit));
        cork_cfree(nd, 1100, sizeof *nd); break; }
    default: {
        struct cork_buffer b = CORK_BUFFER_INIT(); struct cork_stream_consumer *sc; cork_big_hash bh = CORK_BIG_HASH_INIT();
        big_word(c, w, n); sc = cork_buffer_to_stream_consumer(&b);
        for (i = 0; i < 6; i++) { fold(c, cork_stream_consumer_data(sc, w, n, i == 0)); if (i % 3 == 2) u_indep_step(21, i); }
        fold(c, cork_stream_consumer_eof(sc)); cork_stream_consumer_free(sc); foldb(c, b.buf, b.size);
        fold(c, cork_hash_buffer(1, b.buf, b.size)); fold(c, cork_stable_hash_buffer(1, b.buf, b.size)); bh = cork_big_hash_buffer(bh, b.buf, b.size); fold(c, cork_u128_be64(bh.u128, 0));
        w2 = (char *) cork_strdup(w); u_indep_step(21, n); folds(c, w2); cork_strfree(w2); cork_buffer_done(&b); }
    }
    cork_free(w, 70001);
}
uint64_t u_indep(uint64_t seed, int sections, uint32_t mask)
{
    struct ctx c = { seed, 0xcbf29ce484222325ull };
    while (sections-- > 0) {
        int k = rn(&c, U_KINDS);
        if (!((mask >> k) & 1)) continue;
        switch (k) {
        case 0: s_buffer(&c); break;
        case 1: s_hash(&c); break;
        case 2: s_array(&c); break;
        case 3: s_list(&c); break;
        case 4: s_pool(&c); break;
        case 5: s_bits(&c); break;
        case 6: s_format(&c); break;
        case 7: s_env(&c); break;
        case 8: s_slice(&c); break;
        case 9: s_path(&c); break;
        case 10: s_error(&c); break;
        case 11: s_array2(&c); break;
        case 12: s_hash2(&c); break;
        case 13: s_list2(&c); break;
        case 14: s_pool2(&c); break;
        case 15: s_slice2(&c); break;
        case 16: s_values(&c); break;
        case 17: s_text(&c); break;
        case 18: s_path2(&c); break;
        case 19: s_error2(&c); break;
        case 20: s_exec2(&c); break;
        default: s_big(&c);
        }
        u_indep_step(k, c.dig);
    }
    return c.dig;
}
