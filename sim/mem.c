/* Simulated heap with shadow memory, thread-local storage, memory-access
 * hooks (the __tsan_* interface the compiler calls) and checked string
 * functions.  Every access by instrumented code is a scheduling point. */
#define _GNU_SOURCE
#include "internal.h"
#include <stdlib.h>
#include <sys/mman.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>

#define HEAP_BASE 0x300000000000ull
#define HEAP_SIZE (512ull << 20)
#define SHADOW_BASE 0x310000000000ull
#define TLS_BASE  0x320000000000ull
#define TLS_SIZE  (16ull << 20)
#define RZ 32

static char *heap_top, *tls_top;
static unsigned char *shadow;      /* per 8-byte granule: 8 = full, k = first k bytes, 0 = redzone/unused, 0xfd freed */
struct hdr { uint64_t magic; size_t size; uint64_t serial; struct hdr *next; };
#define MAGIC 0x53494d4845415031ull
#define MAGICF 0x53494d4652454544ull
static struct hdr *all_blocks;
static size_t live, live_bytes;
uint64_t sim_malloc_calls;
int sim_abort_ok, sim_heap_reuse; int sim_heap_fill = 0xa5, sim_alloc_scribble;  /* what fresh memory contains */
void (*sim_abort_cb)(void);
static struct hdr *freelist[64];

static struct { void *ctl; int x; } dummy;

void mem_init(void)
{
    (void) dummy;
    if (mmap((void *) HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED ||
        mmap((void *) SHADOW_BASE, HEAP_SIZE / 8, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED ||
        mmap((void *) TLS_BASE, TLS_SIZE, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED)
        sim_discard("mmap failed");
    heap_top = (char *) HEAP_BASE + 64;
    shadow = (unsigned char *) SHADOW_BASE;
    tls_top = (char *) TLS_BASE;
}

static int in_heap(const void *p) { return (uint64_t) p - HEAP_BASE < HEAP_SIZE; }
static int in_tls(const void *p) { return (uint64_t) p - TLS_BASE < TLS_SIZE; }

static void set_shadow(char *p, size_t n)
{
    size_t g = ((uint64_t) p - HEAP_BASE) >> 3, full = n >> 3;
    memset(shadow + g, 8, full);
    if (n & 7) shadow[g + full] = n & 7;
}
static void clr_shadow(char *p, size_t n)
{
    memset(shadow + (((uint64_t) p - HEAP_BASE) >> 3), 0xfd, (n + 7) >> 3);
}

static struct hdr *hdr_of(const void *p) { return (struct hdr *) ((char *) p - sizeof(struct hdr)); }

static const char *where(const void *p, char *b, size_t n)
{
    struct hdr *h;
    for (h = all_blocks; h; h = h->next) {
        char *d = (char *) (h + 1);
        if ((char *) p >= d - RZ && (char *) p < d + h->size + RZ) {
            snprintf(b, n, "offset %ld of %s %zu-byte block #%llu", (long) ((char *) p - d),
                     h->magic == MAGIC ? "live" : "released", h->size, (unsigned long long) h->serial);
            return b;
        }
    }
    snprintf(b, n, "wild heap address");
    return b;
}

static void bad(const void *p, size_t n, int write, const char *what)
{
    char b[160]; unsigned char s = shadow[((uint64_t) p - HEAP_BASE) >> 3];
    sim_fail(s == 0xfd ? "memory:use-after-free" : "memory:out-of-bounds", "%s of %zu bytes at %s%s%s (in %s)",
             write ? "write" : "read", n, where(p, b, sizeof b), what ? " by " : "", what ? what : "",
             sim_cur ? sim_cur->name : "?");
}

void sim_check_range(const void *p, size_t n, int write, const char *what)
{
    if (!n) return;
    if (in_heap(p)) {
        uint64_t a = (uint64_t) p - HEAP_BASE, e = a + n;
        while (a < e) {
            unsigned char s = shadow[a >> 3];
            unsigned off = a & 7;
            uint64_t take = 8 - off; if (take > e - a) take = e - a;
            if (s > 8 || off + take > s) bad((char *) HEAP_BASE + a, n, write, what);
            a += take;
        }
    } else if (in_tls(p)) {
        int i, j;
        for (i = 0; i < ntasks; i++)
            for (j = 0; j < tasks[i].ntls; j++) {
                char *m = tasks[i].tls[j].mem;
                if ((char *) p >= m && (char *) p < m + tasks[i].tls[j].size) {
                    if (tasks[i].st == T_DONE)
                        sim_fail("memory:dead-thread-storage", "access to thread-local storage of %s, which has exited", tasks[i].name);
                    return;
                }
            }
    } else if ((uint64_t) p < 65536)
        sim_fail("memory:null-pointer", "%s of %zu bytes near address 0%s%s (in %s)", write ? "write" : "read", n,
                 what ? " by " : "", what ? what : "", sim_cur ? sim_cur->name : "?");
}

static inline __attribute__((always_inline)) void access_(const void *p, size_t n, int write, int sync)
{
    task *t = sim_cur;
    if (!t) return;
    if ((char *) p >= t->stack_lo && (char *) p < t->stack_hi) return;
    sim_point(sync);
    if (in_heap(p)) {
        uint64_t a = (uint64_t) p - HEAP_BASE;
        unsigned char s = shadow[a >> 3];
        if ((a & 7) + n <= 8 ? (s > 8 || (a & 7) + n > s) : 1) sim_check_range(p, n, write, 0);
    } else if (in_tls(p) || (uint64_t) p < 65536) sim_check_range(p, n, write, 0);
}
void mem_access(const void *p, size_t n, int write) { access_(p, n, write, 0); }

static unsigned bin_of(size_t n) { unsigned b = (n + 15) / 16; return b < 63 ? b : 63; }

static void *alloc_raw(size_t n, int zero)
{
    struct hdr *h; char *d; size_t cap = (n + 15) & ~(size_t) 15;
    unsigned b = bin_of(cap ? cap : 1);
    if (sim_heap_reuse && b < 63 && freelist[b]) {
        h = freelist[b];
        freelist[b] = *(struct hdr **) (h + 1);
        d = (char *) (h + 1);
    } else {
        h = (struct hdr *) heap_top;
        heap_top += sizeof *h + cap + RZ;
        if (n > HEAP_SIZE || heap_top >= (char *) HEAP_BASE + HEAP_SIZE) sim_discard("simulated heap exhausted");
        h->next = all_blocks; all_blocks = h;
        d = (char *) (h + 1);
    }
    h->magic = MAGIC; h->size = n; h->serial = ++sim_malloc_calls;
    live++; live_bytes += n;
    set_shadow(d, n);
    if (zero) memset(d, 0, n);
    else memset(d, sim_heap_fill, n);
    if (sim_alloc_scribble) errno = ENOMEM;     /* a successful call may change errno */
    return d;
}
#define TOO_BIG ((size_t) 1 << 36)   /* like the real malloc, there is no such object */
void *sim_malloc(size_t n)
{
    sim_point(0);
    if (n > TOO_BIG) { errno = ENOMEM; return 0; }
    if (sim_fault(FT_MALLOC)) { errno = ENOMEM; return 0; }
    return alloc_raw(n, 0);
}
void *sim_calloc(size_t a, size_t b)
{
    sim_point(0);
    if (b && a > (size_t) -1 / b) { errno = ENOMEM; return 0; }
    if (a * b > TOO_BIG) { errno = ENOMEM; return 0; }
    if (sim_fault(FT_MALLOC)) { errno = ENOMEM; return 0; }
    return alloc_raw(a * b, 1);
}
static struct hdr *valid(void *p, const char *fn)
{
    struct hdr *h = hdr_of(p);
    if (!in_heap(p) || ((uint64_t) p & 15) || (h->magic != MAGIC && h->magic != MAGICF))
        sim_fail("memory:bad-free", "%s of an address that was never allocated (in %s)", fn, sim_cur->name);
    if (h->magic == MAGICF)
        sim_fail("memory:double-free", "%s of already released %zu-byte block #%llu (in %s)", fn, h->size,
                 (unsigned long long) h->serial, sim_cur->name);
    return h;
}
static void free_raw(void *p)
{
    struct hdr *h = hdr_of(p); size_t cap = (h->size + 15) & ~(size_t) 15;
    unsigned b = bin_of(cap ? cap : 1);
    h->magic = MAGICF; live--; live_bytes -= h->size;
    clr_shadow(p, h->size);
    memset(p, 0xdd, h->size);
    if (sim_heap_reuse && b < 63 && cap >= 16) { *(struct hdr **) p = freelist[b]; freelist[b] = h; }
}
void sim_free(void *p)
{
    sim_point(0);
    if (!p) return;
    valid(p, "free");
    free_raw(p);
}
void *sim_realloc(void *p, size_t n)
{
    struct hdr *h; void *q;
    sim_point(0);
    if (!p) return sim_malloc(n);
    h = valid(p, "realloc");
    if (n == 0) { free_raw(p); return 0; }      /* glibc */
    if (n > TOO_BIG) { errno = ENOMEM; return 0; }
    if (sim_fault(FT_MALLOC)) { errno = ENOMEM; return 0; }
    q = alloc_raw(n, 0);
    memcpy(q, p, h->size < n ? h->size : n);
    free_raw(p);
    return q;
}
/* not subject to injected failures: objects the simulated system owns */
void *sim_raw_alloc(size_t n) { return alloc_raw(n, 1); }
void sim_raw_free(void *p) { free_raw(p); }
size_t sim_heap_live(void) { return live; }
size_t sim_heap_live_bytes(void) { return live_bytes; }
size_t sim_heap_size_of(const void *p)
{
    struct hdr *h = hdr_of(p);
    if (!in_heap(p) || ((uint64_t) p & 15) || h->magic != MAGIC) return (size_t) -1;
    return h->size;
}
void sim_heap_dump(void)
{
    struct hdr *h;
    for (h = all_blocks; h; h = h->next)
        if (h->magic == MAGIC) sim_log("live block #%llu of %zu bytes", (unsigned long long) h->serial, h->size);
}
char *sim_strdup(const char *s)
{
    size_t n = strlen(s) + 1; char *d;
    sim_check_range(s, n, 0, "strdup");
    d = sim_malloc(n); if (d) memcpy(d, s, n); return d;
}
char *sim_strndup(const char *s, size_t k)
{
    size_t n = strnlen(s, k); char *d;
    sim_check_range(s, n, 0, "strndup");
    d = sim_malloc(n + 1); if (d) { memcpy(d, s, n); d[n] = 0; } return d;
}
void *sim_reallocarray(void *p, size_t a, size_t b)
{
    if (b && a > (size_t) -1 / b) { errno = ENOMEM; return 0; }
    return sim_realloc(p, a * b);
}
int sim_posix_memalign(void **out, size_t al, size_t n)
{
    void *p = al <= 16 ? sim_malloc(n) : 0;
    if (!p) return ENOMEM;
    *out = p; return 0;
}

/* ---------------------------------------------------------- TLS */
struct emutls { size_t size, align; void *ptr; void *templ; };
void *__emutls_get_address(void *c)
{
    struct emutls *e = c; task *t = sim_cur; int i; char *m;
    if (!t) { static char boot[65536]; return boot; }
    for (i = 0; i < t->ntls; i++) if (t->tls[i].ctl == c) return t->tls[i].mem;
    if (t->ntls == 64) sim_discard("too many thread-local variables");
    m = (char *) (((uint64_t) tls_top + e->align + 15) & ~(uint64_t) (e->align > 16 ? e->align - 1 : 15));
    tls_top = m + e->size + 16;
    if (tls_top > (char *) TLS_BASE + TLS_SIZE) sim_discard("TLS arena full");
    if (e->templ) memcpy(m, e->templ, e->size); else memset(m, 0, e->size);
    t->tls[t->ntls].ctl = c; t->tls[t->ntls].mem = m; t->tls[t->ntls].size = e->size; t->ntls++;
    return m;
}
void mem_tls_release(task *t) { (void) t; /* entries stay; t->st == T_DONE marks them dead */ }

/* ---------------------------------------------------------- access hooks */
#define H(n) \
 void __tsan_read##n(void *p) { access_(p, n, 0, 0); } \
 void __tsan_write##n(void *p) { access_(p, n, 1, 0); } \
 void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, 0); } \
 void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, 0); } \
 void __tsan_volatile_read##n(void *p) { access_(p, n, 0, 1); } \
 void __tsan_volatile_write##n(void *p) { access_(p, n, 1, 1); } \
 void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 0, 1); } \
 void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 1, 1); } \
 void __tsan_read_write##n(void *p) { access_(p, n, 1, 0); } \
 void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 1, 0); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_read_range(void *p, size_t n) { if (n) { sim_point(0); sim_check_range(p, n, 0, 0); } }
void __tsan_write_range(void *p, size_t n) { if (n) { sim_point(0); sim_check_range(p, n, 1, 0); } }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
void __tsan_ignore_thread_begin(void) { }
void __tsan_ignore_thread_end(void) { }
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; }
void __tsan_vptr_read(void **p) { (void) p; }

typedef __int128 i128;
#define A(bits, ty) \
 ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { (void) mo; access_((void *) p, bits / 8, 0, 1); return *p; } \
 void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { (void) mo; access_((void *) p, bits / 8, 1, 1); *p = v; } \
 ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = v; return o; } \
 ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = o + v; return o; } \
 ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = o - v; return o; } \
 ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = o & v; return o; } \
 ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = o | v; return o; } \
 ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = o ^ v; return o; } \
 ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { ty o; (void) mo; access_((void *) p, bits / 8, 1, 1); o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fmo) { (void) mo; (void) fmo; access_((void *) p, bits / 8, 1, 1); \
    if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
 ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fmo) { ty o; (void) mo; (void) fmo; access_((void *) p, bits / 8, 1, 1); o = *p; if (o == e) *p = v; return o; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t) A(128, i128)
void __tsan_atomic_thread_fence(int mo) { (void) mo; sim_point(1); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }

/* ---------------------------------------------------------- checked libc memory and string functions */
static void rd(const void *p, size_t n, const char *w) { if (n) sim_check_range(p, n, 0, w); }
static void wr(void *p, size_t n, const char *w) { if (n) sim_check_range(p, n, 1, w); }
/* length of a string, checking each byte before reading it */
static size_t slen(const char *s, const char *w)
{
    size_t n = 0;
    if (in_heap(s) || in_tls(s) || (uint64_t) s < 65536) { for (;;) { rd(s + n, 1, w); if (!s[n]) return n; n++; } }
    return strlen(s);
}
static void pt(void) { if (sim_cur) sim_point(0); }
static int own_stack(const void *p) { return sim_cur && (char *) p >= sim_cur->stack_lo && (char *) p < sim_cur->stack_hi; }

void *sim_memcpy(void *d, const void *s, size_t n)
{
    if (!(own_stack(d) && own_stack(s))) pt();
    rd(s, n, "memcpy"); wr(d, n, "memcpy");
    if (n > 1 && sim_cur && !sim_nopreempt && !own_stack(d)) {   /* a copy is not atomic */
        memcpy(d, s, n / 2); pt();
        rd((const char *) s + n / 2, n - n / 2, "memcpy"); wr((char *) d + n / 2, n - n / 2, "memcpy");
        memcpy((char *) d + n / 2, (const char *) s + n / 2, n - n / 2);
        return d;
    }
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) { pt(); rd(s, n, "memmove"); wr(d, n, "memmove"); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (!own_stack(d)) pt(); wr(d, n, "memset"); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { pt(); rd(a, n, "memcmp"); rd(b, n, "memcmp"); return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { pt(); rd(a, n, "memchr"); return memchr(a, c, n); }
size_t sim_strlen(const char *s) { pt(); return slen(s, "strlen"); }
size_t sim_strnlen(const char *s, size_t m) { size_t n = 0; pt(); while (n < m) { rd(s + n, 1, "strnlen"); if (!s[n]) break; n++; } return n; }
int sim_strcmp(const char *a, const char *b) { pt(); slen(a, "strcmp"); slen(b, "strcmp"); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { size_t i; pt(); for (i = 0; i < n; i++) { rd(a + i, 1, "strncmp"); rd(b + i, 1, "strncmp"); if (a[i] != b[i] || !a[i]) break; } return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { pt(); slen(a, "strcasecmp"); slen(b, "strcasecmp"); return strcasecmp(a, b); }
char *sim_strchr(const char *s, int c) { pt(); slen(s, "strchr"); return strchr(s, c); }
char *sim_strrchr(const char *s, int c) { pt(); slen(s, "strrchr"); return strrchr(s, c); }
char *sim_strstr(const char *s, const char *t) { pt(); slen(s, "strstr"); slen(t, "strstr"); return strstr(s, t); }
char *sim_strcpy(char *d, const char *s) { size_t n; pt(); n = slen(s, "strcpy") + 1; wr(d, n, "strcpy"); return memcpy(d, s, n); }
char *sim_stpcpy(char *d, const char *s) { size_t n; pt(); n = slen(s, "stpcpy"); wr(d, n + 1, "stpcpy"); memcpy(d, s, n + 1); return d + n; }
char *sim_strcat(char *d, const char *s) { size_t n, m; pt(); m = slen(d, "strcat"); n = slen(s, "strcat") + 1; wr(d + m, n, "strcat"); memcpy(d + m, s, n); return d; }
char *sim_strncpy(char *d, const char *s, size_t n) { pt(); wr(d, n, "strncpy"); sim_strnlen(s, n); return strncpy(d, s, n); }
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    int r; va_list c;
    pt();
    va_copy(c, ap); r = vsnprintf(0, 0, f, c); va_end(c);
    if (r >= 0 && n) wr(d, (size_t) r + 1 < n ? (size_t) r + 1 : n, "vsnprintf");
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char *d, size_t n, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *d, const char *f, va_list ap) { return sim_vsnprintf(d, (size_t) 1 << 30, f, ap); }
int sim_sprintf(char *d, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = sim_vsnprintf(d, (size_t) 1 << 30, f, ap); va_end(ap); return r; }

/* ---------------------------------------------------------- abort, assert */
void os_child_abort(void);
void sim_abort(void)
{
    if (sim_in_child) os_child_abort();
    if (sim_abort_ok && !sim_in_child) {
        if (sim_abort_cb) sim_abort_cb();
        sim_log("abort() as allowed");
        sim_end_ok();
    }
    sim_fail("abort", "abort() called in %s", sim_cur ? sim_cur->name : "?");
}
void sim_assert_fail(const char *e, const char *file, unsigned line, const char *fn)
{
    const char *b = strrchr(file, '/');
    (void) line;
    sim_fail("assert", "assertion failed in %s (%s): %s", fn ? fn : "?", b ? b + 1 : file, e);
}

void sim_stack_chk_fail(void)
{
    sim_fail("memory:out-of-bounds", "a write past the end of a local array");
}
