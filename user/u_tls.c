/* User-side code of cork_tls, compiled twice: with the default implementation
 * and, as VARIANT_TLS_KEY, with the pthread-key one (instrumented). */
#if defined(VARIANT_TLS_KEY)
#include "libcork/config.h"
#undef CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS
#define CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS 0
#endif
#include "libcork/core.h"
#include "libcork/threads.h"
#include "u.h"

#if defined(VARIANT_TLS_KEY)
#define N(x) u_tls_key_##x
#define V 1
#else
#define N(x) u_tls_std_##x
#define V 0
#endif

struct big { char c[200]; };
struct owned { long id; char pad[40]; };
cork_tls(int, small)
cork_tls(struct big, big)
cork_tls(void *, ptr)
#define own_alloc() u_tls_alloc(V, sizeof(struct owned))
#define own_free(p) u_tls_free(V, p)
cork_tls_with_alloc(struct owned, owned, own_alloc, own_free)

void *N(get)(int i)
{
    switch (i) {
    case 0: return small_get();
    case 1: return big_get();
    case 2: return ptr_get();
    default: return owned_get();
    }
}
size_t N(size)(int i) { return i == 0 ? sizeof(int) : i == 1 ? sizeof(struct big) : i == 2 ? sizeof(void *) : sizeof(struct owned); }
int N(is_key)(void) { return CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS == 0; }
void N(poke)(int i, const void *v) { char *d = N(get)(i); const char *s = v; size_t k; for (k = 0; k < N(size)(i); k++) d[k] = s[k]; }
