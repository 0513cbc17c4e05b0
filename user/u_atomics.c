/* User-side code of the atomic operation macros (instrumented). */
#include "libcork/core.h"
#include "libcork/threads.h"
#include "u.h"

volatile int u_at_int[2]; volatile unsigned int u_at_uint[2]; volatile size_t u_at_size[2]; void * volatile u_at_ptr[2];

#define OPS(T, name, var) \
    switch (op) { \
    case 0: return (uint64_t) cork_##name##_atomic_add(&var, (T) a); \
    case 1: return (uint64_t) cork_##name##_atomic_pre_add(&var, (T) a); \
    case 2: return (uint64_t) cork_##name##_atomic_sub(&var, (T) a); \
    case 3: return (uint64_t) cork_##name##_atomic_pre_sub(&var, (T) a); \
    default: return (uint64_t) cork_##name##_cas(&var, (T) a, (T) b); \
    }
uint64_t u_atomic(int kind, int op, int v, uint64_t a, uint64_t b)
{
    switch (kind) {
    case 0: OPS(int, int, u_at_int[v])
    case 1: OPS(unsigned int, uint, u_at_uint[v])
    case 2: OPS(size_t, size, u_at_size[v])
    default: return (uint64_t) cork_ptr_cas(&u_at_ptr[v], (void *) a, (void *) b);
    }
}
