/* callbacks and entry points between checks/ and user/ */
#ifndef U_H
#define U_H
#include <stddef.h>
#include <stdint.h>
/* once */
extern volatile int u_once_data[2][3][4];
void u_once_reach(int rec, int k);
void once_init_begin(int rec, int k);
void once_init_end(int rec, int k);
void once_maybe_recurse(int k, int i);
void once_maybe_nested(int rec, int k);
/* atomics: kind 0 int, 1 uint, 2 size, 3 ptr; op 0 add 1 pre_add 2 sub 3 pre_sub 4 cas */
extern volatile int u_at_int[2]; extern volatile unsigned int u_at_uint[2]; extern volatile size_t u_at_size[2]; extern void * volatile u_at_ptr[2];
uint64_t u_atomic(int kind, int op, int var, uint64_t a, uint64_t b);
/* thread-local variables: 0 int, 1 200-byte struct, 2 pointer, 3 with own allocation functions */
#define U_TLS(v) void *u_tls_##v##_get(int i); size_t u_tls_##v##_size(int i); int u_tls_##v##_is_key(void); void u_tls_##v##_poke(int i, const void *val);
U_TLS(std) U_TLS(key)
void *u_tls_alloc(int variant, size_t n);
void u_tls_free(int variant, void *p);
/* independent objects */
#define U_KINDS 22
#define U_ALL ((1u << U_KINDS) - 1)
uint64_t u_indep(uint64_t seed, int sections, uint32_t mask);
void u_indep_step(int kind, uint64_t digest);
#endif
