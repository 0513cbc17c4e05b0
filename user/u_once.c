/* User-side code of the one-time initialisation macros (instrumented). */
#include "libcork/core.h"
#include "libcork/threads.h"
#include "u.h"

#define NP 3
volatile int u_once_data[2][NP][4];

static void body(int rec, int k, int depth);

#define PT(n) \
    cork_once_barrier(p##n); \
    static void init_p##n(void) { body(0, n, 0); } \
    static void reach_p##n(void) { cork_once(p##n, init_p##n()); } \
    cork_once_barrier(r##n); \
    static void init_r##n(void) { body(1, n, 0); } \
    static void reach_r##n(void) { cork_once_recursive(r##n, init_r##n()); }
PT(0) PT(1) PT(2)

static void body(int rec, int k, int depth)
{
    int i;
    once_init_begin(rec, k);
    for (i = 0; i < 4; i++) {
        u_once_data[rec][k][i]++;
        if (rec) once_maybe_recurse(k, i);
    }
    once_maybe_nested(rec, k);
    once_init_end(rec, k);
}
void u_once_reach(int rec, int k)
{
    if (rec) { if (k == 0) reach_r0(); else if (k == 1) reach_r1(); else reach_r2(); }
    else { if (k == 0) reach_p0(); else if (k == 1) reach_p1(); else reach_p2(); }
}
