/* Shared vocabulary of the contracts.  Nothing here replaces code of /repo:
 * the functions verified are the ones compiled from /repo/src on every run,
 * these are contracts on their declarations and ghost state. */
#ifndef VP_SPEC_H
#define VP_SPEC_H
#include "spot.h"

typedef unsigned long u64;

/* identical values (same bits, NaN equal to itself) */
#define SAME(a, b) __CPROVER_equal((double)(a), (double)(b))
#define ISNAN(a) ((a) != (a))
/* numerically equal, NaN equal to NaN */
#define NUMEQ(a, b) (((a) == (b)) || (ISNAN(a) && ISNAN(b)))

/* object sizes CBMC can address (stated bound of the memory model: a window
 * of 2^48 doubles is larger than any address space in use) */
#define MAXCAP (1UL << 48)

/* representation invariant of the window */
#define UB_INV(u)                                                             \
    ((u)->capacity >= 1 && (u)->capacity <= MAXCAP &&                         \
     (u)->cursor < (u)->capacity && ((u)->filled == 0 || (u)->filled == 1))
#define UB_SIZE(u) ((u)->filled ? (u)->capacity : (u)->cursor)

/* detector invariant: what spot_init establishes (C01) */
#define SPOT_INV(s)                                                           \
    (((s)->low == 0 && (s)->__up_down == 1.0) ||                              \
     ((s)->low == 1 && (s)->__up_down == -1.0))

/* an arbitrary ghost index: a statement about data[g_k] is a statement about
 * every slot of the window */
extern u64 g_k;

#define PROBE(c, name) __CPROVER_assert(!(c), "VACUITY: " name)
#endif
