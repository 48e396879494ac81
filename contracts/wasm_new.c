/* C11: wasm/main.c.  spot_new returns a structure that can be released even
 * if its creation fails, and libspot_init installs allocators. */
#include "spec.h"
u64 g_k;
struct Spot *spot_new(void);
u64 spot_size(void);
void h_new(void) {
    struct Spot *s = spot_new();
    if (s) {
        __CPROVER_assert(__CPROVER_rw_ok(s, sizeof(*s)), "spot_new: a whole detector");
        __CPROVER_assert(s->tail.peaks.container.data == 0,
                         "spot_new: nothing to release before creation");
        __CPROVER_assert(s->low == 0 && s->discard_anomalies == 0 && s->n == 0 &&
                         s->Nt == 0, "spot_new: zeroed");
    }
    PROBE(s != 0, "a structure is obtained");
    __CPROVER_assert(spot_size() == sizeof(struct Spot), "spot_size");
}
