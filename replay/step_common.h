#include "oracle.h"
/* an arbitrary well-formed detector with an independent copy of its window */
struct Det { struct Spot s; double *win; };
static void det_make(struct Det *d, int low, int disc, double q, double et, double at,
                     unsigned long n, unsigned long Nt, unsigned long cap, unsigned long pushes) {
    set_allocators(n_malloc, n_free);
    if (spot_init(&d->s, q, low, disc, 0.5, cap) != 0) { memset(&d->s, 0, sizeof d->s); d->s.tail.peaks.container.data = 0; return; }
    for (unsigned long i = 0; i < pushes; i++)
        tail_push(&d->s.tail, fabs(moderate()) + (below(3) ? 0.01 : 0));
    if (pushes) tail_fit(&d->s.tail);
    d->s.excess_threshold = et;
    d->s.anomaly_threshold = at;
    d->s.n = n;
    d->s.Nt = Nt;
}
static void det_free(struct Det *d) { if (d->s.tail.peaks.container.data) spot_free(&d->s); }
