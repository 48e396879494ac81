/* C05: after any history of insertions the statistics are those of the stored values */
#include "oracle.h"
#include "tail.h"
static double pat(int kind, unsigned i) {
    switch (kind) {
    case 0: return moderate();
    case 1: return (double)i;
    case 2: return -(double)i * 0.5;
    case 3: return (double)below(4);
    case 4: return 2.5;
    case 5: return fabs(moderate());
    case 6: return (i % 7) ? 1.0 + u01() : 100.0 * u01();
    default: return (below(4) ? 1.0 : -1.0) * exp(6 * u01() - 3);
    }
}
static void gen_case(void) {
    struct Tail t;
    memset(&t, 0x5a, sizeof t);
    set_allocators(n_malloc, n_free);
    unsigned long cap = 1 + (below(4) ? below(6) : below(40));
    if (below(500) == 0) cap = 40 + below(1500);
    unsigned n = below(3) ? below(3 * cap + 6) : below(200);
    int kind = below(8), api = below(2), huge = !below(4);
    int rc = api ? tail_init(&t, cap) : peaks_init(&t.peaks, cap);
    struct Peaks *p = &t.peaks;
    CHECK(rc == 0, "init of %lu values returned %d", cap, rc);
    if (rc != 0) return;
    CHECK(p->e == 0 && p->e2 == 0 && p->min != p->min && p->max != p->max && peaks_size(p) == 0,
          "statistics of an empty window: e=%g e2=%g min=%g max=%g size=%lu", p->e, p->e2, p->min, p->max, peaks_size(p));
    double *h = malloc(sizeof(double) * (n + 1));
    long double tot = 0, tot2 = 0;
    note("capacity %lu, values:", cap);
    for (unsigned i = 0; i < n && !failed_case; i++) {
        double x = pat(kind, i);
        if (below(20) == 0) x = pat(below(8), i);
        if (huge && below(6) == 0) x *= pow(10, below(40));
        h[i] = x;
        note(" %.17g", x);
        tot += fabsl(x); tot2 += (long double)x * x;
        if (api) tail_push(&t, x); else peaks_push(p, x);
        unsigned long m = i + 1 < cap ? i + 1 : cap;
        long double e = 0, e2 = 0;
        double mn = INFINITY, mx = -INFINITY;
        for (unsigned long k = i + 1 - m; k <= i; k++) {
            e += h[k]; e2 += (long double)h[k] * h[k];
            if (h[k] < mn) mn = h[k];
            if (h[k] > mx) mx = h[k];
        }
        if (i >= m && m == cap && !(mn < h[i - cap] && h[i - cap] < mx)) {
            /* a value that bounded the window has left: earlier rounding is forgotten */
            tot = tot2 = 0;
            for (unsigned long k = i + 1 - m; k <= i; k++) { tot += fabsl(h[k]); tot2 += (long double)h[k] * h[k]; }
        }
        CHECK(peaks_size(p) == m, "size %lu instead of %lu", peaks_size(p), m);
        CHECK(p->min == mn, "minimum %.17g instead of %.17g", p->min, mn);
        CHECK(p->max == mx, "maximum %.17g instead of %.17g", p->max, mx);
        CHECK(fabsl(p->e - e) <= 1e-12L * tot, "sum %.17g instead of %.17Lg", p->e, e);
        CHECK(fabsl(p->e2 - e2) <= 1e-12L * tot2, "sum of squares %.17g instead of %.17Lg", p->e2, e2);
        long double mean = e / m, var = e2 / m - mean * mean;
        CHECK(fabsl(peaks_mean(p) - mean) <= 2e-12L * tot / m, "mean %.17g instead of %.17Lg", peaks_mean(p), mean);
        CHECK(fabsl(peaks_var(p) - var) <= 4e-12L * (tot2 / m + tot * tot / m / m), "variance %.17g instead of %.17Lg", peaks_var(p), var);
    }
    note("\n");
    free(h);
    peaks_free(p);
}
static int given_case(void) { return 0; }
