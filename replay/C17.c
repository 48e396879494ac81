/* C17: the quantile estimate stays within the batch */
#include "oracle.h"
#ifdef INSIDE
#include INSIDE
#endif
static int cmpd(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return (x > y) - (x < y); }
static void gen_case(void) {
    unsigned long size = below(3) ? below(14) : below(120);
    if (below(6) == 0) size = 5;
    if (below(300) == 0) size = 100 + below(20000);
    double *d = malloc((size + 1) * sizeof(double)), *c = malloc((size + 1) * sizeof(double));
    double p = below(4) == 0 ? (double)below(5) / 4 : u01();
    int kind = below(9);
    note("p=%.17g batch:", p);
    for (unsigned long i = 0; i < size; i++) {
        double x;
        switch (kind) {
        case 0: x = moderate(); break;
        case 1: x = (double)i; break;
        case 2: x = -(double)i; break;
        case 3: x = (double)below(3); break;
        case 4: x = 4.0; break;
        case 5: x = (i % 2 ? 1.0 : -1.0) * (double)i; break;
        case 6: x = i < 5 ? 1 : u01(); break;
        case 7: x = below(4) ? u01() : 1e6 * moderate(); break;
        default: x = exp(10 * u01() - 5);
        }
        if (below(10) == 0 && i) x = d[below(i)];
        d[i] = c[i] = x;
        note(" %.17g", x);
    }
    note("\n");
    double r = p2_quantile(p, d, size);
    note("estimate %.17g\n", r);
    for (unsigned long i = 0; i < size; i++) CHECK(same(d[i], c[i]), "the batch was modified");
    qsort(c, size, sizeof *c, cmpd);
    if (size < 5) CHECK(r != r, "estimate %.17g for %lu values", r, size);
    else {
        double sl = 1e-12 * (fabs(c[0]) + fabs(c[size - 1]));
        CHECK(r >= c[0] - sl && r <= c[size - 1] + sl, "estimate %.17g out of [%.17g, %.17g]", r, c[0], c[size - 1]);
        if (size == 5) CHECK(r == c[2], "five values: estimate %.17g, median %.17g", r, c[2]);
    }
#ifdef INSIDE
    /* the running estimates after each prefix of a short batch */
    double mn = INFINITY, mx = -INFINITY;
    for (unsigned long j = 0; j < size && j < 60 && !failed_case; j++) {
        if (d[j] < mn) mn = d[j];
        if (d[j] > mx) mx = d[j];
        if (j < 4) continue;
        struct P2 m;
        init_p2(&m, p);
        quantile(&m, d, j + 1);
        for (int k = 0; k < 4; k++)
            CHECK(m.q[k] <= m.q[k + 1] + 1e-12 * (fabs(mn) + fabs(mx)), "running estimates cross after %lu values: %.17g %.17g %.17g %.17g %.17g", j + 1, m.q[0], m.q[1], m.q[2], m.q[3], m.q[4]);
        CHECK(m.q[0] == mn && m.q[4] == mx, "first and last estimate after %lu values: %.17g %.17g, range of the values [%.17g, %.17g]", j + 1, m.q[0], m.q[4], mn, mx);
    }
#endif
    free(d); free(c);
}
static int given_case(void) { return 0; }
