/* C14: root search on arbitrary functions */
#include "oracle.h"
#include "brent.h"
static int kind;
static double P1, P2, P3, P4;
static double ev_x[4096], ev_f[4096];
static int evals;
static double val(double x) {
    double z = x - P1;
    switch (kind) {
    case 0: return P2 * z;
    case 1: return z * z * z * P2;
    case 2: return z > 0 ? P2 : -P3;                 /* step */
    case 3: return fabs(z) < P4 ? 0 : z * P2;        /* flat zero part */
    case 4: return exp(P2 * z) - 1;
    case 5: return z * (x - P3) * (x - P4);
    case 6: return sin(P2 * x + P3);
    case 7: return z > 0 ? P2 * z + 1e-300 : -1e6;
    case 8: return z >= 0 ? sqrt(z) : -1e-12;
    case 9: { uint64_t h = to_bits(x) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
              return ((double)(h >> 11) * 0x1p-53 - 0.5) * ((h & 7) ? 1 : 1e-9); }  /* erratic */
    case 10: return P2 * pow(fabs(z), 0.2) * (z > 0 ? 1 : -1);
    case 11: return x * x + P2 * P2;                 /* no root */
    case 12: return pow(z, 9);
    default: return tanh(P2 * 50 * z) + (z > 0 ? 1e-3 : -1e-3);
    }
}
static double cb(double x, void *extra) {
    double f = val(x);
    if (f != f) f = 1;
    if (evals < 4096) { ev_x[evals] = x; ev_f[evals] = f; }
    evals++;
    if (extra != (void *)&evals) { CHECK(0, "extra argument not passed"); }
    return f;
}
static int sg(double f) { return (f > 0) - (f < 0); }
static void gen_case(void) {
    kind = below(14);
    P1 = moderate(); P2 = (below(2) ? 1 : -1) * exp(6 * u01() - 3); P3 = moderate(); P4 = fabs(moderate());
    double x1 = below(3) ? P1 - exp(6 * u01() - 4) : moderate(), x2 = below(3) ? P1 + exp(6 * u01() - 4) : moderate();
    if (below(2)) { double t = x1; x1 = x2; x2 = t; }
    if (below(20) == 0) x2 = x1;
    if (below(20) == 0) x1 = P1;
    if (below(20) == 0) x2 = P1;
    double tol = below(4) == 0 ? 0 : exp(-25 * u01());
    if (below(3) == 0) tol = 2e-8;
    int found = 77;
    evals = 0;
    note("function %d (%.17g %.17g %.17g %.17g) bracket [%.17g, %.17g] tol %.17g\n", kind, P1, P2, P3, P4, x1, x2, tol);
    double r = brent(&found, x1, x2, cb, &evals, tol);
    note("root %.17g found %d evaluations %d\n", r, found, evals);
    CHECK(evals <= 202, "%d evaluations", evals);
    CHECK(found == 0 || found == 1, "found flag %d", found);
    double f1 = val(x1), f2 = val(x2);
    if (f1 != f1) f1 = 1;
    if (f2 != f2) f2 = 1;
    if (sg(f1) * sg(f2) > 0) CHECK(found == 0, "root reported although the function has the same sign at both ends");
    if (found == 1) {
        double lo = fmin(x1, x2), hi = fmax(x1, x2), sl = 1e-14 * (fabs(lo) + fabs(hi));
        CHECK(r >= lo - sl && r <= hi + sl, "root %.17g out of the bracket", r);
        double f = val(r);
        if (f != f) f = 1;
        int ok = f == 0;
        double d = (4 * 2e-8 * fabs(r) + tol) * (1 + 1e-9) + 1e-300;
        for (int i = 0; i < evals && i < 4096 && !ok; i++)
            ok = fabs(ev_x[i] - r) <= d && sg(ev_f[i]) * sg(f) <= 0 && ev_x[i] >= lo - sl && ev_x[i] <= hi + sl;
        CHECK(ok, "function value %.17g at the root, no opposite sign within %.3g", f, d);
    }
}
static int given_case(void) { return 0; }
