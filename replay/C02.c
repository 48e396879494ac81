#include "step_common.h"
static void go(int low, int disc, double et, double at, double x, unsigned long cap, unsigned long pushes, unsigned long n, unsigned long Nt) {
    if (isinf(et)) return;
    struct Det d;
    det_make(&d, low, disc, 0.01, et, at, n, Nt, cap, pushes);
    if (!d.s.tail.peaks.container.data) return;
    note("low=%d discard=%d excess_threshold=%a anomaly_threshold=%a x=%a cap=%lu pushes=%lu\n", low, disc, et, at, x, cap, pushes);
    int want;
    if (x != x) want = -ERR_DATA_IS_NAN;
    else if (disc && (low ? x < at : x > at)) want = ANOMALY;
    else if (low ? x <= et : x >= et) want = EXCESS;
    else want = NORMAL;
    int r = spot_step(&d.s, x);
    CHECK(r == want, "got %d want %d", r, want);
    det_free(&d);
}
static double near_(double a) {
    switch (below(6)) { case 0: return a; case 1: return nextafter(a, INFINITY); case 2: return nextafter(a, -INFINITY); case 3: return -a; case 4: return any_double(); default: return a + moderate(); }
}
static void gen_case(void) {
    double et = below(8) ? moderate() : any_double(), at = below(4) ? et + moderate() : any_double();
    unsigned long cap = 1 + below(8);
    go(below(2), below(2), et, at, near_(below(2) ? et : at), cap, below(2 * cap + 1), 1 + below(1000), below(100));
}
static int given_case(void) {
    go((int)kv_u("in_low", 0), (int)kv_u("in_disc", 1), kv_d("in_et", 0), kv_d("in_at", 0), kv_d("in_x", 0), 4, 3, 100, 5);
    return 1;
}
