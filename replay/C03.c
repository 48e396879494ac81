#include "step_common.h"
static void go(int low, int disc, double q, double et, double at, double x, unsigned long cap, unsigned long pushes, unsigned long n, unsigned long Nt) {
    if (isinf(et)) return;
    struct Det d;
    det_make(&d, low, disc, q, et, at, n, Nt, cap, pushes);
    if (!d.s.tail.peaks.container.data) return;
    note("low=%d discard=%d q=%a excess_threshold=%a anomaly_threshold=%a x=%a cap=%lu pushes=%lu n=%lu Nt=%lu\n", low, disc, q, et, at, x, cap, pushes, n, Nt);
    struct Spot o = d.s;
    struct Ubend *u = &d.s.tail.peaks.container, *ou = &o.tail.peaks.container;
    double *w = malloc(cap * 8), *w2 = malloc(cap * 8);
    memcpy(w, u->data, cap * 8);
    int r = spot_step(&d.s, x);
    /* what no step changes */
    CHECK(same(o.q, d.s.q) && same(o.level, d.s.level) && o.low == d.s.low && o.discard_anomalies == d.s.discard_anomalies && same(o.__up_down, d.s.__up_down) && same(o.excess_threshold, d.s.excess_threshold), "constant fields");
    CHECK(u->data == ou->data && u->capacity == cap, "storage");
    if (r != EXCESS) {
        struct Spot z = o;
        if (r == NORMAL) z.n++;
        CHECK(z.n == d.s.n && z.Nt == d.s.Nt, "counters n=%lu Nt=%lu after verdict %d", d.s.n, d.s.Nt, r);
        CHECK(!memcmp(&z.tail, &d.s.tail, sizeof z.tail) && same(z.anomaly_threshold, d.s.anomaly_threshold), "model changed by verdict %d", r);
        CHECK(!memcmp(w, u->data, cap * 8), "window changed by verdict %d", r);
    } else {
        double dist = low ? et - x : x - et;
        CHECK(d.s.n == o.n + 1 && d.s.Nt == o.Nt + 1, "n=%lu Nt=%lu", d.s.n, d.s.Nt);
        memcpy(w2, w, cap * 8);
        w2[ou->cursor] = dist;
        unsigned long c = ou->cursor + 1 == cap ? 0 : ou->cursor + 1;
        int fl = ou->filled || ou->cursor + 1 == cap;
        CHECK(u->cursor == c && u->filled == fl, "cursor=%lu filled=%d", u->cursor, u->filled);
        for (unsigned long i = 0; i < (fl ? cap : c); i++)
            CHECK(numeq(w2[i], u->data[i]), "slot %lu is %a, expected %a", i, u->data[i], w2[i]);
        /* refit on a copy of the window: same parameters */
        struct Tail t = d.s.tail;
        t.gamma = t.sigma = 42.0;
        tail_fit(&t);
        CHECK(numeq(t.gamma, d.s.tail.gamma) && numeq(t.sigma, d.s.tail.sigma), "gamma=%a sigma=%a, a fit of the window gives %a %a", d.s.tail.gamma, d.s.tail.sigma, t.gamma, t.sigma);
        double s = (double)d.s.Nt / (double)d.s.n;
        double zq = et + (low ? -1.0 : 1.0) * tail_quantile(&d.s.tail, s, q);
        CHECK(close_rel(zq, d.s.anomaly_threshold, 1e-12, 1e-300), "anomaly threshold %a, expected %a", d.s.anomaly_threshold, zq);
    }
    free(w); free(w2);
    det_free(&d);
}
static double near_(double a) {
    switch (below(6)) { case 0: return a; case 1: return nextafter(a, INFINITY); case 2: return nextafter(a, -INFINITY); case 3: return -a; case 4: return any_double(); default: return a + moderate(); }
}
static void gen_case(void) {
    double et = below(8) ? moderate() : any_double(), at = below(4) ? et + moderate() : any_double();
    unsigned long cap = 1 + below(8);
    /* counters: small, at a limit of a narrower type, or anything */
    unsigned long n = below(20) ? 1 + below(1000) : rnd(), Nt = below(100);
    if (below(20) == 0) { static const int W[] = {8, 15, 16, 24, 31, 32, 52}; Nt = (1UL << W[below(7)]) - 1 - below(2); n = Nt + below(2) * below(100000); }
    go(below(2), below(2), below(2) ? 0.01 : u01() * 0.49 + 1e-9, et, at, near_(below(2) ? et : at), cap, below(3 * cap + 1), n, Nt);
}
static int given_case(void) {
    go((int)kv_u("in_low", 0), (int)kv_u("in_disc", 1), 0.01, kv_d("in_et", 0), kv_d("in_at", 0), kv_d("in_x", 0), 4, kv_u("in_filled", 0) ? 6 : 2, kv_u("in_n", 100), kv_u("in_Nt", 5));
    return 1;
}
