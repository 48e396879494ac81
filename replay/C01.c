#include "oracle.h"
static unsigned calls; static size_t last; static void *block; static int deny;
static void *m(__SIZE_TYPE__ n) { calls++; last = n; block = (deny || n > (1ul << 34)) ? 0 : malloc(n ? n : 1); return block; }
static void f(void *p) { free(p); }
static void go(double q, int low, int disc, double level, unsigned long max) {
    struct Spot s;
    memset(&s, 0xa5, sizeof s);
    calls = 0; block = 0;
    set_allocators(m, f);
    note("spot_init(q=%a low=%d discard=%d level=%a max_excess=%lu) allocator %s\n", q, low, disc, level, max, deny ? "fails" : "works");
    int r = spot_init(&s, q, low, disc, level, max);
    int lv = level >= 0.0 && level < 1.0, qq = q > 0.0 && q < 1.0 - level;
    int want;
    if (!lv) want = -ERR_LEVEL_OUT_OF_BOUNDS;
    else if (!qq) want = -ERR_Q_OUT_OF_BOUNDS;
    else if (!(calls == 1 && block && max >= 1 && max <= SIZE_MAX / 8 && last == max * 8)) want = -ERR_MEMORY_ALLOCATION_FAILED;
    else want = 0;
    CHECK(r == want, "got %d want %d", r, want);
    if (!lv || !qq) CHECK(calls == 0, "%u requests", calls);
    else if (max >= 1 && max <= SIZE_MAX / 8) CHECK(calls == 1 && last == max * 8, "%u requests, last %zu", calls, last);
    if (r == 0) {
        struct Ubend *u = &s.tail.peaks.container;
        CHECK(s.q == q && s.level == level, "q=%a level=%a", s.q, s.level);
        CHECK(s.low == !!low && s.discard_anomalies == !!disc, "low=%d discard=%d", s.low, s.discard_anomalies);
        CHECK(s.__up_down == (low ? -1.0 : 1.0), "side %g", s.__up_down);
        CHECK(s.n == 0 && s.Nt == 0, "n=%lu Nt=%lu", s.n, s.Nt);
        CHECK(s.anomaly_threshold != s.anomaly_threshold && s.excess_threshold != s.excess_threshold, "thresholds %g %g", s.anomaly_threshold, s.excess_threshold);
        CHECK(s.tail.gamma != s.tail.gamma && s.tail.sigma != s.tail.sigma, "tail %g %g", s.tail.gamma, s.tail.sigma);
        CHECK(u->capacity == max && u->cursor == 0 && u->filled == 0 && ubend_size(u) == 0, "cap=%lu cursor=%lu filled=%d", u->capacity, u->cursor, u->filled);
        CHECK(u->last_erased_data != u->last_erased_data, "last erased %g", u->last_erased_data);
        CHECK(s.tail.peaks.e == 0 && s.tail.peaks.e2 == 0, "sums %g %g", s.tail.peaks.e, s.tail.peaks.e2);
        CHECK((void *)u->data == block, "data");
    }
    free(block);
}
static void gen_case(void) {
    double level, q;
    switch (below(4)) { case 0: level = any_double(); break; case 1: level = special(); break; default: level = u01(); }
    switch (below(5)) { case 0: q = any_double(); break; case 1: q = 1.0 - level; break; case 2: q = nextafter(1.0 - level, below(2) ? -9 : 9); break; case 3: q = u01() * (1 - level); break; default: q = special(); }
    unsigned long max;
    switch (below(6)) { case 0: max = 0; break; case 1: max = 1; break; case 2: max = rnd(); break; case 3: max = SIZE_MAX / 8 + below(3); break; case 4: max = 1ul << (61 + below(3)); break; default: max = below(1000); }
    deny = below(5) == 0;
    int ints[] = {0, 1, -1, 2, 256, 65536, (int)rnd(), 1 << 31};
    go(q, ints[below(8)], ints[below(8)], level, max);
}
static int given_case(void) {
    go(kv_d("in_q", 0.01), (int)kv_u("in_low", 0), (int)kv_u("in_disc", 1), kv_d("in_level", 0.9), kv_u("in_max", 10));
    return 1;
}
