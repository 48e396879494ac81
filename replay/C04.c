#include "step_common.h"
static void go(unsigned long cap, unsigned long total, int level) {
    set_allocators(n_malloc, n_free);
    struct Tail t;
    if (tail_init(&t, cap) != 0) { CHECK(0, "init of capacity %lu", cap); return; }
    struct Ubend *u = &t.peaks.container;
    double *h = malloc((total + 1) * 8), *old = malloc(cap * 8), *got = malloc(cap * 8);
    note("capacity %lu, %lu insertions (through %s)\n", cap, total, level == 0 ? "ubend_push" : level == 1 ? "peaks_push" : "tail_push");
    for (unsigned long i = 0; i < total && !failed_case; i++) {
        double x = h[i] = (below(4) == 0 && i) ? h[below(i)] : below(6) == 0 ? fabs(special()) : fabs(moderate());
        int all = cap < 50 || i + 1 == total; /* large windows: the whole content at the end only */
        if (all) memcpy(old, u->data, cap * 8);
        unsigned long osz = i < cap ? i : cap;
        double er = NAN;
        if (level == 0) er = ubend_push(u, x);
        else if (level == 1) { peaks_push(&t.peaks, x); er = u->last_erased_data; }
        else { tail_push(&t, x); er = u->last_erased_data; }
        unsigned long sz = i + 1 < cap ? i + 1 : cap;
        CHECK(ubend_size(u) == sz && peaks_size(&t.peaks) == sz, "size %lu after %lu insertions", ubend_size(u), i + 1);
        if (osz == cap) CHECK(er == h[i - cap], "erased %a, the oldest was %a", er, h[i - cap]);
        else CHECK(er != er, "erased %a while the window was not full", er);
        if (all && osz < cap) for (unsigned long k = 0; k < osz; k++) CHECK(same(old[k], u->data[k]), "slot %lu overwritten", k);
        if (!all) continue;
        /* multiset equality with the last sz values */
        memcpy(got, u->data, sz * 8);
        for (unsigned long j = i + 1 - sz; j <= i; j++) {
            unsigned long k;
            for (k = 0; k < sz; k++) if (same(got[k], h[j])) break;
            CHECK(k < sz, "value %a (insertion %lu) is missing", h[j], j);
            if (k < sz) got[k] = from_bits(0x7ff8dead00000000ull + j);
        }
    }
    free(h); free(old); free(got);
    tail_free(&t);
}
static void gen_case(void) { unsigned long cap = 1 + below(below(8) ? 6 : 40); if (below(3000) == 0) cap = 40 + below(below(3) ? 500 : 5000); go(cap, below(4 * cap + 3), (int)below(3)); }
static int given_case(void) { go(kv_u("in_cap", 3) % 50 + 1, 200, 0); go(1, 5, 0); go(2, 9, 0); return 1; }
