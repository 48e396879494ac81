#include "step_common.h"
static unsigned mcalls, fcalls; static size_t msize; static void *mblock, *fblock; static int deny;
static void *m(__SIZE_TYPE__ n) { mcalls++; msize = n; mblock = deny ? 0 : malloc(n); return mblock; }
static void f(void *p) { fcalls++; fblock = p; }
static void gen_case(void) {
    struct Spot s;
    memset(&s, below(256), sizeof s);
    int hasm = below(6) != 0, hasf = below(6) != 0;
    deny = below(6) == 0;
    mcalls = fcalls = 0; mblock = fblock = 0;
    set_allocators(hasm ? m : 0, hasf ? f : 0);
    unsigned long max = below(8) ? 1 + below(12) : below(2) ? 0 : (1ul << 61) + below(3);
    double level = 0.5 * u01() + 0.3;
    if (max > 1000) deny = 1;
    note("allocator %s/%s%s max_excess=%lu\n", hasm ? "set" : "missing", hasf ? "set" : "missing", deny ? " (fails)" : "", max);
    int r = spot_init(&s, 0.001, below(2), below(2), level, max);
    int okmem = hasm && !deny && max >= 1 && max < 1000;
    CHECK(r == (okmem ? 0 : -ERR_MEMORY_ALLOCATION_FAILED), "creation returned %d", r);
    if (okmem) CHECK(mcalls == 1 && msize == max * 8, "%u requests, last of %zu bytes", mcalls, msize);
    else CHECK(mcalls <= 1, "%u requests", mcalls);
    unsigned mc = mcalls;
    void *blk = mblock;
    if (r == 0) {
        double data[64];
        unsigned long n = below(64);
        for (unsigned long i = 0; i < n; i++) data[i] = moderate();
        spot_fit(&s, data, n);
        for (int i = 0; i < 20; i++) { spot_step(&s, any_double()); spot_quantile(&s, 0.001); spot_probability(&s, 3); }
        char buf[100]; libspot_error(ERR_DATA_IS_NAN, buf, 100); libspot_version(buf, 100);
        CHECK(mcalls == mc, "%u further requests", mcalls - mc);
        CHECK(fcalls == 0, "%u releases before the end", fcalls);
    }
    if (below(3) == 0) {
        hasm = below(2); hasf = below(2);
        set_allocators(hasm ? m : 0, hasf ? f : 0);
        note("then allocator %s/%s\n", hasm ? "set" : "missing", hasf ? "set" : "missing");
    }
    spot_free(&s);
    if (okmem && hasf) CHECK(fcalls == 1 && fblock == blk, "%u releases", fcalls);
    else CHECK(fcalls == 0, "%u releases of nothing", fcalls);
    spot_free(&s);
    if (okmem && hasf) CHECK(fcalls == 1, "released %u times", fcalls);
    else CHECK(fcalls == 0, "%u releases of nothing", fcalls);
    CHECK(mcalls == mc, "further requests");
    free(blk);
    set_allocators(n_malloc, n_free);
}
static int given_case(void) { for (int i = 0; i < 3000 && !failed_case; i++) run_n(i); return 1; }
