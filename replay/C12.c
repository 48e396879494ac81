#include "oracle.h"
typedef void (*txt)(char *, unsigned long);
static int g_err;
static void err_(char *b, unsigned long n) { libspot_error(g_err, b, n); }
static void go(int which, int code, unsigned long size) {
    txt fn = which == 0 ? libspot_version : which == 1 ? libspot_license : err_;
    g_err = code;
    static unsigned char full[4096], buf[8192];
    memset(full, 0x5a, sizeof full);
    memset(buf, 0x5a, sizeof buf);
    note("%s code=%d size=%lu\n", which == 0 ? "version" : which == 1 ? "license" : "error", code, size);
    int known = which < 2 || (code >= ERR_MEMORY_ALLOCATION_FAILED && code <= ERR_DATA_IS_NAN);
    fn((char *)full, 2048);
    size_t L = 0;
    while (L < 2048 && full[L] && full[L] != 0x5a) L++;
    if (known) {
        if (which == 0) CHECK(!strcmp((char *)full, VERSION), "text %.40s", full);
        if (which == 1) CHECK(!strcmp((char *)full, LICENSE), "text %.40s", full);
        CHECK(L > 0 && full[L] == 0, "no text");
        if (which == 2) for (int c = ERR_MEMORY_ALLOCATION_FAILED; c <= ERR_DATA_IS_NAN; c++) if (c != code) {
            static char o[2048]; libspot_error(c, o, 2048);
            CHECK(strcmp(o, (char *)full), "codes %d and %d share a message", c, code);
        }
    }
    fn((char *)buf + 100, size);
    for (size_t i = 0; i < sizeof buf; i++) {
        int in = i >= 100 && i < 100 + size;
        unsigned char want = 0x5a;
        if (in && known) { size_t j = i - 100; want = (j < L && j + 1 < size) ? full[j] : 0; }
        if (buf[i] != want) { CHECK(0, "byte %ld is %d, expected %d", (long)i - 100, buf[i], want); break; }
    }
    fn(0, size); /* tolerated */
}
static void gen_case(void) {
    int which = below(3);
    int code = below(4) ? (int)(999 + below(9)) : (int)rnd();
    unsigned long s;
    switch (below(4)) { case 0: s = below(4); break; case 1: s = 4000 + below(3000); break; default: s = below(120); }
    go(which, code, s);
}
static int given_case(void) {
    unsigned long s = kv_u("in_size", 0);
    if (s > 7000) s = 7000;
    for (int w = 0; w < 3; w++) go(w, (int)kv_u("in_err", ERR_DATA_IS_NAN), s);
    return 1;
}
