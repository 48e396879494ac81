/* C04: the window is the last min(capacity, N) inserted values.
 *
 * The history of insertions is the ghost function H (H(i) is the i-th value
 * inserted since the creation), g_n the ghost number of insertions.  The
 * representation invariant relates the real structure to that history; it is
 * established by ubend_init with g_n = 0 (proved here) and preserved by
 * ubend_push for every capacity and every history (proved here), so it holds
 * after every sequence of insertions. */
#include "spec.h"

u64 g_k;
u64 g_n;    /* number of insertions so far */
u64 g_base; /* g_n rounded down to a multiple of the capacity */
double __CPROVER_uninterpreted_H(u64 i);
#define H(i) __CPROVER_uninterpreted_H(i)

/* every stored slot k (arbitrary ghost slot) holds the right value */
#define SLOT(u, k)                                                            \
    ((k) >= UB_SIZE(u) ||                                                     \
     SAME((u)->data[k], H((k) < (u)->cursor ? g_base + (k)                    \
                                            : g_base - (u)->capacity + (k))))
#define HIST(u)                                                               \
    (g_n == g_base + (u)->cursor && (u)->cursor < (u)->capacity &&            \
     ((u)->filled ? (g_base >= (u)->capacity)        \
                  : (g_base == 0 && ISNAN((u)->last_erased_data))))

double ubend_push(struct Ubend *u, double x)
__CPROVER_requires(__CPROVER_rw_ok(u, sizeof(*u)) && UB_INV(u))
__CPROVER_requires(__CPROVER_rw_ok(u->data, u->capacity * sizeof(double)))
__CPROVER_requires(g_k < u->capacity)
__CPROVER_requires(HIST(u) && SLOT(u, g_k) && SLOT(u, u->cursor))
__CPROVER_requires(g_base <= (1UL << 62)) /* fewer than 2^62 insertions */
__CPROVER_requires(SAME(x, H(g_n)))
__CPROVER_assigns(u->cursor, u->filled, u->last_erased_data,
                  u->data[u->cursor], g_n, g_base)
__CPROVER_ensures(UB_INV(u) && u->capacity == __CPROVER_old(u->capacity) &&
                  u->data == __CPROVER_old(u->data))
/* the reported value: the oldest one when the window was full, NaN otherwise */
__CPROVER_ensures(__CPROVER_old(u->filled)
    ? SAME(__CPROVER_return_value, H(__CPROVER_old(g_n) - u->capacity))
    : ISNAN(__CPROVER_return_value))
;

unsigned long ubend_size(struct Ubend const *u)
__CPROVER_requires(__CPROVER_r_ok(u, sizeof(*u)) && UB_INV(u) && HIST(u) &&
                   g_base <= (1UL << 62))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value ==
                  (g_n < u->capacity ? g_n : u->capacity))
;
unsigned long peaks_size(struct Peaks const *p)
__CPROVER_requires(__CPROVER_r_ok(p, sizeof(*p)) && UB_INV(&p->container) &&
                   HIST(&p->container) && g_base <= (1UL << 62))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value ==
                  (g_n < p->container.capacity ? g_n : p->container.capacity))
;

void *xmalloc(unsigned long size)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == 0 ||
                  __CPROVER_is_fresh(__CPROVER_return_value, size))
;
int ubend_init(struct Ubend *u, unsigned long capacity)
__CPROVER_requires(__CPROVER_rw_ok(u, sizeof(*u)))
__CPROVER_requires(capacity <= MAXCAP && g_n == 0 && g_base == 0 &&
                   g_k < capacity)
__CPROVER_assigns(__CPROVER_object_whole(u))
__CPROVER_ensures(__CPROVER_return_value < 0 ||
    (u->capacity == capacity && UB_INV(u) && HIST(u) && SLOT(u, g_k) &&
     UB_SIZE(u) == 0))
;

double nondet_double(void);
u64 nondet_u64(void);

static void setup(struct Ubend *u) {
    u64 in_cap = nondet_u64();
    __CPROVER_assume(in_cap >= 1 && in_cap <= MAXCAP);
    u->capacity = in_cap;
    u->data = __CPROVER_allocate(in_cap * 8, 0);
    g_k = nondet_u64();
    g_n = nondet_u64();
    g_base = nondet_u64();
    u64 in_k = g_k, in_n = g_n, in_cursor = u->cursor;
    int in_filled = u->filled;
}

void h_push(void) {
    struct Ubend u;
    setup(&u);
    double in_x = nondet_double();
    int was = u.filled;
    u64 c = u.cursor;
    double r = ubend_push(&u, in_x);
    /* ghost update: one more insertion */
    g_base = (c + 1 == u.capacity) ? g_base + u.capacity : g_base;
    g_n = g_n + 1;
    __CPROVER_assert(HIST(&u), "window: cursor, fill status and history agree");
    __CPROVER_assert(SLOT(&u, g_k), "window: every slot holds the value of the history");
    PROBE(was && r == r, "an eviction is reachable");
    PROBE(!was && u.filled, "the window can become full");
    PROBE(!was && !u.filled, "a push into a window that stays open");
    PROBE(u.capacity == 1, "capacity one");
}
void h_size(void) {
    struct Ubend u;
    setup(&u);
    u64 r = ubend_size(&u);
    PROBE(u.filled, "full");
    PROBE(!u.filled && r > 3, "open");
}
void h_psize(void) {
    struct Peaks p;
    setup(&p.container);
    u64 r = peaks_size(&p);
    PROBE(p.container.filled, "full");
    PROBE(!p.container.filled && r > 3, "open");
}
void h_init(void) {
    struct Ubend u;
    u64 in_cap = nondet_u64();
    g_k = nondet_u64();
    g_n = 0;
    g_base = 0;
    int r = ubend_init(&u, in_cap);
    PROBE(r == 0, "creation succeeds");
    PROBE(r != 0, "creation fails");
}
