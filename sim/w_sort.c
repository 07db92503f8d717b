/* R01: sorting and binary searching arrays while the comparison callback is
 * honest, partial, hostile or counts its calls. */
#include "sim.h"
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/errno.h>

enum { FILL, SORT, SEARCH, SEARCH_INLINE, POKE, NOPS_ };
static const char *const opn[] = { "fill", "sort", "search", "search-inline", "poke" };
static const char *const cfn[SIM_NCFG] = { "num", "cells", "range" };
enum { ASC, DESC, PREFIX, CONST_, LIAR, TERNARY, NMODE };

#define MAXN 70000
#define MAXC 70000

static struct {
    uint8_t *base; size_t num, cells;
    unsigned mode; uint64_t liar; unsigned long calls; void *token;
    const uint8_t *key; long (*order)(const uint8_t *, const uint8_t *);
} C;

/* the key is the first up to four bytes, little end first; the rest is payload */
static uint32_t keyof(const uint8_t *p)
{
    uint32_t v = 0;
    for (size_t i = C.cells < 4 ? C.cells : 4; i--; ) v = v << 8 | p[i];
    return v;
}
static void inside(const void *p, const char *who)
{
    size_t off = (size_t)((const uint8_t *)p - C.base);
    SIM_CHECK((const uint8_t *)p >= C.base && off < C.num * C.cells && !(off % C.cells), "sort:foreign-pointer",
              "%s got a pointer that is no element of the array (offset %zd)", who, (ssize_t)off);
}
static long relation(const uint8_t *a, const uint8_t *b)
{
    uint32_t x = keyof(a), y = keyof(b);
    switch (C.mode) {
    case DESC: return (long)y - (long)x;
    case PREFIX: return (long)(x & 15) - (long)(y & 15);
    case CONST_: return 0;
    case TERNARY: return (x > y) - (x < y);
    case LIAR: C.liar = sim_mix(C.liar, C.calls); return (long)(C.liar % 3) - 1;
    default: return (long)x - (long)y;
    }
}
static long cmp(const void *a, const void *b, void *pdata)
{
    SIM_CHECK(pdata == C.token, "sort:pdata", "the comparison got other private data");
    inside(a, "comparison"); inside(b, "comparison");
    C.calls++;
    sim_nest();
    return relation(a, b);
}
static long find(const void *pivot, void *pdata)
{
    SIM_CHECK(pdata == C.token, "search:pdata", "the callback got other private data");
    inside(pivot, "search callback");
    C.calls++;
    sim_nest();
    return relation(pivot, C.key);
}

static int cellcmp(const void *a, const void *b) { return memcmp(a, b, C.cells); }
/* order-independent content fingerprint is not enough: compare sorted copies */
static void same_multiset(const uint8_t *before, const char *what)
{
    size_t n = C.num * C.cells;
    uint8_t *a = sim_tmp(n + 1), *b = sim_tmp(n + 1);
    memcpy(a, before, n); memcpy(b, C.base, n);
    qsort(a, C.num, C.cells, cellcmp); qsort(b, C.num, C.cells, cellcmp);
    SIM_CHECK(!memcmp(a, b, n), "sort:elements", "%s lost, repeated or altered elements", what);
}
static unsigned ilog(size_t n) { unsigned l = 0; while (n >>= 1) l++; return l; }

static void fill(int64_t style, uint64_t seed, int64_t range)
{
    sim_rng r;
    sim_seed(&r, seed);
    for (size_t i = 0; i < C.num; ++i) {
        uint8_t *p = C.base + i * C.cells;
        uint64_t v;
        switch (style % 5) {
        case 0: v = sim_u64(&r); break;
        case 1: v = sim_below(&r, (uint64_t)range); break;
        case 2: v = i; break;
        case 3: v = C.num - i; break;
        default: v = sim_chance(&r, 1, 8) ? sim_u64(&r) : i / 3; break;
        }
        for (size_t k = 0; k < C.cells; ++k) p[k] = k < 4 ? (uint8_t)(v >> 8 * k) : (uint8_t)(sim_mix(seed, i) >> (k & 7) * 8);
    }
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int n = (int)sim_range(r, 2, 10);
    tr->ncfg = 3;
    tr->cfg[0] = sim_chance(r, 1, 3) ? sim_range(r, 0, 8) : sim_chance(r, 1, 10) ? sim_range(r, 0, tier ? 600 : 200) : sim_range(r, 0, 40);
    tr->cfg[1] = sim_chance(r, 1, 2) ? 1ll << sim_range(r, 0, 5) : sim_range(r, 1, 96);
    if (sim_chance(r, 1, 8)) tr->cfg[1] = sim_chance(r, 1, 2) ? sim_range(r, 1, 25) * 16 : sim_range(r, 97, 400);
    if (sim_chance(r, 1, 100)) {    /* elements larger than any scratch buffer */
        bool huge = sim_chance(r, 1, 8);
        tr->cfg[1] = huge ? sim_range(r, 60000, MAXC) : sim_chance(r, 1, 2) ? 1ll << sim_range(r, 9, 13) : sim_range(r, 400, 9000);
        tr->cfg[0] = sim_range(r, 0, huge ? 6 : 20);
    }
    tr->cfg[2] = sim_chance(r, 1, 2) ? sim_range(r, 1, 8) : sim_range(r, 1, 1000);
    if (sim_chance(r, 1, 1500)) {   /* more elements than 16 bits count */
        tr->cfg[0] = sim_range(r, 600, MAXN);
        tr->cfg[1] = sim_range(r, 1, 4);
        n = 4;
    }
    for (int i = 0; i < n; ++i) {
        int w[] = { 2, 4, 3, 2, 2 };
        sim_op *o = sim_add(tr, i ? (uint32_t)sim_pickw(r, w, NOPS_) : FILL);
        o->a[0] = sim_range(r, 0, 4);
        o->a[1] = (int64_t)(sim_u64(r) >> 1);
        o->a[2] = sim_range(r, 0, NMODE - 1);
        if (o->a[2] == LIAR && !faults) o->a[2] = ASC;
        o->a[3] = sim_range(r, 0, MAXN);
        o->a[4] = sim_range(r, 0, 3);
    }
}

static void exec(const sim_trace *tr)
{
    C.num = (size_t)tr->cfg[0] % (MAXN + 1);
    C.cells = (size_t)(tr->cfg[1] - 1) % MAXC + 1;
    int64_t range = tr->cfg[2] > 0 ? tr->cfg[2] : 1;
    size_t bytes = C.num * C.cells;
    int token, sorted = -1;
    C.base = malloc(bytes ? bytes : 1);       /* exact size: any access outside is caught */
    C.token = &token;
    uint8_t *before = sim_tmp(bytes + 1), *key = sim_tmp(C.cells);
    memset(C.base, 0, bytes);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        C.calls = 0;
        C.liar = (uint64_t)o->a[1];
        switch (o->kind) {
        case FILL: fill(o->a[0], (uint64_t)o->a[1], range); sorted = -1; break;
        case POKE:
            if (!C.num) break;
            memcpy(C.base + (size_t)o->a[3] % C.num * C.cells, &o->a[1], C.cells < 4 ? C.cells : 4);
            sorted = -1;
            break;
        case SORT: {
            C.mode = (unsigned)o->a[2] % NMODE;
            memcpy(before, C.base, bytes);
            int rc = bfdev_sort(C.base, C.num, C.cells, cmp, C.token);
            sim_log((uint64_t)rc); sim_logbuf(C.base, bytes);
            SIM_CHECK(C.num < 2 || !rc, "sort:refused", "sorting %zu elements of %zu bytes failed (%d)", C.num, C.cells, rc);
            same_multiset(before, "sort");
            SIM_CHECK(C.calls <= 4 * C.num * (ilog(C.num ? C.num : 1) + 2), "sort:comparisons", "%lu comparisons for %zu elements", C.calls, C.num);
            if (C.mode == LIAR) { sim_fault("inconsistent_comparison"); sorted = -1; sim_state(sim_mix(77, C.num)); break; }
            for (size_t k = 1; k < C.num; ++k)
                SIM_CHECK(relation(C.base + (k - 1) * C.cells, C.base + k * C.cells) <= 0, "sort:order",
                          "elements %zu and %zu of %zu are out of order (order %u)", k - 1, k, C.num, C.mode);
            sorted = (int)C.mode;
            sim_state(sim_mix(sim_mix(C.mode, C.num), C.cells & 7));
            sim_probe("sorted");
            break;
        }
        case SEARCH: case SEARCH_INLINE: {
            bool lie = o->a[2] == LIAR;
            if (!lie && sorted < 0 && C.num > 1) break;
            C.mode = lie ? LIAR : sorted < 0 ? ASC : (unsigned)sorted;
            /* a key that is there, a neighbour, or anything */
            memset(key, 0, C.cells);
            if (o->a[4] && C.num) {
                memcpy(key, C.base + (size_t)o->a[3] % C.num * C.cells, C.cells);
                if (o->a[4] == 2) key[0]++;
                if (o->a[4] == 3) key[0]--;
            } else memcpy(key, &o->a[1], C.cells < 4 ? C.cells : 4);
            C.key = key;
            memcpy(before, C.base, bytes);
            void *p = o->kind == SEARCH ? bfdev_bsearch(C.base, C.num, C.cells, find, C.token)
                                        : bfdev_bsearch_inline(C.base, C.num, C.cells, find, C.token);
            unsigned long calls = C.calls;
            sim_log(p ? (uint64_t)((uint8_t *)p - C.base) : ~0ull);
            SIM_CHECK(calls <= (C.num ? ilog(C.num) + 2 : 0), "search:probes", "%lu probes among %zu elements", calls, C.num);
            SIM_CHECK(!memcmp(before, C.base, bytes), "search:writes", "the search changed the array");
            if (p) inside(p, "search result");
            if (lie) { sim_fault("inconsistent_search_callback"); break; }
            bool have = false;
            for (size_t k = 0; k < C.num && !have; ++k) have = !relation(C.base + k * C.cells, key);
            if (p) SIM_CHECK(!relation(p, key), "search:wrong", "the element found does not match");
            SIM_CHECK(have == !!p, "search:missed", have ? "an element that is there is not found among %zu" : "found one that is not there among %zu", C.num);
            sim_probe(p ? "search_hit" : "search_miss");
            sim_state(sim_mix(sim_mix(1000 + C.mode, C.num), p ? (uint64_t)((uint8_t *)p - C.base) / C.cells : 999));
            break;
        }
        default: break;
        }
    }
    free(C.base);
}

/* another array, from inside a comparison */
static long nest_cmp(const void *a, const void *b, void *pdata) { ++*(int *)pdata; return (long)*(const int *)a - *(const int *)b; }
static long nest_find(const void *a, void *pdata) { return (long)*(const int *)a - *(const int *)pdata; }
static void nest(void)
{
    static const int v[] = { 7, 3, 9, 3, 1, 8, 2 }, w[] = { 1, 2, 3, 3, 7, 8, 9 };
    struct { int v; char pad[9]; } c[7];
    int n = 0, k = 8, no = 5, rc;
    for (int i = 0; i < 7; ++i) c[i].v = v[i];
    rc = bfdev_sort(c, 7, sizeof(*c), nest_cmp, &n);
    SIM_CHECK(!rc && n, "sort:nested", "an array sorted from inside a comparison: %d", rc);
    for (int i = 0; i < 7; ++i) SIM_CHECK(c[i].v == w[i], "sort:nested", "an array sorted from inside a comparison is out of order");
    SIM_CHECK(bfdev_bsearch(c, 7, sizeof(*c), nest_find, &k) == &c[5] && !bfdev_bsearch(c, 7, sizeof(*c), nest_find, &no), "search:nested", "a search from inside a comparison is wrong");
}

const sim_workload w_sort = { "R01", "sort", cfn, opn, gen, exec, 1, nest };
