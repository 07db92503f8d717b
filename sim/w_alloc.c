/* A03: the allocation front end and the helpers built on it, over a failing allocator. */
#include "sim.h"
#include <bfdev/allocator.h>
#include <bfdev/string.h>
#include <bfdev/argv.h>
#include <bfdev/levenshtein.h>
#include <bfdev/bitmap.h>
#include <bfdev/guards.h>
#include <limits.h>

enum { MALLOC, ZALLOC, REALLOC, FREE, STRDUP, STRNDUP, ARGV, LEVEN, BITMAP, ARRAY, GUARDS, FRONT, NOPS_ };
static const char *const opn[] = { "malloc", "zalloc", "realloc", "free", "strdup", "strndup", "argv", "levenshtein", "bitmap", "array", "guards", "front" };
static const char *const cfn[SIM_NCFG] = { "garbage", "budget", "move" };
#define MAXB 64
static struct { uint8_t *p; size_t n; uint8_t fill; } b[MAXB];
static int nb;

/* scope guards: what a function acquired goes back on every way out but the lasting one */
static const bfdev_alloc_t *g_al;
static unsigned g_freed;
BFDEV_CLEAN_TEMPLATE(block, void *,
    if (_T) { g_freed++; bfdev_free(g_al, _T); }
)
static void *guarded(size_t n, int leave, unsigned *taken)
{
    *taken = 0;
    bfdev_clean(block) void *x = bfdev_malloc(g_al, n);
    if (!x) return NULL;
    ++*taken;
    if (leave == 0) return NULL;
    for (int i = 0; i < 3; ++i) {
        bfdev_clean(block) void *y = bfdev_malloc(g_al, n + (size_t)i);
        if (!y) return NULL;
        ++*taken;
        memset(y, i, n);
        if (leave == i + 1) continue;
        if (leave == 4 && i == 1) bfdev_clean_return(y);
    }
    bfdev_clean(block) void *z = bfdev_malloc(g_al, n);
    if (!z) return NULL;
    ++*taken;
    if (leave == 5) { bfdev_free(g_al, bfdev_clean_lasting(z)); return bfdev_clean_lasting(x); }
    if (leave == 6) return NULL;
    bfdev_clean_return(x);
}

/* every way to name an allocator: none, the default one, empty tables, tables set up at run time */
size_t __sanitizer_get_current_allocated_bytes(void);
static unsigned f_calls[4];
static const bfdev_alloc_t *f_al;
static void *f_alloc(size_t n, void *pd) { SIM_CHECK(pd == &f_al, "alloc:front", "an operation got a wrong private pointer"); f_calls[0]++; return bfdev_malloc(f_al, n); }
static void *f_zalloc(size_t n, void *pd) { SIM_CHECK(pd == &f_al, "alloc:front", "an operation got a wrong private pointer"); f_calls[1]++; return bfdev_zalloc(f_al, n); }
static void *f_realloc(void *p, size_t n, void *pd) { SIM_CHECK(pd == &f_al, "alloc:front", "an operation got a wrong private pointer"); f_calls[2]++; return bfdev_realloc(f_al, p, n); }
static void f_free(void *p, void *pd) { SIM_CHECK(pd == &f_al, "alloc:front", "an operation got a wrong private pointer"); f_calls[3]++; bfdev_free(f_al, p); }
static void failed(sim_heap *h, const char *what);
static void front(sim_heap *h, size_t n, int which)
{
    static const bfdev_alloc_ops_t empty = BFDEV_ALLOC_OPS_STATIC(NULL, NULL, NULL, NULL);
    bfdev_alloc_ops_t ops;
    bfdev_alloc_t own;
    const bfdev_alloc_t *a = NULL;
    bool mine = which >= 4;
    uint8_t *p, *q;
    size_t was = __sanitizer_get_current_allocated_bytes(), zn = n / 2 + 1;
    memset(&own, 0x5a, sizeof(own)); memset(&ops, 0x5a, sizeof(ops)); memset(f_calls, 0, sizeof(f_calls));
    f_al = sim_heap_alloc(h);
    switch (which) {
    case 0: break;
    case 1: a = &bfdev_alloc_default; break;
    case 2: bfdev_alloc_init(&own, NULL, NULL); a = &own; break;
    case 3: bfdev_alloc_init(&own, &empty, NULL); a = &own; break;
    default: bfdev_alloc_ops_init(&ops, f_alloc, f_zalloc, f_realloc, f_free); bfdev_alloc_init(&own, &ops, &f_al); a = &own; break;
    }
    n++;
    p = bfdev_malloc(a, n);
    if (!p) { SIM_CHECK(mine, "alloc:front", "the default allocator failed"); failed(h, "malloc"); return; }
    memset(p, 0x5a, n);
    q = bfdev_zalloc(a, zn);
    if (!q) { SIM_CHECK(mine, "alloc:front", "the default allocator failed"); failed(h, "zalloc"); bfdev_free(a, p); return; }
    for (size_t x = 0; x < zn; ++x) SIM_CHECK(!q[x], "alloc:zalloc", "zalloc returned non-zero memory");
    uint8_t *p2 = bfdev_realloc_array(a, p, n, 3);
    if (!p2) { SIM_CHECK(mine, "alloc:front", "the default allocator failed"); failed(h, "realloc_array"); }
    else {
        p = p2;
        memset(p + n, 1, n * 2);
        if (mine) SIM_CHECK(sim_heap_owns(h, p, n * 3), "alloc:outside", "the array is smaller than asked for");
    }
    for (size_t x = 0; x < n; ++x) SIM_CHECK(p[x] == 0x5a, "alloc:realloc", "realloc lost content");
    bfdev_free(a, q);
    bfdev_free(a, p);
    /* arrays larger than the address space */
    for (unsigned k = 1; k < 64; k += 9) {
        size_t cnt = (SIZE_MAX >> k) + 1 + n, sz = ((size_t)1 << k) + n % 3;
        SIM_CHECK(!bfdev_malloc_array(a, cnt, sz) && !bfdev_zalloc_array(a, cnt, sz) && !bfdev_realloc_array(a, NULL, cnt, sz), "alloc:array", "an array of %zu times %zu bytes was allocated", cnt, sz);
    }
    if (mine) SIM_CHECK(f_calls[0] && f_calls[1] && f_calls[2] && f_calls[3] == 2, "alloc:front", "the operations were called %u, %u, %u and %u times", f_calls[0], f_calls[1], f_calls[2], f_calls[3]);
    else SIM_CHECK(__sanitizer_get_current_allocated_bytes() == was, "alloc:front", "the default allocator did not get everything back");
    if (!mine) sim_probe("default_allocator");
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 3, tier ? 200 : 60);
    for (int i = 0; i < NOPS_; ++i) w[i] = (int)sim_range(r, 0, 4) + 1;
    tr->ncfg = 3;
    tr->cfg[0] = (int64_t)sim_u64(r);
    tr->cfg[1] = faults && sim_chance(r, 1, 4) ? sim_range(r, 50, 3000) : 0;
    tr->cfg[2] = sim_range(r, 0, 100);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, MAXB - 1);
        o->a[1] = sim_range(r, 0, sim_chance(r, 1, 4) ? 300 : 20);
        o->a[2] = (int64_t)(sim_u64(r) >> 1);
        o->a[3] = sim_range(r, 0, 24);
        o->a[4] = sim_range(r, 0, 1);
        if (o->kind >= STRDUP && o->kind <= LEVEN && sim_chance(r, 1, 60)) o->a[4] |= 2;
        if (faults) sim_arm(r, o, 1, 3, 0);
    }
}

static char *mkstr(uint64_t seed, int len, const char *alpha)
{
    sim_rng r;
    char *s = malloc((size_t)len + 1);           /* exact size: overreads are caught */
    size_t na = strlen(alpha);
    sim_seed(&r, seed);
    for (int i = 0; i < len; ++i) s[i] = alpha[sim_below(&r, na)];
    s[len] = 0;
    return s;
}

static unsigned ref_leven(const char *x, const char *y, int n, int m, unsigned s, unsigned w, unsigned a, unsigned d)
{
    unsigned *mem = malloc(sizeof(*mem) * 3 * ((size_t)n + 1)), *t0 = mem, *t1 = t0 + n + 1, *t2 = t1 + n + 1, *t;   /* rows j-2, j-1, j */
    for (int i = 0; i <= n; ++i) t1[i] = (unsigned)i * d;
    for (int j = 1; j <= m; ++j) {
        t2[0] = (unsigned)j * a;
        for (int i = 1; i <= n; ++i) {
            unsigned v = t1[i - 1] + (x[i - 1] != y[j - 1] ? s : 0);
            if (i > 1 && j > 1 && x[i - 1] == y[j - 2] && x[i - 2] == y[j - 1] && v > t0[i - 2] + w) v = t0[i - 2] + w;
            if (v > t1[i] + a) v = t1[i] + a;
            if (v > t2[i - 1] + d) v = t2[i - 1] + d;
            t2[i] = v;
        }
        t = t0; t0 = t1; t1 = t2; t2 = t;
    }
    unsigned v = t1[n];
    free(mem);
    return v;
}

/* lengths past the usual ones: most some hundreds, a few beyond what 16 bits count */
static size_t longlen(uint64_t h) { return h % 16 ? 30 + h / 16 % 500 : 65000 + h / 16 % 3000; }
static unsigned weight(uint64_t h) { return h % 4 == 0 ? (unsigned)(h / 4 % 4) : h % 4 == 1 ? 38 + (unsigned)(h / 4 % 40) : h % 4 == 2 ? 250 + (unsigned)(h / 4 % 300) : 1000 + (unsigned)(h / 4 % 9000); }
/* a command line of long words and long gaps, or of very many words */
static char *mkargs(uint64_t seed)
{
    sim_rng r;
    sim_seed(&r, seed);
    int style = (int)sim_below(&r, 20);
    size_t cap = style ? 8192 : 1 << 19, len = 0;
    char *s = malloc(cap + 1), *t;
    size_t words = style == 0 ? 66000 : style < 10 ? sim_below(&r, 2000) : sim_below(&r, 12);
    size_t most = style == 0 ? 2 : style < 10 ? 3 : 700;
    for (size_t i = 0; i < words * 2 && len < cap - most; ++i) {
        size_t run = 1 + sim_below(&r, most);
        for (size_t k = 0; k < run; ++k) s[len++] = i & 1 ? " \t\r\n"[sim_below(&r, 4)] : (char)('!' + sim_below(&r, 90));
    }
    s[len] = 0;
    t = malloc(len + 1);                        /* exact size */
    memcpy(t, s, len + 1);
    free(s);
    return t;
}

static void failed(sim_heap *h, const char *what)
{
    SIM_CHECK(sim_heap_failed(h), "alloc:spurious-failure", "%s failed with memory available", what);
    sim_probe("helper_failed_oom");
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(tr->cfg[2], tr->cfg[1], (uint64_t)tr->cfg[0]);
    const bfdev_alloc_t *al = sim_heap_alloc(h);
    nb = 0;
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        size_t n = (size_t)o->a[1], before = sim_heap_blocks(h);
        int k = nb ? (int)(o->a[0] % nb) : 0;
        uint8_t f = (uint8_t)o->a[2];
        if (k < 0) k = 0;
        if (n > 4096) n = 4096;
        sim_heap_op(h, o);
        switch (o->kind) {
        case MALLOC: case ZALLOC: {
            if (nb == MAXB) break;
            uint8_t *p = o->kind == MALLOC ? bfdev_malloc(al, n) : bfdev_zalloc(al, n);
            if (!n) { SIM_CHECK(!p && sim_heap_requests(h) == 0, "alloc:zero", "an empty request reached the allocator"); break; }
            if (!p) { failed(h, "malloc"); break; }
            SIM_CHECK(sim_heap_owns(h, p, n), "alloc:outside", "the block is smaller than asked for");
            if (o->kind == ZALLOC) for (size_t x = 0; x < n; ++x) SIM_CHECK(!p[x], "alloc:zalloc", "zalloc returned non-zero memory");
            memset(p, f, n);
            b[nb].p = p; b[nb].n = n; b[nb].fill = f; nb++;
            break;
        }
        case ARRAY: {
            if (nb == MAXB) break;
            size_t cnt = (size_t)o->a[3];
            uint8_t *p = o->a[4] ? bfdev_zalloc_array(al, cnt, n) : bfdev_malloc_array(al, cnt, n);
            if (!n || !cnt) { SIM_CHECK(!p, "alloc:zero", "an empty array was allocated"); break; }
            if (!p) { failed(h, "malloc_array"); break; }
            SIM_CHECK(sim_heap_owns(h, p, n * cnt), "alloc:outside", "the array is smaller than asked for");
            if (o->a[4]) for (size_t x = 0; x < n * cnt; ++x) SIM_CHECK(!p[x], "alloc:zalloc", "zalloc_array returned non-zero memory");
            memset(p, f, n * cnt);
            b[nb].p = p; b[nb].n = n * cnt; b[nb].fill = f; nb++;
            break;
        }
        case REALLOC: {
            uint8_t *old = NULL, *p;
            size_t on = 0;
            bool fresh = !nb || o->a[4] == 1;
            if (fresh && nb == MAXB) break;
            if (!fresh) { old = b[k].p; on = b[k].n; }
            p = bfdev_realloc(al, old, n);
            if (!n) {
                SIM_CHECK(!p, "alloc:realloc-zero", "realloc to nothing returned a block");
                SIM_CHECK(sim_heap_blocks(h) == before - (old != NULL), "alloc:realloc-zero", "realloc to nothing did not release the block");
                if (old) b[k] = b[--nb];
                break;
            }
            if (!p) { failed(h, "realloc"); break; }     /* content is checked below */
            for (size_t x = 0; x < (on < n ? on : n); ++x) SIM_CHECK(p[x] == b[k].fill, "alloc:realloc", "realloc lost content");
            if (fresh) k = nb++;
            memset(p, f, n);
            b[k].p = p; b[k].n = n; b[k].fill = f;
            break;
        }
        case FREE:
            bfdev_free(al, NULL);
            if (!nb) break;
            bfdev_free(al, b[k].p);
            b[k] = b[--nb];
            break;
        case STRDUP: case STRNDUP: {
            size_t lim = (size_t)o->a[3], want;
            if (o->a[4] & 2) {
                n = longlen((uint64_t)o->a[2] >> 8);
                lim = o->a[3] % 3 == 0 ? n : o->a[3] % 3 == 1 ? n - n % 29 : n + 1 + n % 400;
                if (o->a[3] == 24) lim = SIZE_MAX;
                sim_probe("long_string");
            }
            char *s = mkstr((uint64_t)o->a[2], (int)n, "abcdefg"), *d;
            want = n;
            SIM_CHECK(!bfdev_strdup(al, NULL), "alloc:strdup", "duplicate of nothing");
            if (o->kind == STRDUP) d = bfdev_strdup(al, s);
            else {
                /* the source of a bounded copy need not be terminated */
                if (lim <= n && o->a[4] & 1) { char *u = malloc(lim + !lim); memcpy(u, s, lim); free(s); s = u; want = lim; d = bfdev_strndup(al, u, lim); }
                else { d = bfdev_strndup(al, s, lim); want = n < lim ? n : lim; }
            }
            if (!d) failed(h, "strdup");
            else {
                SIM_CHECK(sim_heap_owns(h, d, want + 1), "alloc:strdup", "the copy does not fit its block");
                SIM_CHECK(!memcmp(d, s, want) && !d[want], "alloc:strdup", "the copy differs from the string");
                bfdev_free(al, d);
            }
            free(s);
            break;
        }
        case ARGV: {
            char *s = o->a[4] & 2 ? mkargs((uint64_t)o->a[2]) : mkstr((uint64_t)o->a[2], (int)n, o->a[4] ? "ab \t\r\n" : "abcdefghijkl  "), **v, *c;
            unsigned cnt = 12345, want = 0;
            v = bfdev_argv_split(al, s, o->a[3] & 1 ? &cnt : NULL);
            if (!v) failed(h, "argv_split");
            else {
                c = s;
                for (;;) {
                    size_t skip = strspn(c, " \t\r\n"), len;
                    c += skip;
                    len = strcspn(c, " \t\r\n");
                    if (!len) break;
                    SIM_CHECK(v[want] && strlen(v[want]) == len && !memcmp(v[want], c, len), "alloc:argv", "argument %u differs", want);
                    want++; c += len;
                }
                if (want > 300) sim_probe(want > 65535 ? "over_65535_arguments" : "over_300_arguments");
                SIM_CHECK(!v[want], "alloc:argv", "the vector does not end after %u arguments", want);
                SIM_CHECK(!(o->a[3] & 1) || cnt == want, "alloc:argv", "%u arguments reported, expected %u", cnt, want);
                SIM_CHECK(bfdev_argv_count(s) == want, "alloc:argv", "argv_count differs from argv_split");
                bfdev_argv_destroy(al, v);
            }
            free(s);
            break;
        }
        case LEVEN: {
            int l1 = (int)(n % 40), l2 = (int)(o->a[3] % 25);
            bool big = o->a[4] & 2;
            uint64_t hb = sim_mix((uint64_t)o->a[2], 77);
            if (big) {
                size_t ll = longlen(hb);
                l1 = (int)ll; l2 = ll > 60000 ? (int)(hb >> 40 & 3) : (int)(hb >> 40) % 400;
                if (hb >> 20 & 1) { int t = l1; l1 = l2; l2 = t; }
                sim_probe(ll > 60000 ? "distance_of_huge_strings" : "distance_of_long_strings");
            }
            char *x = mkstr((uint64_t)o->a[2], l1, "abc"), *y = mkstr((uint64_t)o->a[2] + 1, l2, "abc");
            if (big && hb >> 21 & 1 && l1 < 60000) for (int q = 0; q < l1 && q < l2; ++q) if (hb >> (22 + q % 20) & 1) y[q] = x[q];
            unsigned s = (unsigned)(o->a[2] & 3), w = (unsigned)(o->a[2] >> 2 & 3), a = (unsigned)(o->a[2] >> 4 & 3), d = (unsigned)(o->a[2] >> 6 & 3);
            unsigned got;
            if (big || hb % 8 == 0) { s = weight(hb >> 3); w = weight(hb >> 17); a = weight(hb >> 31); d = weight(hb >> 45); }
            if (o->a[4] & 1) {
                /* the lengths decide, not what follows */
                char *xs = malloc((size_t)l1 + 1), *ys = malloc((size_t)l2 + 1);
                memcpy(xs, x, (size_t)l1); memcpy(ys, y, (size_t)l2);
                xs[l1] = ys[l2] = 'b';
                got = bfdev_levenshtein_len(al, xs, ys, (size_t)l1, (size_t)l2, s, w, a, d);
                free(xs); free(ys);
            } else got = bfdev_levenshtein(al, x, y, s, w, a, d);
            sim_log(got);
            if (sim_heap_failed(h)) SIM_CHECK(got == UINT_MAX, "alloc:leven", "distance %u without memory", got);
            else { unsigned want = ref_leven(x, y, l1, l2, s, w, a, d); SIM_CHECK(got == want, "alloc:leven", "distance is %u, expected %u", got, want); }
            free(x); free(y);
            break;
        }
        case GUARDS: {
            unsigned taken;
            int leave = (int)(o->a[3] % 8);
            g_freed = 0;
            g_al = al;
            uint8_t *p = guarded(n + 1, leave, &taken);
            if (!p && leave != 0 && leave != 6) failed(h, "a guarded function");
            SIM_CHECK(sim_heap_blocks(h) == before + (p != NULL), "alloc:guards", "%zu blocks survive a guarded function that took %u", sim_heap_blocks(h) - before, taken);
            SIM_CHECK(g_freed == taken - (p != NULL) - (p && leave == 5), "alloc:guards", "%u of %u blocks cleaned up", g_freed, taken);
            if (p) { SIM_CHECK(sim_heap_owns(h, p, n + 1), "alloc:guards", "the lasting block is not the one acquired"); bfdev_free(al, p); sim_probe("guard_lasting"); }
            else sim_probe("guard_cleaned");
            break;
        }
        case FRONT: front(h, n, (int)((uint64_t)o->a[3] % 6)); break;
        case BITMAP: {
            unsigned bits = (unsigned)n * 3 + 1;
            unsigned long *m = o->a[4] ? bfdev_bitmap_zalloc(al, bits) : bfdev_bitmap_alloc(al, bits);
            if (!m) { failed(h, "bitmap_alloc"); break; }
            SIM_CHECK(sim_heap_owns(h, m, (bits + 7) / 8), "alloc:bitmap", "the bitmap is too small for %u bits", bits);
            if (o->a[4]) for (unsigned x = 0; x < (bits + 63) / 64; ++x) SIM_CHECK(!m[x], "alloc:bitmap", "zalloc'ed bitmap is not empty");
            bfdev_bitmap_free(al, m);
            break;
        }
        }
        size_t held = 0;
        for (int j = 0; j < nb; ++j) {
            held += 1;
            for (size_t x = 0; x < b[j].n; ++x) SIM_CHECK(b[j].p[x] == b[j].fill, "alloc:content", "a live block changed");
        }
        SIM_CHECK(sim_heap_blocks(h) == held, "alloc:leak", "%s left %zu blocks for %zu live ones", opn[o->kind], sim_heap_blocks(h), held);
        sim_state(sim_mix((uint64_t)nb, o->kind * 2 + (sim_heap_failed(h) > 0)));
    }
    while (nb) bfdev_free(al, b[--nb].p);
    sim_heap_expect_empty(h, "the run");
}

const sim_workload w_alloc = { "A03", "alloc", cfn, opn, gen, exec, 1 };
