/* C04: radix array against a sparse map, under allocation faults. */
#include "sim.h"
#include <bfdev/radix.h>
#include <bfdev/errno.h>

enum { ALLOC, FREE, FIND, CHARGE, NEXT, PREV, RELEASE, SWEEP, WIPE, WALK, NOPS_ };
static const char *const opn[] = { "alloc", "free", "find", "charge", "next", "prev", "release", "alloc-run", "free-run", "walk" };
static const char *const cfn[SIM_NCFG] = { "celltype", "pool", "poolseed", "garbage", "budget", "maxbits" };

struct c12 { uint32_t a, b, c; };
struct c24 { uint64_t a, b, c; };
typedef BFDEV_GENERIC_RADIX(uint8_t) r1;
typedef BFDEV_GENERIC_RADIX(uint32_t) r4;
typedef BFDEV_GENERIC_RADIX(uint64_t) r8;
typedef BFDEV_GENERIC_RADIX(struct c12) r12;
typedef BFDEV_GENERIC_RADIX(struct c24) r24;

/* every iteration form, collecting what it yields and freeing it where the form allows */
#define WALKMAX 512
static struct { uintptr_t i; void *p; } seen[WALKMAX];
static int nseen;
#define SEE(drop) do { bool gone = (drop); if (nseen < WALKMAX) { seen[nseen].i = i; seen[nseen].p = v; } \
    if (nseen++ >= WALKMAX) return; \
    if (gone) (void)bfdev_radix_free(r, i); } while (0)
#define WALKER(T) \
static void walk_##T(void *q, int form, uintptr_t start, uint64_t mask) { \
    T *r = q; uintptr_t i = start, ti = start; void *v = NULL, *tv = NULL; \
    nseen = 0; \
    if (form & 1) { if (form >= 4) v = bfdev_radix_find(r, start); if (form >= 16) tv = bfdev_radix_prev(r, &ti); } \
    else { if (form >= 4) v = bfdev_radix_find(r, start); if (form >= 16) tv = bfdev_radix_next(r, &ti); } \
    switch (form) { \
    case 0: bfdev_radix_for_each(v, r, &i) SEE(0); break; \
    case 1: bfdev_radix_for_each_reverse(v, r, &i) SEE(0); break; \
    case 2: bfdev_radix_for_each_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    case 3: bfdev_radix_for_each_reverse_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    case 4: bfdev_radix_for_each_form(v, r, &i) SEE(0); break; \
    case 5: bfdev_radix_for_each_reverse_form(v, r, &i) SEE(0); break; \
    case 6: bfdev_radix_for_each_continue(v, r, &i) SEE(0); break; \
    case 7: bfdev_radix_for_each_reverse_continue(v, r, &i) SEE(0); break; \
    case 16: bfdev_radix_for_each_form_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    case 17: bfdev_radix_for_each_reverse_form_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    case 18: bfdev_radix_for_each_continue_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    case 19: bfdev_radix_for_each_reverse_continue_safe(v, r, &i, tv, &ti) SEE(mask >> (nseen & 63) & 1); break; \
    } \
}
static const unsigned char forms[] = { 0, 1, 2, 3, 4, 5, 6, 7, 16, 17, 18, 19 };

#define API(T) WALKER(T) \
static void *find_##T(void *r, uintptr_t i) { return bfdev_radix_find((T *)r, i); } \
static void *alloc_##T(void *r, uintptr_t i) { return bfdev_radix_alloc((T *)r, i); } \
static int free_##T(void *r, uintptr_t i) { return bfdev_radix_free((T *)r, i); } \
static int charge_##T(void *r, uintptr_t i, size_t n) { return bfdev_radix_charge((T *)r, i, n); } \
static void release_##T(void *r) { bfdev_radix_release((T *)r); } \
static void *first_##T(void *r, uintptr_t *i) { return bfdev_radix_first((T *)r, i); } \
static void *last_##T(void *r, uintptr_t *i) { return bfdev_radix_last((T *)r, i); } \
static void *next_##T(void *r, uintptr_t *i) { return bfdev_radix_next((T *)r, i); } \
static void *prev_##T(void *r, uintptr_t *i) { return bfdev_radix_prev((T *)r, i); }
API(r1) API(r4) API(r8) API(r12) API(r24)
#define ENT(T) { find_##T, alloc_##T, free_##T, charge_##T, release_##T, first_##T, last_##T, next_##T, prev_##T, walk_##T }
static const struct {
    void *(*find)(void *, uintptr_t); void *(*alloc)(void *, uintptr_t); int (*free)(void *, uintptr_t);
    int (*charge)(void *, uintptr_t, size_t); void (*release)(void *);
    void *(*first)(void *, uintptr_t *); void *(*last)(void *, uintptr_t *); void *(*next)(void *, uintptr_t *); void *(*prev)(void *, uintptr_t *);
    void (*walk)(void *, int, uintptr_t, uint64_t);
} api[] = { ENT(r1), ENT(r4), ENT(r8), ENT(r12), ENT(r24) };
static const unsigned cells[] = { 1, 4, 8, 12, 24 };

#define POOL 96
static uintptr_t pool[POOL];             /* sorted, distinct indices the run uses */
static struct { bool in; void *p; uint8_t fill; bool used; /* handed out since its block was last empty */ } m[POOL];
static int npool, nin, ty;

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 250 : 90);
    static const int base[NOPS_] = { 20, 14, 4, 2, 4, 4, 1, 3, 2, 3 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i <= FREE);
    tr->ncfg = 6;
    tr->cfg[0] = sim_range(r, 0, 4);
    tr->cfg[1] = sim_range(r, 1, POOL);
    tr->cfg[2] = (int64_t)(sim_u64(r) >> 1);
    tr->cfg[3] = (int64_t)sim_u64(r);
    tr->cfg[4] = faults && sim_chance(r, 1, 6) ? sim_range(r, 320, 9000) : 0;
    tr->cfg[5] = sim_chance(r, 1, 3) ? 12 : sim_chance(r, 1, 6) ? 63 : sim_range(r, 4, 63);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, tr->cfg[1] - 1);
        o->a[1] = sim_range(r, 1, sim_chance(r, 1, 2) ? 4 : 40);
        o->a[2] = sim_range(r, 0, 255);
        if (faults) sim_arm(r, o, 1, 3, o->kind == CHARGE || o->kind == SWEEP ? 10 : 5);
    }
}

static int cmp(const void *a, const void *b)
{
    uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b;
    return x < y ? -1 : x > y;
}
static void mkpool(const sim_trace *tr)
{
    sim_rng r;
    int n = (int)tr->cfg[1], bits = (int)tr->cfg[5], k = 0;
    uintptr_t lim, cur;
    if (n < 1) n = 1;
    if (n > POOL) n = POOL;
    if (bits < 4) bits = 4;
    if (bits > 63) bits = 63;
    sim_seed(&r, (uint64_t)tr->cfg[2]);
    /* offsets use the whole address range when bits == 63 */
    lim = bits == 63 ? UINTPTR_MAX / cells[ty] - (cells[ty] == 1 ? 0 : 64) : ((uintptr_t)1 << bits) / cells[ty];
    if (cells[ty] == 12 && bits == 63) lim = (UINTPTR_MAX >> 8) * 21 - 64;
    if (cells[ty] == 24 && bits == 63) lim = (UINTPTR_MAX >> 8) * 10 - 64;
    if (lim < 1) lim = 1;
    cur = 0;
    for (int i = 0; i < n; ++i) {
        switch (sim_below(&r, 8)) {
        case 0: cur = 0; break;
        case 1: cur = sim_u64(&r) % lim; break;
        case 2: cur = (((uintptr_t)1 << sim_below(&r, (uint64_t)bits)) - sim_below(&r, 2)) % lim; break;
        case 3: cur = (cur ^ ((uintptr_t)1 << sim_below(&r, (uint64_t)bits))) % lim; break;
        case 4: cur = (((uintptr_t)256 / cells[ty]) * (1 + sim_below(&r, 40)) - sim_below(&r, 2)) % lim; break;
        case 5: cur = lim - 1 - (sim_below(&r, 2) ? sim_below(&r, 4) : sim_below(&r, 300)) % lim; break;
        default: cur = (cur + 1 + sim_below(&r, 3)) % lim; break;
        }
        pool[k++] = cur;
    }
    qsort(pool, (size_t)k, sizeof(*pool), cmp);
    npool = 0;
    for (int i = 0; i < k; ++i) if (!npool || pool[npool - 1] != pool[i]) pool[npool++] = pool[i];
}

static uintptr_t blk(uintptr_t i) { return i / (256 / cells[ty]); }
static bool blockin(int i)
{
    for (int j = 0; j < npool; ++j) if (m[j].in && blk(pool[j]) == blk(pool[i])) return true;
    return false;
}
static void drop(int k)
{
    m[k].in = false; nin--;
    if (!blockin(k)) for (int j = 0; j < npool; ++j) if (blk(pool[j]) == blk(pool[k])) m[j].used = false;
}
/* the nodes a tree over the present indices needs: 32 children per branch, 256 bytes per leaf */
static long need(void)
{
    uintptr_t top = 0; long n = 0; int lv = 0;
    if (!nin) return 0;
    for (int i = 0; i < npool; ++i) if (m[i].in && blk(pool[i]) > top) top = blk(pool[i]);
    while (5 * lv < 64 && top >> (5 * lv)) lv++;
    for (int l = 0; l <= lv; ++l) {
        uintptr_t last = 0; bool any = false;
        for (int i = 0; i < npool; ++i) if (m[i].in) {
            uintptr_t x = 5 * l > 63 ? 0 : blk(pool[i]) >> (5 * l);
            if (!any || x != last) n++;
            any = true; last = x;
        }
    }
    return n;
}

static void check_one(void *t, int i, bool full)
{
    void *p = api[ty].find(t, pool[i]);
    SIM_CHECK((p != NULL) == m[i].in, "radix:find", "find(%#zx) is %s, expected %s", (size_t)pool[i], p ? "present" : "absent", m[i].in ? "present" : "absent");
    if (!p) return;
    SIM_CHECK(p == m[i].p, "radix:moved", "the slot of index %#zx moved", (size_t)pool[i]);
    if (full) for (unsigned k = 0; k < cells[ty]; ++k)
        SIM_CHECK(((uint8_t *)p)[k] == (uint8_t)(m[i].fill + k), "radix:content", "the content of index %#zx changed", (size_t)pool[i]);
}
static void fill(int i, uint8_t v)
{
    m[i].fill = v;
    for (unsigned k = 0; k < cells[ty]; ++k) ((uint8_t *)m[i].p)[k] = (uint8_t)(v + k);
}
static int step(int i, int d) { for (i += d; i >= 0 && i < npool; i += d) if (m[i].in) return i; return -1; }

static void iterate(void *t)
{
    uintptr_t idx = 0;
    void *p;
    int at = step(-1, 1), n = 0;
    for (p = api[ty].first(t, &idx); p; p = api[ty].next(t, &idx)) {
        SIM_CHECK(at >= 0 && n++ < nin, "radix:iter-extra", "forward iteration yields unexpected index %#zx", (size_t)idx);
        SIM_CHECK(idx == pool[at] && p == m[at].p, "radix:iter", "forward iteration yields index %#zx, expected %#zx", (size_t)idx, (size_t)pool[at]);
        at = step(at, 1);
    }
    SIM_CHECK(at < 0, "radix:iter-lost", "forward iteration misses index %#zx", (size_t)pool[at]);
    at = step(npool, -1); n = 0;
    for (p = api[ty].last(t, &idx); p; p = api[ty].prev(t, &idx)) {
        SIM_CHECK(at >= 0 && n++ < nin, "radix:iter-extra", "reverse iteration yields unexpected index %#zx", (size_t)idx);
        SIM_CHECK(idx == pool[at] && p == m[at].p, "radix:iter", "reverse iteration yields index %#zx, expected %#zx", (size_t)idx, (size_t)pool[at]);
        at = step(at, -1);
    }
    SIM_CHECK(at < 0, "radix:iter-lost", "reverse iteration misses index %#zx", (size_t)pool[at]);
}

static void do_alloc(sim_heap *h, void *t, int i, uint8_t v)
{
    void *p = api[ty].alloc(t, pool[i]);
    sim_log(p != NULL);
    if (!p) {
        SIM_CHECK(sim_heap_failed(h), "radix:spurious-failure", "alloc(%#zx) failed with memory available", (size_t)pool[i]);
        SIM_CHECK(!m[i].in, "radix:present-needs-memory", "alloc of present index %#zx failed", (size_t)pool[i]);
        sim_probe("alloc_failed_oom");
        if (sim_heap_requests(h) > 1) sim_probe("alloc_failed_mid_path");
        return;
    }
    SIM_CHECK(sim_heap_owns(h, p, cells[ty]), "radix:slot-outside", "slot of index %#zx is not inside one allocation", (size_t)pool[i]);
    if (m[i].in) {
        SIM_CHECK(p == m[i].p, "radix:moved", "alloc of a present index moved it");
    } else {
        for (unsigned k = 0; !m[i].used && k < cells[ty]; ++k)
            SIM_CHECK(!((uint8_t *)p)[k], "radix:not-zero", "a cell of index %#zx that was never used does not read as zero", (size_t)pool[i]);
        m[i].in = m[i].used = true; m[i].p = p; nin++;
        for (int j = 0; j < npool; ++j)
            SIM_CHECK(j == i || !m[j].in || m[j].p != p, "radix:alias", "indices %#zx and %#zx share a slot", (size_t)pool[i], (size_t)pool[j]);
    }
    fill(i, v);
}

static void exec(const sim_trace *tr)
{
    union { r1 a; r4 b; r8 c; r12 d; r24 e; } t;
    sim_heap *h = sim_heap_new(100, tr->cfg[4], (uint64_t)tr->cfg[3]);
    ty = (int)tr->cfg[0];
    if (ty < 0 || ty > 4) return;
    mkpool(tr);
    memset(m, 0, sizeof(m)); nin = 0;
    t.a = BFDEV_RADIX_INIT(&t.a, sim_heap_alloc(h));
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int k = (int)(o->a[0] % npool);
        if (k < 0) k = 0;
        sim_heap_op(h, o);
        switch (o->kind) {
        case ALLOC: do_alloc(h, &t, k, (uint8_t)o->a[2]); break;
        case SWEEP: for (int j = 0; j < o->a[1] && k < npool; ++j, ++k) do_alloc(h, &t, k, (uint8_t)(o->a[2] + j)); break;
        case WIPE: case FREE:
            for (int j = 0; j < (o->kind == FREE ? 1 : o->a[1]) && k < npool; ++j, ++k) {
                int rc = api[ty].free(&t, pool[k]);
                sim_log((uint64_t)rc);
                if (m[k].in) {
                    SIM_CHECK(!rc, "radix:free", "free of present index %#zx returned %d", (size_t)pool[k], rc);
                    drop(k);
                } else if (!blockin(k))
                    SIM_CHECK(rc, "radix:free-absent", "free of index %#zx in an unused part reported success", (size_t)pool[k]);
                SIM_CHECK(!sim_heap_failed(h), "radix:free-allocates", "free asked for memory");
            }
            break;
        case FIND: check_one(&t, k, true); break;
        case CHARGE: {
            /* reserve the blocks under a run of indices */
            uintptr_t lo = pool[k];
            if (ty == 0 && lo > (uintptr_t)o->a[1] && o->a[1] > 0 && o->a[2] < 32) {
                int rc = api[ty].charge(&t, lo, SIZE_MAX - lo + (size_t)o->a[1]);
                SIM_CHECK(rc, "radix:charge-overflow", "charging a range beyond the index space succeeded");
                SIM_CHECK(!sim_heap_requests(h), "radix:charge-overflow", "a refused charge asked for memory");
                sim_probe("charge_refused");
                break;
            }
            size_t n = (size_t)o->a[1];
            if (ty ? lo > UINTPTR_MAX / 32 - 4096 : lo > UINTPTR_MAX - n) break;
            if (lo > UINTPTR_MAX - 256) sim_probe("charged_the_last_block");
            int rc = api[ty].charge(&t, lo, n);
            sim_log((uint64_t)rc);
            if (rc) SIM_CHECK(rc == -BFDEV_ENOMEM && sim_heap_failed(h), "radix:charge", "charge returned %d", rc);
            else {
                /* reserved indices need no more memory */
                int f;
                sim_heap_calm(h);
                sim_heap_arm(h, 0, 1 << 30);
                for (f = 0; f < npool; ++f) if (pool[f] >= lo && pool[f] < lo + n) {
                    SIM_CHECK(api[ty].alloc(&t, pool[f]), "radix:charged-needs-memory", "index %#zx still needs memory after it was charged", (size_t)pool[f]);
                    sim_probe("used_charged_index_under_oom");
                }
                sim_heap_arm(h, -1, 0);
                sim_heap_budget(h, tr->cfg[4]);
            }
            /* charge marks slots of its own choosing: settle the range */
            sim_heap_arm(h, -1, 0);
            for (uintptr_t x = lo; x < lo + n; ++x) {
                int f = -1;
                for (int j = 0; j < npool; ++j) if (pool[j] == x) f = j;
                void *p = api[ty].find(&t, x);
                if (f < 0) { if (p) api[ty].free(&t, x); }
                else if (p && !m[f].in) { m[f].in = m[f].used = true; m[f].p = p; nin++; fill(f, (uint8_t)o->a[2]); }
            }
            break;
        }
        case NEXT: case PREV: {
            uintptr_t idx = pool[k];
            if (!m[k].in) break;
            void *p = o->kind == NEXT ? api[ty].next(&t, &idx) : api[ty].prev(&t, &idx);
            int want = step(k, o->kind == NEXT ? 1 : -1);
            SIM_CHECK((p != NULL) == (want >= 0), "radix:neighbour", "%s of %#zx is %s", opn[o->kind], (size_t)pool[k], p ? "present" : "absent");
            if (p) SIM_CHECK(idx == pool[want] && p == m[want].p, "radix:neighbour", "%s of %#zx is %#zx, expected %#zx", opn[o->kind], (size_t)pool[k], (size_t)idx, (size_t)pool[want]);
            break;
        }
        case WALK: {
            int form = forms[(unsigned)o->a[1] % 12], d = form & 1 ? -1 : 1, at, n = 0, want[POOL];
            bool from = form >= 4, cont = form == 6 || form == 7 || form >= 18, safe = form == 2 || form == 3 || form >= 16;
            uint64_t mask = safe ? (uint64_t)o->a[2] * 0x0101010101010101u : 0;
            if (from && !m[k].in) break;
            at = from ? (cont ? step(k, d) : k) : step(d > 0 ? -1 : npool, d);
            for (; at >= 0; at = step(at, d)) want[n++] = at;
            api[ty].walk(&t, form, pool[k], mask);
            SIM_CHECK(nseen == n, "radix:walk", "iteration form %d from %#zx visits %d cells, expected %d", form, (size_t)pool[k], nseen, n);
            for (int j = 0; j < n; ++j) {
                SIM_CHECK(seen[j].i == pool[want[j]] && seen[j].p == m[want[j]].p, "radix:walk", "iteration form %d yields %#zx, expected %#zx", form, (size_t)seen[j].i, (size_t)pool[want[j]]);
                if (mask >> (j & 63) & 1) { drop(want[j]); sim_probe("freed_while_iterating"); }
            }
            break;
        }
        case RELEASE:
            api[ty].release(&t);
            memset(m, 0, sizeof(m)); nin = 0;
            sim_heap_expect_empty(h, "radix release");
            break;
        }
        sim_heap_arm(h, -1, 0);
        for (int j = 0; j < npool; ++j) check_one(&t, j, true);
        iterate(&t);
        SIM_CHECK((long)sim_heap_blocks(h) <= need(), "radix:footprint", "%ld nodes for %d cells that need %ld", (long)sim_heap_blocks(h), nin, need());
        sim_state(sim_mix(sim_mix((uint64_t)nin, t.a.tree.level), o->kind * 2 + (sim_heap_failed(h) > 0)));
        if (t.a.tree.level >= 3) sim_probe("level>=3");
    }
    sim_heap_calm(h);
    for (int k = 0; k < npool; ++k) { do_alloc(h, &t, k, 7); SIM_CHECK(m[k].in, "radix:recovery", "alloc still fails after the faults stopped"); }
    iterate(&t);
    api[ty].release(&t);
    sim_heap_expect_empty(h, "radix release");
}

const sim_workload w_radix = { "C04", "radix", cfn, opn, gen, exec, 2000 };
