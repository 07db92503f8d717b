/* A02: bump pool: blocks are inside, aligned, disjoint; reuse starts only when all were returned. */
#include "sim.h"
#include <bfdev/allocpool.h>

enum { ALLOC, FREE, RESET, HUGE_, MANY, NOPS_ };
static const char *const opn[] = { "alloc", "free", "reset", "huge", "many" };
static const char *const cfn[SIM_NCFG] = { "size", "offset" };
#define MAXB 256
static struct { uint8_t *p; size_t n; uint8_t fill; } b[MAXB];

/* blocks beyond what 8 or 16 bits count: none comes back before the last was returned */
static void many(size_t n, bool drain)
{
    size_t size = n * 16 + 64, live = 0, high = 0;
    uint8_t *blk;
    bfdev_allocpool_t pool;
    if (posix_memalign((void **)&blk, 4096, size)) return;
    bfdev_allocpool_init(&pool, blk, size);
    for (int round = 0; round < 2; ++round) {
        for (size_t i = 0; i < n; ++i) {
            uint8_t *p = bfdev_allocpool_alloc(&pool, 1, 1);
            SIM_CHECK(p, "allocpool:spurious-failure", "block %zu of %zu is refused with room left", i, n);
            SIM_CHECK(p >= blk + high && p < blk + size, "allocpool:overlap", "block %zu at %zd lies among the live ones", i, p - blk);
            high = (size_t)(p - blk) + 1;
            live++;
        }
        /* all but one go back: the pool is not empty yet */
        while (live > 1) { bfdev_allocpool_free(&pool, blk); live--; }
        uint8_t *p = bfdev_allocpool_alloc(&pool, 1, 1);
        SIM_CHECK(p && p >= blk + high, "allocpool:overlap", "a block is handed out over a live one after %zu of %zu were returned", n - 1, n);
        bfdev_allocpool_free(&pool, p);
        bfdev_allocpool_free(&pool, blk);
        live = high = 0;
        if (drain) bfdev_allocpool_reset(&pool);
        SIM_CHECK(bfdev_allocpool_alloc(&pool, size - 64, 1), "allocpool:spurious-failure", "an empty pool refuses a block that fits");
        bfdev_allocpool_free(&pool, blk);
    }
    sim_probe(n > 65536 ? "more_than_65536_blocks" : "many_blocks");
    free(blk);
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 14, 10, 1, 1, 0 }, n = (int)sim_range(r, 5, tier ? 300 : 100);
    w[FREE] = (int)sim_range(r, 2, 20);
    tr->ncfg = 2;
    tr->cfg[0] = faults ? sim_range(r, 1, 400) : 1 << 18;
    tr->cfg[1] = sim_range(r, 0, sim_chance(r, 1, 3) ? 4095 : 15);
    bool large = sim_chance(r, 1, 60);
    if (sim_chance(r, 1, 300)) w[MANY] = 1;
    if (large) tr->cfg[0] = sim_range(r, 1 << 12, 1 << 20);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, MAXB - 1);
        o->a[1] = sim_range(r, 0, sim_chance(r, 1, 3) ? 200 : 24);
        if (large) o->a[1] = sim_range(r, 0, 150000);
        o->a[2] = sim_chance(r, 1, 3) ? 0 : (int64_t)1 << sim_range(r, 0, large || sim_chance(r, 1, 6) ? 12 : 7);
        o->a[3] = sim_range(r, 0, 255);
    }
}

static void exec(const sim_trace *tr)
{
    bfdev_allocpool_t pool;
    size_t size = (size_t)tr->cfg[0], off = (size_t)tr->cfg[1] & 4095, high = 0;
    int nb = 0;
    if (size < 1 || size > 1 << 20) return;
    uint8_t *raw, *blk;
    if (posix_memalign((void **)&raw, 4096, size + off)) return;    /* alignment depends on the address: fix it */
    blk = raw + off;
    bfdev_allocpool_init(&pool, blk, size);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        size_t n = (size_t)o->a[1], al = (size_t)o->a[2];
        int k = nb ? (int)(o->a[0] % nb) : 0;
        if (k < 0) k = 0;
        if (n > 1 << 20) n = 1 << 20;
        if (al & (al - 1) || al > 4096) al = 8;
        switch (o->kind) {
        case ALLOC: {
            if (nb == MAXB) break;
            uint8_t *p = bfdev_allocpool_alloc(&pool, n, al);
            sim_log(p ? (uint64_t)(p - blk) : ~0ull);
            size_t want = al < sizeof(void *) ? sizeof(void *) : al;
            if (!n) { SIM_CHECK(!p, "allocpool:zero", "an empty request returned a block"); break; }
            if (!p) {
                uintptr_t at = ((uintptr_t)blk + high + want - 1) / want * want;
                SIM_CHECK(at + n > (uintptr_t)blk + size, "allocpool:spurious-failure", "%zu bytes are refused with room left", n);
                sim_fault("pool_exhausted");
                break;
            }
            SIM_CHECK(p >= blk && p + n <= blk + size, "allocpool:outside", "the block lies outside the pool");
            SIM_CHECK((uintptr_t)p % want == 0, "allocpool:misaligned", "the block is not aligned to %zu", want);
            for (int j = 0; j < nb; ++j) SIM_CHECK(p + n <= b[j].p || b[j].p + b[j].n <= p, "allocpool:overlap", "the block overlaps a live one");
            b[nb].p = p; b[nb].n = n; b[nb].fill = (uint8_t)o->a[3];
            memset(p, b[nb].fill, n);
            nb++;
            high = (size_t)(p - blk) + n;
            break;
        }
        case FREE:
            if (!nb) break;
            bfdev_allocpool_free(&pool, b[k].p);
            b[k] = b[--nb];
            if (!nb) { high = 0; sim_probe("emptied"); }
            break;
        case RESET: bfdev_allocpool_reset(&pool); nb = 0; high = 0; break;
        case MANY: many((size_t)((uint64_t)o->a[0] * 4099 % 70000 + 200) % (o->a[3] & 1 ? 70000 : 800) + (o->a[3] % 3 ? 250 : 65400), o->a[2] & 1); break;
        case HUGE_: SIM_CHECK(!bfdev_allocpool_alloc(&pool, SIZE_MAX - (size_t)o->a[1], al), "allocpool:huge", "a huge request succeeded"); sim_fault("unsatisfiable_size"); break;
        }
        for (int j = 0; j < nb; ++j) for (size_t x = 0; x < b[j].n; ++x)
            SIM_CHECK(b[j].p[x] == b[j].fill, "allocpool:content", "a live block changed");
        sim_state(sim_mix((uint64_t)nb, high));
    }
    free(raw);
}

const sim_workload w_allocpool = { "A02", "allocpool", cfn, opn, gen, exec, 1 };
