/* C08: bloom filter: no false negatives across any history, nothing survives a flush. */
#include "sim.h"
#include <bfdev/bloom.h>

enum { PUSH, PEEK, FLUSH, RECREATE, EXTREME, WIDE, NOPS_ };
static const char *const opn[] = { "push", "peek", "flush", "recreate", "extreme", "wide" };
static const char *const cfn[SIM_NCFG] = { "capacity", "funcs", "keys", "hashmode", "garbage", "seed" };
#define MAXK 512
static int keys[MAXK];
static bool in[MAXK];
static int nkeys, hashmode, npushed;
static uint64_t seed;

static unsigned hash(unsigned func, const void *key, void *pdata)
{
    unsigned k = (unsigned)*(const int *)key;
    SIM_CHECK(pdata == &nkeys, "bloom:pdata", "hash callback got a wrong private pointer");
    switch (hashmode) {
    case 0: return (unsigned)sim_mix(sim_mix(seed, k), func);
    case 1: return k;                                    /* every function the same */
    case 2: return k & 1;                                /* degenerate */
    default: return UINT32_MAX - (k * 31 + func);
    }
}

/* a machine with a megabyte to give */
#define SMALL (1u << 20)
static void *s_alloc(size_t n, void *p) { return n > SMALL ? NULL : malloc(n); }
static void *s_zalloc(size_t n, void *p) { return n > SMALL ? NULL : calloc(1, n); }
static void *s_realloc(void *b, size_t n, void *p) { return n > SMALL ? NULL : realloc(b, n); }
static void s_free(void *b, void *p) { free(b); }
static const bfdev_alloc_ops_t s_ops = { .alloc = s_alloc, .zalloc = s_zalloc, .realloc = s_realloc, .free = s_free };
static const bfdev_alloc_t s_mem = { .ops = &s_ops };

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 200, 100, 10, 10, 10, 1 };
    int n = (int)sim_range(r, 3, tier ? 300 : 100);
    tr->ncfg = 6;
    tr->cfg[0] = sim_chance(r, 1, 2) ? sim_range(r, 1, 200) : sim_range(r, 1, sim_chance(r, 1, 40) ? 1 << 20 : 20000);
    tr->cfg[1] = sim_range(r, 1, sim_chance(r, 1, 10) ? 64 : 8);
    tr->cfg[2] = sim_range(r, 1, sim_chance(r, 1, 2) ? 12 : MAXK);
    tr->cfg[3] = sim_chance(r, 1, 2) ? 0 : sim_range(r, 1, 3);
    tr->cfg[4] = (int64_t)sim_u64(r);
    tr->cfg[5] = (int64_t)(sim_u64(r) >> 1);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[2] = (int64_t)(sim_u64(r) >> 1);
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[2]);
        o->a[1] = (int64_t)sim_below(r, sim_chance(r, 1, 2) ? 70 : 1 << 30);
        if (faults) sim_arm(r, o, 1, 2, 0);
    }
}

/* many functions of which a single one tells the keys apart, or very many bits: none may be left out */
static unsigned wide_special;
static unsigned wide_hash(unsigned func, const void *key, void *pdata)
{
    SIM_CHECK(pdata == &wide_special, "bloom:pdata", "hash callback got a wrong private pointer");
    return (unsigned)sim_mix(sim_mix(seed, func), func == wide_special ? (uint64_t)*(const int *)key : 0);
}
static void wide(sim_heap *h, uint64_t x)
{
    static const unsigned span[] = { 70, 500, 2000, 70000 };
    unsigned style = (unsigned)(x % 16), funcs = style == 0 && x % 128 == 0 ? 66000 : style < 8 ? 1 + (unsigned)(x >> 8) % span[style % 3] : 1;
    unsigned cap = (1u << 12) + (unsigned)(x >> 24) % (1u << 18), npush = style < 8 ? 1 + (unsigned)(x >> 44) % 4 : 0, fp = 0;
    if (cap < funcs * 16) cap = funcs * 16;
    if (!npush) { cap += (unsigned)(x >> 50) % (1u << 20); npush = cap / 16; if (x & 1 << 6) npush = npush % 2000 + 1; }
    wide_special = (unsigned)(x >> 12) % funcs;
    seed = x;
    bfdev_bloom_t *b = bfdev_bloom_create(sim_heap_alloc(h), cap, wide_hash, funcs, &wide_special);
    SIM_CHECK(b, "bloom:create", "create of %u bits failed", cap);
    for (int k = 0; k < (int)npush; ++k) { bool was = bfdev_bloom_peek(b, &k); SIM_CHECK(bfdev_bloom_push(b, &k) == was, "bloom:push", "push differs from the peek before"); }
    for (int k = 0; k < (int)npush; ++k) SIM_CHECK(bfdev_bloom_peek(b, &k), "bloom:false-negative", "key %d of %u was pushed but is not found", k, npush);
    for (int k = 0; k < 60; ++k) { int a = -1 - k; fp += bfdev_bloom_peek(b, &a); }
    SIM_CHECK(fp < 30, "bloom:useless", "%u of 60 absent keys are claimed after %u pushes by %u functions into %u bits", fp, npush, funcs, cap);
    if (funcs > 300) sim_probe(funcs > 65535 ? "over_65535_functions" : "over_300_functions");
    if (cap > 1 << 16) sim_probe("wide_capacity");
    bfdev_bloom_flush(b);
    for (int k = 0; k < 60; ++k) SIM_CHECK(!bfdev_bloom_peek(b, &k), "bloom:ghost", "a flushed filter claims to hold key %d", k);
    bfdev_bloom_destroy(b);
}

static bfdev_bloom_t *create(sim_heap *h, const sim_trace *tr)
{
    bfdev_bloom_t *b = bfdev_bloom_create(sim_heap_alloc(h), (unsigned)tr->cfg[0], hash, (unsigned)tr->cfg[1], &nkeys);
    SIM_CHECK(b || sim_heap_failed(h), "bloom:create", "create failed with memory available");
    if (!b) sim_probe("create_failed_oom");
    memset(in, 0, sizeof(in)); npushed = 0;
    return b;
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(0, 0, (uint64_t)tr->cfg[4]);
    nkeys = (int)tr->cfg[2]; hashmode = (int)tr->cfg[3]; seed = (uint64_t)tr->cfg[5];
    if (nkeys < 1 || nkeys > MAXK || tr->cfg[0] < 1 || tr->cfg[0] > 1 << 20 || tr->cfg[1] < 1 || tr->cfg[1] > 64) return;
    for (int k = 0; k < nkeys; ++k) keys[k] = k * 7 + 1;
    bfdev_bloom_t *b = create(h, tr);
    SIM_CHECK(b, "bloom:create", "create failed");
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int k = (int)(o->a[0] % nkeys);
        if (k < 0) k = 0;
        bool was, got;
        sim_heap_op(h, o);
        switch (o->kind) {
        case PUSH:
            was = bfdev_bloom_peek(b, &keys[k]);
            got = bfdev_bloom_push(b, &keys[k]);
            SIM_CHECK(was == got, "bloom:push", "push reports %d for a key that peek reported %d", got, was);
            if (!npushed) SIM_CHECK(!was, "bloom:ghost", "an empty filter claims to hold key %d", k);
            in[k] = true; npushed++;
            break;
        case PEEK:
            got = bfdev_bloom_peek(b, &keys[k]);
            sim_log(got);
            if (got && !in[k]) sim_probe("false_positive");
            break;
        case FLUSH: bfdev_bloom_flush(b); memset(in, 0, sizeof(in)); npushed = 0; break;
        case RECREATE:
            bfdev_bloom_destroy(b);
            sim_heap_expect_empty(h, "bloom destroy");
            b = create(h, tr);
            sim_heap_arm(h, -1, 0);
            if (!b) { sim_heap_expect_empty(h, "failed bloom create"); b = create(h, tr); SIM_CHECK(b, "bloom:recovery", "create fails after the faults stopped"); }
            break;
        }
        if (o->kind == EXTREME) {
            /* more bits than the machine has: refused, never a filter that has no room for them */
            bfdev_bloom_t *x = bfdev_bloom_create(&s_mem, UINT32_MAX - (unsigned)o->a[1], hash, (unsigned)tr->cfg[1], &nkeys);
            sim_fault("capacity_beyond_memory");
            SIM_CHECK(!x, "bloom:capacity", "a filter of %u bits came out of a megabyte", UINT32_MAX - (unsigned)o->a[1]);
        }
        sim_heap_arm(h, -1, 0);
        if (o->kind == WIDE) { uint64_t keep = seed; wide(h, (uint64_t)o->a[2]); seed = keep; }
        int fp = 0, out = 0;
        for (int j = 0; j < nkeys; ++j) {
            got = bfdev_bloom_peek(b, &keys[j]);
            if (in[j]) SIM_CHECK(got, "bloom:false-negative", "key %d was pushed but is not found", j);
            else { out++; fp += got; }
            if (!npushed) SIM_CHECK(!got, "bloom:ghost", "an empty filter claims to hold key %d", j);
        }
        /* a sparse filter with a good hash tells most absent keys apart */
        if (!hashmode && tr->cfg[0] >= 4096 && npushed * tr->cfg[1] < 200 && out >= 100)
            SIM_CHECK(fp * 2 < out, "bloom:useless", "%d of %d absent keys are claimed by a sparse filter", fp, out);
        sim_state(sim_mix((uint64_t)npushed, (uint64_t)fp));
    }
    bfdev_bloom_destroy(b);
    sim_heap_expect_empty(h, "bloom destroy");
}

const sim_workload w_bloom = { "C08", "bloom", cfn, opn, gen, exec, 1 };
