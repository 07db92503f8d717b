/* A01: arena allocator: live blocks are inside, disjoint, intact; holes are found again; nothing is lost. */
#include "sim.h"
#include <bfdev/memalloc.h>

enum { ALLOC, FREE, REALLOC, HUGE_, FREEALL, NOPS_ };
static const char *const opn[] = { "alloc", "free", "realloc", "huge", "free-all" };
static const char *const cfn[SIM_NCFG] = { "policy", "arena", "garbage" };
#define MAXB 128
#define HDR sizeof(bfdev_memalloc_chunk_t)
#define SLACK (HDR + BFDEV_MEMALLOC_ALIGN)
static struct { uint8_t *p; size_t n, cap; uint8_t fill; } b[MAXB];
static int nb, policy;
static uint8_t *arena;
static size_t asize;

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 600 : 150);
    static const int base[NOPS_] = { 14, 10, 10, 1, 1 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i <= FREE);
    tr->ncfg = 3;
    tr->cfg[0] = sim_range(r, 0, 2);
    /* the fault of this component is exhaustion: tight arenas in the faulty configuration */
    tr->cfg[1] = faults ? sim_range(r, 200, sim_chance(r, 1, 2) ? 1500 : 6000) : 1 << 20;
    tr->cfg[2] = (int64_t)sim_u64(r);
    bool large = sim_chance(r, 1, 100);
    if (large) tr->cfg[1] = sim_range(r, 1 << 16, 1 << 22);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, MAXB - 1);
        o->a[1] = sim_chance(r, 1, 2) ? sim_range(r, 0, 64) : sim_range(r, 0, sim_chance(r, 1, 8) ? 6000 : 700);
        if (large && sim_chance(r, 1, 3)) o->a[1] = sim_range(r, 0, sim_chance(r, 1, 2) ? 300000 : tr->cfg[1]);
        o->a[2] = sim_range(r, 0, 255);
    }
}

static size_t up(size_t n) { return (n + BFDEV_MEMALLOC_ALIGN - 1) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN; }
static void fill(int i) { for (size_t k = 0; k < b[i].n; ++k) b[i].p[k] = (uint8_t)(b[i].fill + k * 7); }
static void intact(int i, size_t n, const char *after)
{
    for (size_t k = 0; k < n; ++k)
        SIM_CHECK(b[i].p[k] == (uint8_t)(b[i].fill + k * 7), "memalloc:content", "byte %zu of a %zu-byte block changed after %s", k, b[i].n, after);
}
/* the largest request a hole is certain to hold, given what the callers were told */
static size_t sure_fit(void)
{
    size_t best = 0;
    uint8_t *start = arena + HDR, *last = arena;   /* first possible data byte of the hole */
    for (;;) {
        int nx = -1;
        for (int i = 0; i < nb; ++i) if (b[i].p > last && (nx < 0 || b[i].p < b[nx].p)) nx = i;
        uint8_t *end = nx < 0 ? arena + asize : b[nx].p - HDR;
        if (end > start && (size_t)(end - start) > best) best = (size_t)(end - start);
        if (nx < 0) break;
        last = b[nx].p;
        start = last + up(b[nx].cap) + SLACK + HDR;
    }
    return best / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN;
}

static void place(int i, const char *op)
{
    uint8_t *p = b[i].p;
    SIM_CHECK(p >= arena + HDR && p + b[i].n <= arena + asize, "memalloc:outside", "%s returned a block outside the arena", op);
    SIM_CHECK((uintptr_t)p % sizeof(void *) == 0, "memalloc:misaligned", "%s returned a misaligned block", op);
    for (int j = 0; j < nb; ++j) if (j != i) {
        SIM_CHECK(p + b[i].n <= b[j].p - HDR || b[j].p + b[j].n <= p - HDR, "memalloc:overlap", "%s returned a block overlapping a live one or its header", op);
    }
}

static void exec(const sim_trace *tr)
{
    static const bfdev_memalloc_find_t finds[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    bfdev_memalloc_head_t head;
    policy = (int)tr->cfg[0] % 3; asize = (size_t)tr->cfg[1];
    if (policy < 0 || asize < 100 || asize > 1 << 22) return;
    arena = malloc(asize);        /* exact bounds: AddressSanitizer guards both ends */
    sim_rng g; sim_seed(&g, (uint64_t)tr->cfg[2]);
    for (size_t k = 0; k < asize && k < 4096; ++k) arena[k] = (uint8_t)sim_u64(&g);
    nb = 0;
    bfdev_memalloc_init(&head, finds[policy], arena, asize);
    size_t avail0 = head.avail;
    SIM_CHECK(avail0 < asize && avail0 >= asize - HDR - BFDEV_MEMALLOC_ALIGN, "memalloc:avail", "%zu bytes available in a fresh arena of %zu", avail0, asize);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        size_t n = (size_t)o->a[1];
        int k = nb ? (int)(o->a[0] % nb) : 0;
        if (k < 0) k = 0;
        if (n > 1 << 22) n = 1 << 22;
        switch (o->kind) {
        case ALLOC: {
            if (nb == MAXB) break;
            size_t sure = sure_fit();
            bfdev_memalloc_chunk_t *c = finds[policy](&head, up(n));
            size_t want = 0; bool have = false;
            bfdev_memalloc_chunk_t *w;
            bfdev_list_for_each_entry(w, &head.free_list, free) {
                size_t s = w->usize & ~(size_t)1;
                if (s < up(n)) continue;
                if (!have || (policy == 1 && s < want) || (policy == 2 && s > want)) want = s;
                have = true;
            }
            /* a request for no bytes is allowed to ignore holes without room */
            if (up(n)) SIM_CHECK((c != NULL) == have, "memalloc:policy", "the fit policy %s a chunk, but %s exists", c ? "chose" : "found no", have ? "one" : "none");
            if (up(n) && c && policy) SIM_CHECK((c->usize & ~(size_t)1) == want, "memalloc:policy", "the fit policy chose a chunk of %zu bytes, expected %zu", (size_t)c->usize & ~(size_t)1, want);
            void *p = bfdev_memalloc_alloc(&head, n);
            sim_log(p ? (uint64_t)((uint8_t *)p - arena) : 1);
            if (!p) {
                sim_fault("arena_exhausted");
                SIM_CHECK(!sure || up(n) > sure, "memalloc:spurious-failure", "alloc of %zu failed although a hole of %zu bytes exists", n, sure);
                break;
            }
            b[nb].p = p; b[nb].n = n; b[nb].cap = n; b[nb].fill = (uint8_t)o->a[2]; nb++;
            place(nb - 1, "alloc");
            fill(nb - 1);
            break;
        }
        case FREE:
            if (!nb) break;
            intact(k, b[k].n, "other operations");
            bfdev_memalloc_free(&head, b[k].p);
            b[k] = b[--nb];
            break;
        case REALLOC: {
            if (!nb) break;
            size_t sure = sure_fit(), old = b[k].n, behind;
            uint8_t *was = b[k].p, *end = arena + asize;
            for (int j = 0; j < nb; ++j) if (b[j].p > was && b[j].p - HDR < end) end = b[j].p - HDR;
            behind = (size_t)(end - was) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN;
            void *p = bfdev_memalloc_realloc(&head, was, n);
            sim_log(p ? (uint64_t)((uint8_t *)p - arena) : 1);
            if (!p) {
                sim_fault("arena_exhausted");
                SIM_CHECK(n > old, "memalloc:shrink-failed", "realloc from %zu to %zu bytes failed", old, n);
                SIM_CHECK(!sure || up(n) > sure, "memalloc:spurious-failure", "realloc to %zu failed although a hole of %zu bytes exists", n, sure);
                SIM_CHECK(up(n) > behind, "memalloc:no-growth", "realloc to %zu failed although the next block is %zu bytes away", n, behind);
                intact(k, old, "a failed realloc");
                sim_probe("realloc_failed");
                break;
            }
            if (p != was) { sim_probe("realloc_moved"); b[k].cap = n; } else { if (n > old) sim_probe("realloc_grew_in_place"); if (n > b[k].cap) b[k].cap = n; }
            b[k].p = p; b[k].n = n;
            place(k, "realloc");
            intact(k, old < n ? old : n, "realloc");
            b[k].fill = (uint8_t)o->a[2];
            fill(k);
            break;
        }
        case HUGE_: {
            size_t huge = SIZE_MAX - (size_t)(o->a[1] % 100);
            SIM_CHECK(!bfdev_memalloc_alloc(&head, huge), "memalloc:huge", "alloc of %zu bytes succeeded", huge);
            if (nb) SIM_CHECK(!bfdev_memalloc_realloc(&head, b[k].p, huge), "memalloc:huge", "realloc to %zu bytes succeeded", huge);
            sim_fault("unsatisfiable_size");
            break;
        }
        case FREEALL:
            while (nb) { int j = (int)(sim_mix((uint64_t)nb, (uint64_t)o->a[2]) % (uint64_t)nb); intact(j, b[j].n, "other operations"); bfdev_memalloc_free(&head, b[j].p); b[j] = b[--nb]; }
            break;
        }
        for (int j = 0; j < nb; ++j) intact(j, b[j].n, opn[o->kind]);
        if (!nb) {
            SIM_CHECK(head.avail == avail0, "memalloc:lost", "%zu bytes available with nothing allocated, expected %zu", head.avail, avail0);
            size_t whole = (asize - HDR) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN;
            void *p = bfdev_memalloc_alloc(&head, whole);
            SIM_CHECK(p, "memalloc:fragmented", "the whole arena cannot be allocated with nothing allocated");
            memset(p, 0x5a, whole);
            bfdev_memalloc_free(&head, p);
        }
        sim_state(sim_mix(sim_mix((uint64_t)nb, head.avail / 64), o->kind));
    }
    while (nb) bfdev_memalloc_free(&head, b[--nb].p);
    SIM_CHECK(head.avail == avail0, "memalloc:lost", "%zu bytes available after everything was freed, expected %zu", head.avail, avail0);
    free(arena);
}

const sim_workload w_memalloc = { "A01", "memalloc", cfn, opn, gen, exec, 1 };
