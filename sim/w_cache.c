/*
 * C06: the cache hands out, protects and recycles elements consistently.
 * C07: recycling follows the configured replacement policy.
 * Several simulated clients take, hold, commit and drop references in a seeded order.
 */
#include "sim.h"
#include <bfdev/cache.h>
#include <bfdev/errno.h>

enum { GET, TRYGET, CUMUL, PUT, COMMIT, DEL, SET, FIND, RESET, DROPALL, NOPS_ };
static const char *const opn[] = { "get", "try-get", "cumulative", "put", "commit", "del", "set", "find", "reset", "put-all" };
static const char *const cfn[SIM_NCFG] = { "policy", "size", "maxpend", "tags", "hashmode", "garbage" };

#define MAXT 400
#define MAXS 512
typedef struct { int tag; } data;
enum { S_NONE = -1, S_PENDING = 1, S_USING, S_MANAGED };
static struct { int state; unsigned long ref, uses, stamp; bfdev_cache_node_t *node; } m[MAXT];
static data dat[MAXS];
static int ntags, hashmode, cap, policy, prop7;
static unsigned long clk, pend, hits, misses, starved, changed;
static unsigned long fresh, uses;         /* elements handed out anew; hits and renames */
static bool starving, diverged;

static unsigned long op_hash(const void *tag, void *pdata)
{
    unsigned long t = (unsigned long)(uintptr_t)tag;
    SIM_CHECK(pdata == &dat, "cache:pdata", "callback got a wrong private pointer");
    switch (hashmode) { case 0: return t; case 1: return 0; case 2: return t & 1; default: return (unsigned long)sim_mix(t, 7); }
}
static long op_find(const void *node, const void *tag, void *pdata)
{
    const data *d = node;
    SIM_CHECK(pdata == &dat, "cache:pdata", "callback got a wrong private pointer");
    return d->tag != (int)(uintptr_t)tag;
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 400 : 160);
    static const int base[NOPS_] = { 22, 3, 4, 18, 14, 2, 2, 2, 1, 1 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, faults ? 0 : 1, 3) + (i == GET || i == COMMIT);
    if (!faults) w[RESET] = 0;
    tr->ncfg = 6;
    tr->cfg[0] = sim_chance(r, 1, 5) ? 2 : sim_range(r, 0, 1);
    tr->cfg[1] = sim_range(r, 2, sim_chance(r, 1, 2) ? 5 : 32);
    tr->cfg[2] = sim_chance(r, 1, 3) ? 1 : sim_range(r, 1, 40);
    tr->cfg[3] = sim_range(r, 1, sim_chance(r, 1, 2) ? 10 : 96);
    tr->cfg[4] = sim_range(r, 0, 3);
    tr->cfg[5] = (int64_t)sim_u64(r);
    if (sim_chance(r, 1, 100)) { n *= 4; tr->cfg[1] = sim_range(r, 33, 300); tr->cfg[2] = sim_range(r, 1, 300); tr->cfg[3] = MAXT; }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        int64_t span = sim_chance(r, 1, 2) ? tr->cfg[3] : tr->cfg[3] / 3 + 1;
        o->a[0] = (int64_t)sim_below(r, (uint64_t)span);
        o->a[1] = (int64_t)sim_below(r, (uint64_t)tr->cfg[3]);
        if (faults) sim_arm(r, o, 1, 8, 40);
    }
}

/* what C06 decides only ends a C07 run */
#define P6(cond, ...) do { if (!prop7) SIM_CHECK(cond, __VA_ARGS__); else if (!(cond)) { diverged = true; return; } } while (0)

static int count(int st) { int n = 0; for (int t = 0; t < MAXT; ++t) n += m[t].state == st; return n; }
static int nfree(void) { return cap - count(S_PENDING) - count(S_USING) - count(S_MANAGED); }
static void *tagp(int t) { return (void *)(uintptr_t)t; }

static void obtain(bfdev_cache_head_t *c, int t, unsigned long flags)
{
    bfdev_cache_node_t *n = flags == BFDEV_CACHE_CHANGE ? bfdev_cache_get(c, tagp(t))
        : flags ? bfdev_cache_cumulative(c, tagp(t)) : bfdev_cache_try_get(c, tagp(t));
    sim_log(n ? n->index + 1 : 0);
    if (starving) {
        P6(!n, "cache:starving", "a starving cache handed out an element");
        starved++;
        sim_fault("cache_starving");
        return;
    }
    if (m[t].state != S_NONE) {
        hits++;
        if (m[t].state == S_PENDING && !(flags & BFDEV_CACHE_UNCOMMITTED)) {
            P6(!n, "cache:pending", "an uncommitted element was handed out to a plain get");
            return;
        }
        P6(n == m[t].node, "cache:hit", "a cached tag was answered with %s element", n ? "another" : "no");
        m[t].ref++;
        if (m[t].state != S_PENDING) { m[t].state = S_USING; m[t].uses++; uses++; }
    } else {
        misses++;
        if (!(flags & BFDEV_CACHE_CHANGE)) {
            P6(!n, "cache:try", "try-get of an absent tag returned an element");
            return;
        }
        int fr = nfree();
        if (!fr && !count(S_MANAGED)) {
            P6(!n, "cache:starved", "an element was handed out although all are held");
            starving = true;
            return;
        }
        if (pend >= (unsigned long)c->maxpend) {
            P6(!n, "cache:maxpend", "more changes are pending than allowed");
            sim_fault("pending_limit");
            return;
        }
        SIM_CHECK(n, prop7 ? "policy:refused" : "cache:refused", "get of an absent tag was refused with %d free and %d idle elements", fr, count(S_MANAGED));
        /* which element was recycled? */
        int victim = -1;
        for (int j = 0; j < ntags; ++j) if (m[j].state != S_NONE && m[j].node == n) victim = j;
        if (fr) P6(victim < 0, "cache:evict-early", "a cached element was evicted while free ones exist");
        else {
            P6(victim >= 0, "cache:evict", "an unknown element was handed out");
            P6(m[victim].state == S_MANAGED, "cache:evict-held", "an element still held (%lu references) was recycled", m[victim].ref);
            for (int j = 0; j < ntags && prop7; ++j) if (m[j].state == S_MANAGED) {
                if (policy == 2) SIM_CHECK(m[j].stamp <= m[victim].stamp, "policy:mru", "tag %d was evicted although the policy names tag %d", victim, j);
                else if (!policy) SIM_CHECK(m[j].stamp >= m[victim].stamp, "policy:lru", "tag %d was evicted although tag %d was released earlier", victim, j);
                else SIM_CHECK(m[j].uses >= m[victim].uses, "policy:lfu", "tag %d (%lu uses) was evicted although tag %d has %lu", victim, m[victim].uses, j, m[j].uses);
            }
            m[victim].state = S_NONE;
            sim_probe("evicted");
        }
        P6(n->index < (unsigned long)cap, "cache:index", "element index %lu out of range", n->index);
        P6(n->status == BFDEV_CACHE_PENDING, "cache:status", "a fresh element is in state %d", n->status);
        dat[n->index].tag = t;
        n->data = &dat[n->index];
        m[t].state = S_PENDING; m[t].ref = 1; m[t].uses = 0; m[t].node = n;
        fresh++;
        pend++;
    }
    P6(n->refcnt == m[t].ref, "cache:refcnt", "the element counts %lu references, expected %lu", n->refcnt, m[t].ref);
    P6((int)(uintptr_t)n->tag == t, "cache:tag", "the element of tag %d carries tag %d", t, (int)(uintptr_t)n->tag);
}

static void put(bfdev_cache_head_t *c, int t)
{
    if (m[t].state == S_NONE) return;
    unsigned long rc = bfdev_cache_put(c, m[t].node);
    if (m[t].state != S_USING) { P6((long)rc == -BFDEV_EINVAL, "cache:put", "put of an element that is not in use returned %ld", (long)rc); return; }
    m[t].ref--;
    P6(rc == m[t].ref, "cache:put", "put returned %lu, expected %lu", rc, m[t].ref);
    if (!m[t].ref) { m[t].state = S_MANAGED; m[t].stamp = ++clk; starving = false; }
}

/* a handle that lost its element */
static void gone(bfdev_cache_head_t *c, bfdev_cache_node_t *n)
{
    P6(bfdev_cache_del(c, n) == -BFDEV_EBUSY, "cache:stale", "del through a handle that lost its element was accepted");
    P6((long)bfdev_cache_put(c, n) == -BFDEV_EINVAL, "cache:stale", "put through a handle that lost its element was accepted");
    P6(bfdev_cache_set(c, n, tagp(0)) == -BFDEV_EBUSY, "cache:stale", "rename through a handle that lost its element was accepted");
}
static void check(bfdev_cache_head_t *c)
{
    int used = count(S_PENDING) + count(S_USING);
    P6(c->used == (unsigned long)used, "cache:used", "%lu elements counted as used, expected %d", c->used, used);
    P6(c->pending == pend, "cache:pending-count", "%lu changes counted as pending, expected %lu", c->pending, pend);
    P6(c->hits == hits && c->misses == misses, "cache:counters", "hits/misses are %lu/%lu, expected %lu/%lu", c->hits, c->misses, hits, misses);
    P6(c->starve == starved && c->changed == changed, "cache:counters", "starve/changed are %lu/%lu, expected %lu/%lu", c->starve, c->changed, starved, changed);
    for (int t = 0; t < ntags; ++t) {
        bfdev_cache_node_t *n = bfdev_cache_find(c, tagp(t));
        bool vis = m[t].state == S_USING || m[t].state == S_MANAGED;
        P6((n != NULL) == vis, "cache:find", "find of tag %d is %s in state %d", t, n ? "present" : "absent", m[t].state);
        if (!n) continue;
        P6(n == m[t].node, "cache:find", "find of tag %d returns another element", t);
        P6(n->refcnt == m[t].ref, "cache:refcnt", "tag %d counts %lu references, expected %lu", t, n->refcnt, m[t].ref);
        P6(n->status == (m[t].state == S_USING ? BFDEV_CACHE_USING : BFDEV_CACHE_MANAGED), "cache:status", "tag %d is in state %d", t, n->status);
    }
}

/* a replacement policy of the application's own: the element released last goes first */
#include <bfdev/container.h>
struct mru { bfdev_cache_head_t cache; bfdev_cache_node_t *stack[MAXS]; int n; };
#define MRU(h) bfdev_container_of(h, struct mru, cache)
static unsigned updates, clears;
static bool mru_starving(bfdev_cache_head_t *h) { return !MRU(h)->n; }
static bfdev_cache_node_t *mru_obtain(bfdev_cache_head_t *h) { struct mru *u = MRU(h); SIM_CHECK(u->n > 0, "cache:policy-empty", "the policy is asked for an element it does not have"); return u->stack[--u->n]; }
static void mru_get(bfdev_cache_head_t *h, bfdev_cache_node_t *n)
{
    struct mru *u = MRU(h);
    int i = 0;
    while (i < u->n && u->stack[i] != n) ++i;
    SIM_CHECK(i < u->n, "cache:policy-get", "the policy is asked to give up an element it does not hold");
    memmove(u->stack + i, u->stack + i + 1, sizeof(*u->stack) * (size_t)(--u->n - i));
}
static void mru_put(bfdev_cache_head_t *h, bfdev_cache_node_t *n)
{
    struct mru *u = MRU(h);
    for (int i = 0; i < u->n; ++i) SIM_CHECK(u->stack[i] != n, "cache:policy-put", "the policy is given an element twice");
    SIM_CHECK(u->n < MAXS, "cache:policy-put", "the policy is given more elements than exist");
    u->stack[u->n++] = n;
}
static void mru_update(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { (void)h; (void)n; updates++; }
static void mru_clear(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { (void)h; (void)n; clears++; }
static void mru_reset(bfdev_cache_head_t *h) { MRU(h)->n = 0; }
static void mru_destroy(bfdev_cache_head_t *h)
{
    const bfdev_alloc_t *a = h->alloc;
    for (unsigned long i = 0; i < h->size; ++i) bfdev_free(a, h->nodes[i]);
    bfdev_free(a, h->nodes);
    bfdev_free(a, MRU(h));
}
static bfdev_cache_head_t *mru_create(const bfdev_alloc_t *a, unsigned long size)
{
    struct mru *u = bfdev_zalloc(a, sizeof(*u));
    unsigned long i;
    if (!u) return NULL;
    u->cache.nodes = bfdev_zalloc_array(a, size, sizeof(*u->cache.nodes));
    if (!u->cache.nodes) { bfdev_free(a, u); return NULL; }
    for (i = 0; i < size; ++i) if (!(u->cache.nodes[i] = bfdev_zalloc(a, sizeof(**u->cache.nodes)))) {
        while (i--) bfdev_free(a, u->cache.nodes[i]);
        bfdev_free(a, u->cache.nodes);
        bfdev_free(a, u);
        return NULL;
    }
    return &u->cache;
}
static void registry(bfdev_cache_algo_t *mru, bool on, sim_heap *h, const bfdev_cache_ops_t *ops)
{
    static const bfdev_cache_algo_t full = {
        .name = "mru", .starving = mru_starving, .obtain = mru_obtain, .get = mru_get, .put = mru_put,
        .update = mru_update, .clear = mru_clear, .reset = mru_reset, .create = mru_create, .destroy = mru_destroy,
    };
    bfdev_cache_algo_t part, twin = full;
    bfdev_cache_head_t *c;
    if (on) {
        *mru = full;
        SIM_CHECK(bfdev_cache_unregister(mru) == -BFDEV_ENOENT, "cache:registry", "a policy that was never registered could be removed");
        for (int miss = 0; miss < 8; ++miss) {
            part = full;
            switch (miss) {
            case 0: part.name = NULL; break;
            case 1: part.starving = NULL; break;
            case 2: part.obtain = NULL; break;
            case 3: part.get = NULL; break;
            case 4: part.put = NULL; break;
            case 5: part.reset = NULL; break;
            case 6: part.create = NULL; break;
            case 7: part.destroy = NULL; break;
            }
            SIM_CHECK(bfdev_cache_register(&part) == -BFDEV_EINVAL, "cache:registry", "an incomplete policy (%d) was registered", miss);
        }
        SIM_CHECK(!bfdev_cache_create("mru", sim_heap_alloc(h), ops, 8, 1, &dat), "cache:registry", "a policy can be used that is not registered");
        SIM_CHECK(!bfdev_cache_register(mru), "cache:registry", "registering a policy failed");
        SIM_CHECK(bfdev_cache_register(&twin) == -BFDEV_EALREADY, "cache:registry", "a second policy of the same name was registered");
        twin.name = "lru";
        SIM_CHECK(bfdev_cache_register(&twin) == -BFDEV_EALREADY, "cache:registry", "a second policy of the same name was registered");
    } else {
        SIM_CHECK(bfdev_cache_unregister(&twin) == -BFDEV_ENOENT, "cache:registry", "a policy that was never registered could be removed");
        SIM_CHECK(!bfdev_cache_unregister(mru), "cache:registry", "removing a policy failed");
        SIM_CHECK(bfdev_cache_unregister(mru) == -BFDEV_ENOENT, "cache:registry", "a policy could be removed twice");
        SIM_CHECK(!bfdev_cache_create("mru", sim_heap_alloc(h), ops, 8, 1, &dat), "cache:registry", "a removed policy can still be used");
        c = bfdev_cache_create("lfu", sim_heap_alloc(h), ops, 2, 1, &dat);
        SIM_CHECK(c, "cache:registry", "the other policies were lost with a removed one");
        bfdev_cache_destroy(c);
    }
}

static void run(const sim_trace *tr, int p7)
{
    static const bfdev_cache_ops_t ops = { .hash = op_hash, .find = op_find };
    static const bfdev_cache_ops_t nohash = { .find = op_find }, nofind = { .hash = op_hash };
    static const char *const names[] = { "lru", "lfu", "mru" };
    static bfdev_cache_algo_t mru;
    bfdev_cache_head_t *c;
    sim_heap *h = sim_heap_new(100, 0, (uint64_t)tr->cfg[5]);
    prop7 = p7;
    policy = (int)((uint64_t)tr->cfg[0] % (p7 ? 2 : 3)); ntags = (int)tr->cfg[3]; hashmode = (int)tr->cfg[4] & 3;
    if (tr->cfg[1] < 2 || tr->cfg[1] > MAXS || tr->cfg[2] < 1 || ntags < 1 || ntags > MAXT) return;
    for (cap = 2; cap < tr->cfg[1]; cap *= 2) ;
    for (int t = 0; t < MAXT; ++t) m[t].state = S_NONE;
    memset(dat, 0xff, sizeof(dat));
    clk = pend = hits = misses = starved = changed = fresh = uses = 0; starving = false; diverged = false;
    if (policy == 2) registry(&mru, true, h, &ops);
    /* every allocation of the set-up may fail: nothing may leak, and the next attempt works */
    for (int i = 0; i < tr->nops; ++i) if (tr->ops[i].fskip >= 0) {
        sim_heap_op(h, &tr->ops[i]);
        c = bfdev_cache_create(names[policy], sim_heap_alloc(h), &ops, (unsigned long)tr->cfg[1], (unsigned long)tr->cfg[2], &dat);
        if (!c) {
            SIM_CHECK(sim_heap_failed(h), "cache:create", "create failed with memory available");
            sim_probe("create_failed_oom");
            sim_heap_expect_empty(h, "failed cache create");
        } else { SIM_CHECK(!sim_heap_failed(h), "cache:create", "create succeeded although an allocation failed"); bfdev_cache_destroy(c); sim_heap_expect_empty(h, "cache destroy"); }
    }
    sim_heap_calm(h);
    SIM_CHECK(!bfdev_cache_create("no-such-policy", sim_heap_alloc(h), &ops, 8, 1, &dat), "cache:create", "create with an unknown policy succeeded");
    SIM_CHECK(!bfdev_cache_create(names[policy], sim_heap_alloc(h), &nohash, 8, 1, &dat) && !bfdev_cache_create(names[policy], sim_heap_alloc(h), &nofind, 8, 1, &dat),
        "cache:create", "create without a hash or find callback succeeded");
    SIM_CHECK(!bfdev_cache_create(names[policy], sim_heap_alloc(h), &ops, 1, 1, &dat), "cache:create", "a cache of one element was created");
    c = bfdev_cache_create(names[policy], sim_heap_alloc(h), &ops, (unsigned long)tr->cfg[1], (unsigned long)tr->cfg[2], &dat);
    SIM_CHECK(c, "cache:create", "create failed");
    updates = clears = 0;
    for (int i = 0; i < cap && !p7; ++i) {
        SIM_CHECK(bfdev_cache_del(c, c->nodes[i]) == -BFDEV_EBUSY, "cache:fresh", "del of an element that was never handed out was accepted");
        SIM_CHECK((long)bfdev_cache_put(c, c->nodes[i]) == -BFDEV_EINVAL, "cache:fresh", "put of an element that was never handed out was accepted");
    }
    size_t blocks = sim_heap_blocks(h);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int t = (int)(o->a[0] % ntags), u = (int)(o->a[1] % ntags);
        if (t < 0) t = 0;
        if (u < 0) u = 0;
        switch (o->kind) {
        case GET: obtain(c, t, BFDEV_CACHE_CHANGE); break;
        case TRYGET: obtain(c, t, 0); break;
        case CUMUL: obtain(c, t, BFDEV_CACHE_CUMULATIVE); break;
        case PUT:
            /* a client that holds something drops it */
            for (int j = 0; j < ntags; ++j) { int k = (t + j) % ntags; if (m[k].state == S_USING) { t = k; break; } }
            put(c, t);
            break;
        case DROPALL: for (int j = 0; j < ntags; ++j) { int k = (t + j) % ntags; while (m[k].state == S_USING && !diverged) put(c, k); } break;
        case COMMIT:
            bfdev_cache_committed(c);
            for (int j = 0; j < ntags; ++j) if (m[j].state == S_PENDING) { m[j].state = S_USING; changed++; }
            pend = 0;
            break;
        case DEL: {
            for (int j = 0; j < ntags && o->a[1] % 3; ++j) { int k = (t + j) % ntags; if (m[k].state == S_MANAGED) { t = k; break; } }
            if (m[t].state == S_NONE) break;
            int rc = bfdev_cache_del(c, m[t].node);
            if (m[t].state == S_MANAGED) { P6(!rc, "cache:del", "del of an idle element returned %d", rc); m[t].state = S_NONE; sim_probe("deleted"); gone(c, m[t].node); }
            else P6(rc == -BFDEV_EBUSY, "cache:del", "del of a held element returned %d", rc);
            break;
        }
        case SET: {
            for (int j = 0; j < ntags && o->a[1] % 3; ++j) { int k = (t + j) % ntags; if (m[k].state == S_MANAGED) { t = k; break; } }
            for (int j = 0; j < ntags; ++j) { int k = (u + j) % ntags; if (m[k].state == S_NONE) { u = k; break; } }
            if (m[t].state == S_NONE || m[u].state != S_NONE) break;
            if (m[t].state == S_MANAGED) dat[m[t].node->index].tag = u;
            int rc = bfdev_cache_set(c, m[t].node, tagp(u));
            if (m[t].state == S_MANAGED) {
                P6(!rc, "cache:set", "rename of an idle element returned %d", rc);
                m[u] = m[t]; m[u].uses++; uses++; m[u].stamp = ++clk;
                m[t].state = S_NONE;
                sim_probe("renamed");
            } else P6(rc == -BFDEV_EBUSY, "cache:set", "rename of a held element returned %d", rc);
            break;
        }
        case FIND: break;
        case RESET:
            bfdev_cache_reset(c);
            for (int j = 0; j < MAXT; ++j) if (m[j].state != S_NONE) { m[j].state = S_NONE; gone(c, m[j].node); }
            pend = hits = misses = starved = 0; starving = false;
            changed = c->changed;
            sim_probe("reset");
            break;
        }
        check(c);
        if (diverged) return;
        SIM_CHECK(sim_heap_blocks(h) == blocks, "cache:heap", "the cache changed its memory after creation");
        sim_state(sim_mix(sim_mix((uint64_t)count(S_USING) * 64 + (uint64_t)count(S_MANAGED), pend), o->kind * 2 + starving));
    }
    /* progress once every client lets go */
    bfdev_cache_committed(c);
    for (int j = 0; j < ntags; ++j) if (m[j].state == S_PENDING) { m[j].state = S_USING; changed++; }
    pend = 0;
    for (int j = 0; j < ntags; ++j) while (m[j].state == S_USING && !diverged) put(c, j);
    for (int j = 0; j < ntags; ++j) {
        obtain(c, j, BFDEV_CACHE_CHANGE);
        if (diverged) return;
        SIM_CHECK(m[j].state != S_NONE, prop7 ? "policy:progress" : "cache:progress", "get of tag %d is refused although nothing is held", j);
        if (m[j].state == S_PENDING) { bfdev_cache_committed(c); m[j].state = S_USING; changed++; pend = 0; }
        put(c, j);
    }
    check(c);
    /* the policy is told of every hit and every recycling */
    if (policy == 2) P6(clears == fresh && updates == uses, "cache:policy-told", "the policy was told of %u recyclings and %u uses, expected %lu and %lu", clears, updates, fresh, uses);
    bfdev_cache_destroy(c);
    sim_heap_expect_empty(h, "cache destroy");
    if (policy == 2) registry(&mru, false, h, &ops);
}

static void exec6(const sim_trace *tr) { run(tr, 0); }
static void exec7(const sim_trace *tr) { run(tr, 1); }
const sim_workload w_cache = { "C06", "cache", cfn, opn, gen, exec6, 2000 };
const sim_workload w_cache_policy = { "C07", "cache-policy", cfn, opn, gen, exec7, 60 };

/*
 * The policies when much is cached and much was used: caches of up to some 70000
 * elements, use and reference counts beyond what 8 or 16 bits hold, whatever order
 * the elements become idle in.  A lazy heap names what the policy must recycle.
 */
enum { L_TAKE, L_HIT, L_PUT, L_NOPS };
static const char *const lopn[] = { "take", "hit", "put" };
static const char *const lcfn[SIM_NCFG] = { "policy", "size", "maxpend", "seed" };
typedef struct { unsigned long key; unsigned tag, ver; } lent;
static lent *lheap;
static size_t ln, lcap;
static void lpush(lent e)
{
    if (ln == lcap) lheap = realloc(lheap, sizeof(*lheap) * (lcap = lcap * 2 + 64));
    size_t i = ln++;
    for (; i && lheap[(i - 1) / 2].key > e.key; i = (i - 1) / 2) lheap[i] = lheap[(i - 1) / 2];
    lheap[i] = e;
}
static void lpop(void)
{
    lent e = lheap[--ln];
    size_t i = 0, k;
    for (; (k = 2 * i + 1) < ln; i = k) {
        if (k + 1 < ln && lheap[k + 1].key < lheap[k].key) k++;
        if (lheap[k].key >= e.key) break;
        lheap[i] = lheap[k];
    }
    lheap[i] = e;
}
#define LTAGS 300000
static struct lrec { bfdev_cache_node_t *node; unsigned long ref, uses; unsigned ver, pos; bool idle; } *L;
static unsigned *lheld, *lidle, *lowner, nheld, nidle;
static void ladd(unsigned *set, unsigned *n, unsigned t) { L[t].pos = *n; set[(*n)++] = t; }
static void ldel(unsigned *set, unsigned *n, unsigned t) { unsigned last = set[--*n]; set[L[t].pos] = last; L[last].pos = L[t].pos; }

static void gen_large(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int n = (int)sim_range(r, 3, tier ? 20 : 9);
    tr->ncfg = 4;
    tr->cfg[0] = sim_range(r, 0, 1);
    tr->cfg[1] = sim_chance(r, 1, 12) ? sim_range(r, 66000, 80000) : sim_range(r, 20, sim_chance(r, 1, 3) ? 3000 : 400);
    tr->cfg[2] = sim_chance(r, 1, 3) ? 1 : sim_range(r, 1, sim_chance(r, 1, 2) ? 70000 : 700);
    tr->cfg[3] = (int64_t)(sim_u64(r) >> 1);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, i ? (uint32_t)sim_below(r, L_NOPS) : L_TAKE);
        o->a[0] = sim_range(r, 1, tr->cfg[1] * 2);
        o->a[1] = (int64_t)(sim_u64(r) >> 1);
        o->a[2] = sim_chance(r, 1, 5) ? sim_chance(r, 1, 3) ? sim_range(r, 65530, 66000) : sim_range(r, 250, 600) : sim_range(r, 1, 6);
    }
    (void)faults;
}

static void lcommit(bfdev_cache_head_t *c) { bfdev_cache_committed(c); pend = 0; }
static void exec_large(const sim_trace *tr)
{
    static const bfdev_cache_ops_t ops = { .hash = op_hash, .find = op_find };
    sim_heap *h = sim_heap_new(0, 0, (uint64_t)tr->cfg[3]);
    if (tr->cfg[0] < 0 || tr->cfg[0] > 1 || tr->cfg[1] < 2 || tr->cfg[1] > 131072 || tr->cfg[2] < 1) return;
    bool lfu = tr->cfg[0];
    unsigned size = 2, next = 0, used = 0;
    unsigned long limit = (unsigned long)tr->cfg[2], now = 0, visits = 0;
    while (size < tr->cfg[1]) size *= 2;
    hashmode = 0; pend = 0;
    data *d = sim_tmp(sizeof(*d) * size);
    L = sim_tmp(sizeof(*L) * LTAGS); memset(L, 0, sizeof(*L) * LTAGS);
    lheld = sim_tmp(sizeof(*lheld) * size); lidle = sim_tmp(sizeof(*lidle) * size); lowner = sim_tmp(sizeof(*lowner) * size);
    ln = 0; nheld = nidle = 0;
    if (size > 60000) sim_slow(120);
    bfdev_cache_head_t *c = bfdev_cache_create(lfu ? "lfu" : "lru", sim_heap_alloc(h), &ops, (unsigned long)tr->cfg[1], limit, &dat);
    SIM_CHECK(c, "policy:create", "create failed");
    SIM_CHECK(c->size == size, "policy:size", "a cache of %lld elements has %lu", (long long)tr->cfg[1], c->size);
    for (unsigned i = 0; i < size; ++i) SIM_CHECK(c->nodes[i]->index == i, "policy:index", "element %u has index %lu", i, c->nodes[i]->index);
    for (int i = 0; i <= tr->nops; ++i) {
        static const sim_op last = { .kind = L_TAKE, .a = { 200000, 1, 1 } };
        const sim_op *o = i < tr->nops ? &tr->ops[i] : &last;
        sim_rng r;
        sim_seed(&r, (uint64_t)o->a[1]);
        unsigned n = (unsigned)(o->a[0] > 0 ? o->a[0] % 300001 : 1);
        if (i == tr->nops) { if (pend) lcommit(c); n = nidle + (size - used); }
        switch (o->kind) {
        case L_TAKE:
            /* tags never seen before: each takes a free element, or the one the policy names */
            for (unsigned k = 0; k < n && next < LTAGS - 1; ++k) {
                if (pend >= limit || (pend && sim_below(&r, 50) == 0)) lcommit(c);
                if (used == size && !nidle) break;
                unsigned t = ++next;
                bfdev_cache_node_t *e = bfdev_cache_get(c, tagp((int)t));
                SIM_CHECK(e, "policy:refused", "get of tag %u is refused with %u free and %u idle elements, %lu of %lu changes pending", t, size - used, nidle, pend, limit);
                SIM_CHECK(e->index < size && c->nodes[e->index] == e, "policy:index", "the element is not in the cache");
                if (used < size) {
                    SIM_CHECK(!lowner[e->index], "policy:early", "an element was recycled although free ones exist");
                    used++;
                } else {
                    unsigned v = lowner[e->index];
                    SIM_CHECK(v && L[v].idle && L[v].node == e, "policy:held", "an element in use was recycled");
                    while (!L[lheap[0].tag].idle || L[lheap[0].tag].ver != lheap[0].ver) lpop();
                    unsigned long key = lfu ? L[v].uses : L[v].ver;
                    if (lfu) SIM_CHECK(key == lheap[0].key, "policy:lfu", "tag %u (%lu uses) was evicted although tag %u has %lu", v, key, lheap[0].tag, lheap[0].key);
                    else SIM_CHECK(v == lheap[0].tag, "policy:lru", "tag %u was evicted although tag %u was released earlier", v, lheap[0].tag);
                    if (key > 65536) sim_probe(lfu ? "evicted_over_65536_uses" : "evicted_after_65536_releases");
                    ldel(lidle, &nidle, v);
                    L[v].idle = false; L[v].node = NULL;
                }
                lowner[e->index] = t;
                d[e->index].tag = (int)t; e->data = &d[e->index];
                L[t].node = e; L[t].ref = 1; L[t].uses = 0;
                ladd(lheld, &nheld, t);
                pend++;
            }
            break;
        case L_HIT: {
            if (pend) lcommit(c);
            unsigned burst = (unsigned)(o->a[2] > 0 ? o->a[2] % 70000 : 1);
            if (burst > 300) n = 1 + n % 3; else if (burst > 6) n = 1 + n % 50;
            for (unsigned k = 0; k < n && nheld + nidle; ++k) {
                bool idle = nidle && (!nheld || sim_below(&r, 2));
                unsigned t = idle ? lidle[sim_below(&r, nidle)] : lheld[sim_below(&r, nheld)];
                if (visits > 2000000) break;
                unsigned times = 1 + (unsigned)sim_below(&r, burst) ;
                if (burst > 60000) times = burst;
                visits += times;
                if (idle) { ldel(lidle, &nidle, t); L[t].idle = false; ladd(lheld, &nheld, t); }
                for (unsigned j = 0; j < times; ++j) SIM_CHECK(bfdev_cache_get(c, tagp((int)t)) == L[t].node, "policy:hit", "hit %u of tag %u yields another element", j, t);
                L[t].ref += times; L[t].uses += times;
                SIM_CHECK(L[t].node->refcnt == L[t].ref, "policy:refcnt", "%lu references counted, %lu held", L[t].node->refcnt, L[t].ref);
            }
            break;
        }
        case L_PUT:
            if (pend) lcommit(c);
            for (unsigned k = 0; k < n && nheld; ++k) {
                unsigned t = lheld[sim_below(&r, nheld)];
                while (L[t].ref) {
                    unsigned long rc = bfdev_cache_put(c, L[t].node);
                    L[t].ref--;
                    SIM_CHECK(rc == L[t].ref, "policy:put", "put returned %lu, expected %lu", rc, L[t].ref);
                }
                ldel(lheld, &nheld, t); ladd(lidle, &nidle, t);
                L[t].idle = true; L[t].ver = (unsigned)++now;
                lpush((lent){ lfu ? L[t].uses : L[t].ver, t, L[t].ver });
            }
            break;
        }
        sim_log(sim_mix(nheld, nidle));
        sim_state(sim_mix(sim_mix(nheld, nidle), o->kind * 2 + lfu));
    }
    for (unsigned t = 1; t <= next; ++t) {
        bfdev_cache_node_t *e = bfdev_cache_find(c, tagp((int)t));
        SIM_CHECK(!e || e == L[t].node, "policy:find", "find of tag %u yields an element it does not have", t);
    }
    sim_probe(size > 65536 ? "more_than_65536_elements" : size > 256 ? "more_than_256_elements" : "large_policy_run");
    bfdev_cache_destroy(c);
    sim_heap_expect_empty(h, "cache destroy");
}
const sim_workload w_cache_large = { "C07", "cache-policy-large", lcfn, lopn, gen_large, exec_large, 1 };
