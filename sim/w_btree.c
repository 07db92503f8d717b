/* C03: B+tree against a sorted map, under allocation faults and refusing callbacks. */
#include "sim.h"
#include <bfdev/btree.h>
#include <bfdev/errno.h>

enum { INSERT, REMOVE, LOOKUP, UPDATE, BULK, DRAIN, NEXT, PREV, RELEASE, VETO, WALK, NOPS_ };
static const char *const opn[] = { "insert", "remove", "lookup", "update", "bulk-insert", "bulk-remove", "next", "prev", "release", "remove-vetoed", "walk" };
static const char *const cfn[SIM_NCFG] = { "keylen", "keynum", "keyspace", "garbage", "budget", "clash", "spread", "allocmode", "zerokey", "slack" };

#define MAXK 6000
#define KWORDS 64
#define MAXNUM 1000
static uintptr_t *val;        /* val[k] != 0: present */
static int nin, space, keylen, spread, clashmode, veto, base;
static sim_heap *heap;
static bfdev_btree_layout_t layout;
static unsigned released;
static uint64_t relsum;

static void mkkey(uintptr_t *w, int k)
{
    uintptr_t x = (uintptr_t)(k + base);
    for (int i = 0; i < keylen; ++i) w[i] = 0;
    switch (spread) {
    case 0: w[keylen - 1] = x; break;
    case 1: w[0] = x; break;
    case 2: w[0] = x << 40; if (keylen > 1) w[keylen - 1] = x; break;
    default: w[0] = x >> 3; w[keylen - 1] |= keylen > 1 ? ((x & 7) << 2) : (x << 1); if (keylen == 1) w[0] = x << 1; break;
    }
}
static int unkey(const uintptr_t *w)
{
    uintptr_t t[KWORDS], x;
    switch (spread) {
    case 0: x = w[keylen - 1]; break;
    case 1: x = w[0]; break;
    case 2: x = w[0] >> 40; break;
    default: x = keylen > 1 ? (w[0] << 3) | (w[keylen - 1] >> 2) : w[0] >> 1; break;
    }
    if (x < (uintptr_t)base || x >= (uintptr_t)(space + base)) return -1;
    mkkey(t, (int)x - base);
    return memcmp(t, w, (size_t)keylen * sizeof(*w)) ? -1 : (int)x - base;
}

static void *op_alloc(bfdev_btree_root_t *root) { sim_nest(); return bfdev_malloc(sim_heap_alloc(heap), root->layout->nodesize); }
static void op_free(bfdev_btree_root_t *root, void *b) { (void)root; bfdev_free(sim_heap_alloc(heap), b); }
static int clash_val;
static int op_clash(bfdev_btree_root_t *root, void *clash, void *value)
{
    (void)root; (void)value;
    clash_val++;
    sim_nest();
    sim_log((uintptr_t)clash);
    return clashmode == 2 ? 0 : -BFDEV_EBUSY;
}
static void *op_remove(bfdev_btree_root_t *root, void *value)
{
    (void)root;
    sim_nest();
    if (veto) { sim_fault("callback_refused"); return value; }
    return NULL;
}
static void op_release(void *node, void *pdata)
{
    SIM_CHECK(pdata == &released, "btree:pdata", "release callback got a wrong private pointer");
    released++;
    relsum += (uintptr_t)node;
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 300 : 120);
    static const int base[NOPS_] = { 20, 16, 5, 5, 4, 3, 5, 5, 1, 2, 4 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == INSERT || i == REMOVE);
    tr->ncfg = 10;
    tr->cfg[0] = sim_range(r, 1, 3);
    tr->cfg[1] = sim_chance(r, 1, 2) ? 8 : sim_range(r, 4, 13);
    tr->cfg[2] = sim_chance(r, 1, 4) ? (tier ? 2000 : 600) : sim_range(r, 1, 90);
    tr->cfg[3] = (int64_t)sim_u64(r);
    tr->cfg[4] = faults && sim_chance(r, 1, 6) ? sim_range(r, 200, 6000) : 0;
    /* now and then a key or a node far larger than the predefined ones */
    if (sim_chance(r, 1, 25)) tr->cfg[0] = sim_range(r, 4, KWORDS);
    if (sim_chance(r, 1, 12)) {
        tr->cfg[1] = sim_chance(r, 1, 3) ? sim_range(r, 200, MAXNUM) : sim_range(r, 14, 100);
        tr->cfg[2] = tier || sim_chance(r, 1, 4) ? MAXK : 1500;
    }
    if (tr->cfg[4]) tr->cfg[4] = tr->cfg[4] * (tr->cfg[0] + 1) * tr->cfg[1] / 16 + 64;
    tr->cfg[9] = sim_chance(r, 1, 3) ? sim_range(r, 1, 63) : 0;
    tr->cfg[5] = sim_range(r, 0, 2);
    tr->cfg[6] = sim_range(r, 0, 3);
    tr->cfg[7] = sim_range(r, 0, 1);
    tr->cfg[8] = sim_chance(r, 1, 3);
    for (int i = 0; i < n; ++i) {
        int k = sim_pickw(r, w, NOPS_);
        if (k == VETO && !faults) k = REMOVE;
        sim_op *o = sim_add(tr, (uint32_t)k);
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[2]);
        o->a[1] = sim_range(r, 1, sim_chance(r, 1, 3) ? tr->cfg[1] > 13 ? 6 * tr->cfg[1] < 900 ? 6 * tr->cfg[1] : 900 : 120 : 20);
        o->a[2] = sim_chance(r, 1, 2) ? 1 : sim_chance(r, 1, 2) ? -1 : sim_range(r, 2, 37);
        o->a[3] = sim_range(r, 1, sim_chance(r, 1, 2) ? 1 << 20 : tr->cfg[2] + 2);
        if (faults) sim_arm(r, o, 1, 3, k == BULK ? 12 : 3);
    }
}

static void iterate(bfdev_btree_root_t *t, bool full)
{
    uintptr_t key[KWORDS] = { 0 };
    void *v;
    int last = space, n = 0;
    if (!nin) {
        SIM_CHECK(!bfdev_btree_first(t, key), "btree:empty-first", "first of an empty tree is not NULL");
        SIM_CHECK(!bfdev_btree_last(t, key), "btree:empty-last", "last of an empty tree is not NULL");
        return;
    }
    bfdev_btree_for_each(t, key, v) {
        int k = unkey(key);
        SIM_CHECK(k >= 0, "btree:ghost-key", "iteration yields a key never stored");
        SIM_CHECK(k < last, "btree:order", "iteration out of order: %d after %d", k, last);
        SIM_CHECK(val[k] == (uintptr_t)v, "btree:iter-value", "iteration yields a wrong value for key %d", k);
        last = k;
        SIM_CHECK(++n <= nin, "btree:iter-extra", "iteration yields more entries than stored");
        if (!full && n > 3) break;
    }
    if (full) SIM_CHECK(n == nin, "btree:iter-lost", "forward iteration yields %d of %d entries", n, nin);
    last = -1; n = 0;
    bfdev_btree_for_each_reverse(t, key, v) {
        int k = unkey(key);
        SIM_CHECK(k > last, "btree:order", "reverse iteration out of order: %d after %d", k, last);
        SIM_CHECK(val[k] == (uintptr_t)v, "btree:iter-value", "reverse iteration yields a wrong value for key %d", k);
        last = k;
        SIM_CHECK(++n <= nin, "btree:iter-extra", "reverse iteration yields more entries than stored");
        if (!full && n > 3) break;
    }
    if (full) SIM_CHECK(n == nin, "btree:iter-lost", "reverse iteration yields %d of %d entries", n, nin);
}

static void lookup(bfdev_btree_root_t *t, int k)
{
    uintptr_t key[KWORDS];
    mkkey(key, k);
    void *v = bfdev_btree_lookup(t, key);
    SIM_CHECK((uintptr_t)v == val[k], "btree:lookup", "lookup(%d) is %p, expected %p", k, v, (void *)val[k]);
}

static int insert(bfdev_btree_root_t *t, int k, uintptr_t v)
{
    uintptr_t key[KWORDS];
    mkkey(key, k);
    int before = clash_val, rc = bfdev_btree_insert(t, key, (void *)v);
    sim_log((uint64_t)rc);
    if (val[k]) {
        if (clashmode) SIM_CHECK(clash_val == before + 1 && rc == (clashmode == 2 ? 0 : -BFDEV_EBUSY), "btree:clash", "clash on key %d returned %d", k, rc);
        else SIM_CHECK(rc == -BFDEV_EALREADY, "btree:clash", "insert of present key %d returned %d", k, rc);
    } else if (rc) {
        SIM_CHECK(rc == -BFDEV_ENOMEM && sim_heap_failed(heap), "btree:spurious-failure", "insert of key %d failed (%d) with memory available", k, rc);
        sim_probe("insert_failed_oom");
        if (sim_heap_requests(heap) > 1) sim_probe("insert_failed_mid_split");
    } else {
        val[k] = v;
        nin++;
        if (t->height >= 3) sim_probe("height>=3");
    }
    return rc;
}

static void removek(bfdev_btree_root_t *t, int k)
{
    uintptr_t key[KWORDS];
    mkkey(key, k);
    void *v = bfdev_btree_remove(t, key);
    SIM_CHECK((uintptr_t)v == val[k], "btree:remove", "remove(%d) returned %p, expected %p", k, v, (void *)val[k]);
    if (val[k] && !veto) { val[k] = 0; nin--; }
}

/* every iteration macro, from a stored key, in both directions; the safe ones
 * lose the entry under the cursor on the way */
static void walk(bfdev_btree_root_t *t, int k, int variant, uint64_t cut)
{
    uintptr_t key[KWORDS], tkey[KWORDS];
    void *v, *tv;
    bool back = variant & 1, safe = variant & 2, cont = variant & 4, whole = (variant & 12) == 8;
    int at = whole ? (back ? -1 : space) : k, step = back ? 1 : -1, n = 0, first = at;
    if (!whole && !val[k]) return;
    mkkey(key, k);
    v = (void *)val[k];
#define STEP(stmt) do { \
        if (n++ || cont || whole) do at += step; while (at >= 0 && at < space && !val[at]); \
        SIM_CHECK(at >= 0 && at < space, "btree:walk", "walk %d from key %d yields too much", variant, first); \
        SIM_CHECK(unkey(key) == at && (uintptr_t)v == val[at], "btree:walk", "walk %d from key %d yields key %d, expected %d", variant, first, unkey(key), at); \
        stmt; } while (0)
#define CUT if (sim_mix(cut, (uint64_t)at) % 3 == 0) removek(t, at)
    switch (variant & 7) {
    case 0: if (whole) { bfdev_btree_for_each(t, key, v) STEP(); } else { bfdev_btree_for_each_from(t, key, v) STEP(); } break;
    case 1: if (whole) { bfdev_btree_for_each_reverse(t, key, v) STEP(); } else { bfdev_btree_for_each_reverse_from(t, key, v) STEP(); } break;
    case 2: if (whole) { bfdev_btree_for_each_safe(t, key, v, tkey, tv) STEP(CUT); } else { bfdev_btree_for_each_from_safe(t, key, v, tkey, tv) STEP(CUT); } break;
    case 3: if (whole) { bfdev_btree_for_each_reverse_safe(t, key, v, tkey, tv) STEP(CUT); } else { bfdev_btree_for_each_reverse_from_safe(t, key, v, tkey, tv) STEP(CUT); } break;
    case 4: bfdev_btree_for_each_continue(t, key, v) STEP(); break;
    case 5: bfdev_btree_for_each_reverse_continue(t, key, v) STEP(); break;
    case 6: bfdev_btree_for_each_continue_safe(t, key, v, tkey, tv) STEP(CUT); break;
    case 7: bfdev_btree_for_each_reverse_continue_safe(t, key, v, tkey, tv) STEP(CUT); break;
    }
    /* nothing is left where the walk ended */
    do at += step; while (at >= 0 && at < space && !val[at]);
    SIM_CHECK(at < 0 || at >= space, "btree:walk", "walk %d from key %d ends before key %d", variant, first, at);
    if (safe) sim_probe("walk_with_removal");
}

/* nodes needed for what is stored: halves merge, so neighbours are not both sparse */
static void footprint(bfdev_btree_root_t *t, const bfdev_btree_layout_t *l)
{
    size_t nodes = sim_heap_blocks(heap);
    double dense = (l->keynum / 2 + 1) / 2.0;
    SIM_CHECK(nodes <= (double)nin * 2 / (dense - 1) + t->height + 3, "btree:memory", "%zu nodes kept for %d entries (%u per node)", nodes, nin, l->keynum);
}

static void exec(const sim_trace *tr)
{
    bfdev_btree_ops_t ops = { 0 };
    bfdev_btree_root_t t;
    heap = sim_heap_new(100, tr->cfg[4], (uint64_t)tr->cfg[3]);
    keylen = (int)tr->cfg[0]; space = (int)tr->cfg[2];
    clashmode = (int)tr->cfg[5]; spread = (int)tr->cfg[6];
    if (keylen < 1 || keylen > KWORDS || space < 1 || space > MAXK || tr->cfg[1] < 4 || tr->cfg[1] > MAXNUM) return;
    val = sim_tmp(sizeof(*val) * MAXK);
    base = !tr->cfg[8];
    nin = 0; veto = 0; clash_val = 0;
    layout.keylen = (unsigned)keylen;
    layout.keynum = (unsigned)tr->cfg[1];
    layout.ptrindex = layout.keylen * layout.keynum + (tr->cfg[9] & 7);
    layout.nodesize = sizeof(uintptr_t) * (layout.ptrindex + layout.keynum + (tr->cfg[9] >> 3 & 7));
    ops.find = bfdev_btree_key_find;
    ops.remove = op_remove;
    if (clashmode) ops.clash = op_clash;
    bool std = tr->cfg[7] == 1;
    ops.alloc = std ? bfdev_btree_alloc : op_alloc;
    ops.free = std ? bfdev_btree_free : op_free;
    bfdev_btree_layout_t *use = &layout;
    if (tr->cfg[1] == 8 && keylen * sizeof(uintptr_t) == (spread & 1 ? 8 : sizeof(uintptr_t)))
        use = spread == 0 ? &bfdev_btree_layoutptr : spread == 1 ? &bfdev_btree_layout64 : sizeof(uintptr_t) == 4 || spread == 2 ? &bfdev_btree_layout32 : use;
    if (use != &layout) {
        SIM_CHECK(use->keylen == (unsigned)keylen && use->keynum >= 4 && use->ptrindex >= use->keylen * use->keynum &&
                  (use->ptrindex + use->keynum) * sizeof(uintptr_t) <= use->nodesize, "btree:layout", "a predefined layout does not fit its node");
        sim_probe("predefined_layout");
    }
    bfdev_btree_init(&t, use, &ops, NULL);
    t.alloc = sim_heap_alloc(heap);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int k = (int)(o->a[0] % space), cnt = (int)o->a[1], step = (int)o->a[2];
        uintptr_t key[KWORDS], v = (uintptr_t)o->a[3];
        void *p;
        if (k < 0) k = 0;
        if (!v) v = 1;
        sim_heap_op(heap, o);
        switch (o->kind) {
        case INSERT:
            insert(&t, k, v);
            break;
        case BULK:
            for (int j = 0; j < cnt; ++j) {
                insert(&t, k, v + (uintptr_t)j);
                k = ((k + step) % space + space) % space;
            }
            break;
        case REMOVE: removek(&t, k); break;
        case DRAIN:
            for (int j = 0; j < cnt; ++j) {
                removek(&t, k);
                k = ((k + step) % space + space) % space;
            }
            break;
        case VETO:
            veto = 1;
            removek(&t, k);
            veto = 0;
            break;
        case LOOKUP: lookup(&t, k); break;
        case UPDATE: {
            mkkey(key, k);
            int rc = bfdev_btree_update(&t, key, (void *)v);
            SIM_CHECK(rc == (val[k] ? 0 : -BFDEV_ENOENT), "btree:update", "update(%d) returned %d", k, rc);
            if (val[k]) val[k] = v;
            break;
        }
        case WALK: walk(&t, k, (int)(o->a[3] & 15), (uint64_t)o->a[3]); break;
        case NEXT: case PREV: {
            int want = -1;
            if (!val[k]) break;     /* the cursor of a step is a stored key */
            mkkey(key, k);
            if (o->kind == NEXT) { for (int j = k - 1; j >= 0; --j) if (val[j]) { want = j; break; } }
            else { for (int j = k + 1; j < space; ++j) if (val[j]) { want = j; break; } }
            p = o->kind == NEXT ? bfdev_btree_next(&t, key) : bfdev_btree_prev(&t, key);
            if (want < 0) SIM_CHECK(!p, "btree:neighbour", "%s of key %d is not NULL", opn[o->kind], k);
            else {
                SIM_CHECK(p, "btree:neighbour", "%s of key %d is NULL, expected key %d", opn[o->kind], k, want);
                SIM_CHECK(unkey(key) == want && (uintptr_t)p == val[want], "btree:neighbour", "%s of key %d is key %d, expected %d", opn[o->kind], k, unkey(key), want);
            }
            break;
        }
        case RELEASE: {
            uint64_t sum = 0;
            for (int j = 0; j < space; ++j) sum += val[j];
            released = 0; relsum = 0;
            bfdev_btree_release(&t, op_release, &released);
            SIM_CHECK((int)released == nin && relsum == sum, "btree:release", "release visited %u of %d values", released, nin);
            memset(val, 0, sizeof(*val) * MAXK);
            nin = 0;
            sim_heap_expect_empty(heap, "btree release");
            break;
        }
        }
        sim_heap_arm(heap, -1, 0);
        footprint(&t, use);
        if (!nin || nin < 60 || i % 4 == 0 || i + 1 == tr->nops) {
            iterate(&t, true);
            for (int j = 0; j < space; ++j) lookup(&t, j);
        } else
            iterate(&t, false);
        sim_state(sim_mix(sim_mix((uint64_t)nin, t.height), o->kind * 2 + (sim_heap_failed(heap) > 0)));
    }
    sim_heap_calm(heap);
    for (int k = 0; k < space; ++k)
        if (!val[k]) {
            int rc = insert(&t, k, 4242);
            SIM_CHECK(!rc, "btree:recovery", "insert fails (%d) after the faults stopped", rc);
            lookup(&t, k);
            break;
        }
    bfdev_btree_release(&t, NULL, NULL);
    sim_heap_expect_empty(heap, "btree release");
}

/* another tree, from inside a callback */
static void nest(void)
{
    static const bfdev_btree_ops_t ops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find };
    bfdev_btree_root_t t;
    uintptr_t key[2] = { 0, 0 };
    char cell[60];
    bfdev_btree_init(&t, &bfdev_btree_layout64, (bfdev_btree_ops_t *)&ops, NULL);
    for (int i = 0; i < 60; ++i) { key[0] = (uintptr_t)(i * 7 % 60 + 1); SIM_CHECK(!bfdev_btree_insert(&t, key, &cell[key[0] - 1]), "btree:nested", "inserting into another tree from inside a callback fails"); }
    for (int i = 0; i < 60; i += 2) { key[0] = (uintptr_t)i + 1; SIM_CHECK(bfdev_btree_remove(&t, key) == &cell[i], "btree:nested", "removing from another tree from inside a callback fails"); }
    for (int i = 0; i < 60; ++i) { key[0] = (uintptr_t)i + 1; SIM_CHECK(bfdev_btree_lookup(&t, key) == (i & 1 ? &cell[i] : NULL), "btree:nested", "a tree used from inside a callback has lost track of key %d", i); }
    bfdev_btree_release(&t, NULL, NULL);
}

const sim_workload w_btree = { "C03", "btree", cfn, opn, gen, exec, 2000, nest };
