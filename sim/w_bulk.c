/*
 * The containers when they hold more elements than 16 bits count (C02 C03 C04
 * C05 C06 H01 H02 H04 H05): a few sweeping operations per run against a bitmap of
 * what is stored, under allocation faults.  Everything a small run checks in
 * depth is checked by the workload of its module; this one looks for what only
 * size brings out.
 */
#include "sim.h"
#include <bfdev/hashmap.h>
#include <bfdev/btree.h>
#include <bfdev/radix.h>
#include <bfdev/skiplist.h>
#include <bfdev/rbtree.h>
#include <bfdev/segtree.h>
#include <bfdev/heap.h>
#include <bfdev/list.h>
#include <bfdev/cache.h>
#include <bfdev/errno.h>

enum { FILL, DRAIN, PROBE, CLEAR, NOPS_ };
static const char *const opn[] = { "fill", "drain", "probe", "clear" };
static const char *const cfn[SIM_NCFG] = { "garbage", "faults", "variant" };

#define SPACE (1u << 17)
static unsigned char *in;
static unsigned nin, variant;
static sim_heap *heap;

typedef struct {
    const char *name;
    void (*open)(void);
    int (*add)(unsigned k);             /* 0: stored; else allowed only when memory failed */
    void (*del)(unsigned k);            /* k is stored */
    bool (*has)(unsigned k);
    void (*walk)(bool back);            /* calls see() */
    void (*clear)(void);
    void (*close)(void);
    int order;                          /* of walk(0): 1 ascending, -1 descending, 0 none */
    bool back;                          /* walk(1) is supported */
} adt;
static const adt *A;

static unsigned seen, lastk;
static int dir;
static unsigned char *mark, stamp;
static void see(unsigned k)
{
    SIM_CHECK(k < SPACE && in[k], "bulk:ghost", "%s: iteration yields key %u, which is not stored", A->name, k);
    SIM_CHECK(mark[k] != stamp, "bulk:duplicate", "%s: iteration yields key %u twice", A->name, k);
    mark[k] = stamp;
    SIM_CHECK(++seen <= nin, "bulk:extra", "%s: iteration yields more than the %u stored", A->name, nin);
    if (dir && seen > 1) SIM_CHECK(dir > 0 ? k > lastk : k < lastk, "bulk:order", "%s: key %u after %u", A->name, k, lastk);
    lastk = k;
}
static void walk_all(void)
{
    for (int back = 0; back <= A->back; ++back) {
        if (!++stamp) { memset(mark, 0, SPACE); stamp = 1; }
        seen = 0;
        dir = back ? -A->order : A->order;
        A->walk(back);
        SIM_CHECK(seen == nin, "bulk:lost", "%s: iteration yields %u of %u stored", A->name, seen, nin);
    }
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int n = (int)sim_range(r, 2, 5);
    (void)tier;
    tr->ncfg = 3;
    tr->cfg[0] = (int64_t)sim_u64(r);
    tr->cfg[1] = faults;
    tr->cfg[2] = (int64_t)sim_below(r, 12);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, !i ? FILL : (uint32_t)sim_below(r, sim_chance(r, 1, 3) ? 4 : 3));
        o->a[0] = (int64_t)sim_below(r, SPACE);
        o->a[1] = i ? sim_range(r, 1, SPACE) : sim_range(r, 65530, 100000);
        /* keys in a row, in reverse, and scattered */
        o->a[2] = sim_chance(r, 1, 3) ? 1 : sim_chance(r, 1, 2) ? SPACE - 1 : (int64_t)(sim_below(r, SPACE) | 1);
        o->a[3] = faults && sim_chance(r, 1, 2) ? sim_range(r, 1, 500) : 0;
    }
}

static void exec(const sim_trace *tr)
{
    heap = sim_heap_new(100, 0, (uint64_t)tr->cfg[0]);
    sim_slow(60);
    variant = (unsigned)tr->cfg[2];
    in = sim_tmp(SPACE); mark = sim_tmp(SPACE);
    memset(in, 0, SPACE); memset(mark, 0, SPACE);
    nin = 0; stamp = 0;
    A->open();
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        unsigned k = (unsigned)o->a[0] & (SPACE - 1), step = (unsigned)o->a[2] | 1, n = (unsigned)o->a[1];
        if (n > SPACE) n = SPACE;
        switch (o->kind) {
        case FILL:
            for (; n--; k = (k + step) & (SPACE - 1)) {
                if (in[k]) continue;
                bool hit = o->a[3] > 0 && !(k % (unsigned)o->a[3]);
                sim_op none = { .fskip = -1 };
                sim_heap_op(heap, &none);
                if (hit) sim_heap_arm(heap, (int)(k & 1), 1);
                int rc = A->add(k);
                if (rc) {
                    SIM_CHECK(rc == -BFDEV_ENOMEM && sim_heap_failed(heap), "bulk:spurious-failure", "%s: adding key %u to %u failed (%d) with memory available", A->name, k, nin, rc);
                    sim_probe("bulk_add_failed_oom");
                    SIM_CHECK(!A->has || !A->has(k), "bulk:half", "%s: key %u is there although adding it failed", A->name, k);
                    sim_heap_arm(heap, -1, 0);
                    rc = A->add(k);
                    SIM_CHECK(!rc, "bulk:recovery", "%s: adding key %u fails (%d) after the fault", A->name, k, rc);
                }
                in[k] = 1; nin++;
            }
            sim_heap_arm(heap, -1, 0);
            if (nin > 65536) sim_probe("more_than_65536_elements");
            break;
        case DRAIN:
            for (; n--; k = (k + step) & (SPACE - 1))
                if (in[k]) { A->del(k); in[k] = 0; nin--; }
            break;
        case PROBE:
            if (!A->has) break;
            for (n = n / 16 + 1; n--; k = (k + step) & (SPACE - 1)) {
                bool got = A->has(k);
                SIM_CHECK(got == !!in[k], "bulk:find", "%s: key %u is %s among %u", A->name, k, got ? "found but not stored" : "stored but not found", nin);
            }
            break;
        case CLEAR:
            A->clear();
            memset(in, 0, SPACE); nin = 0;
            break;
        }
        walk_all();
        sim_log(nin);
    }
    sim_state(sim_mix(nin, 5));
    A->close();
    sim_heap_expect_empty(heap, A->name);
}

/* ------------------------------------------------------------------ hashmap */
static struct { bfdev_hlist_node_t node; } *HN;
static bfdev_hashmap_t hm;
static unsigned long hash(unsigned k) { return variant & 1 ? k : (unsigned long)sim_mix(k, 3); }
#define HK(n) ((unsigned)((const char *)(n) - (const char *)HN) / (unsigned)sizeof(*HN))
static unsigned long hm_key(const void *key, void *p) { (void)p; return hash((unsigned)(uintptr_t)key); }
static unsigned long hm_node(const bfdev_hlist_node_t *n, void *p) { (void)p; return hash(HK(n)); }
static long hm_equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { (void)p; return a != b; }
static long hm_find(const bfdev_hlist_node_t *n, const void *key, void *p) { (void)p; return HK(n) != (unsigned)(uintptr_t)key; }
static const bfdev_hashmap_ops_t hm_ops = { .hash_key = hm_key, .hash_node = hm_node, .equal = hm_equal, .find = hm_find };
static void hm_open(void) { HN = sim_tmp(sizeof(*HN) * SPACE); bfdev_hashmap_init(&hm, sim_heap_alloc(heap), &hm_ops, NULL); }
static int hm_add(unsigned k) { return bfdev_hashmap_add(&hm, &HN[k].node); }
static void hm_del(unsigned k)
{
    bfdev_hlist_node_t *old = NULL;
    int rc = bfdev_hashmap_del(&hm, (void *)(uintptr_t)k, &old);
    SIM_CHECK(!rc && old == &HN[k].node, "bulk:remove", "hashmap: removing key %u returned %d or another node", k, rc);
}
static bool hm_has(unsigned k)
{
    bfdev_hlist_node_t *n = bfdev_hashmap_find(&hm, (void *)(uintptr_t)k);
    SIM_CHECK(!n || n == &HN[k].node, "bulk:find", "hashmap: find(%u) returned another node", k);
    return n;
}
static void hm_walk(bool back)
{
    bfdev_hlist_node_t *pos; unsigned long idx;
    (void)back;
    SIM_CHECK(hm.used == nin, "bulk:count", "hashmap: %lu counted, %u stored", hm.used, nin);
    bfdev_hashmap_for_each(pos, &hm, idx) see(HK(pos));
    SIM_CHECK(nin <= hm.capacity * 4 || !nin, "bulk:load", "hashmap: %u nodes in %lu buckets", nin, hm.capacity);
}
static void hm_clear(void) { bfdev_hashmap_release(&hm); sim_heap_expect_empty(heap, "hashmap release"); }
static const adt a_hm = { "hashmap", hm_open, hm_add, hm_del, hm_has, hm_walk, hm_clear, hm_clear, 0, 0 };

/* -------------------------------------------------------------------- btree */
static bfdev_btree_root_t bt;
static bfdev_btree_layout_t bt_layout;
static bfdev_btree_ops_t bt_ops;
static void *bt_none(bfdev_btree_root_t *r, void *v) { (void)r; (void)v; return NULL; }
static void bt_open(void)
{
    bt_layout.keylen = 1; bt_layout.keynum = variant % 3 == 1 ? 8 : variant % 3 ? 300 + 100 * (variant / 3) : 5 + variant;
    bt_layout.ptrindex = bt_layout.keynum; bt_layout.nodesize = sizeof(uintptr_t) * bt_layout.keynum * 2;
    memset(&bt_ops, 0, sizeof(bt_ops));
    bt_ops.alloc = bfdev_btree_alloc; bt_ops.free = bfdev_btree_free; bt_ops.find = bfdev_btree_key_find; bt_ops.remove = bt_none;
    bfdev_btree_init(&bt, &bt_layout, &bt_ops, NULL);
    bt.alloc = sim_heap_alloc(heap);
}
static int bt_add(unsigned k) { uintptr_t key = k + 1; return bfdev_btree_insert(&bt, &key, (void *)(uintptr_t)(k + 7)); }
static void bt_del(unsigned k)
{
    uintptr_t key = k + 1;
    void *v = bfdev_btree_remove(&bt, &key);
    SIM_CHECK(v == (void *)(uintptr_t)(k + 7), "bulk:remove", "btree: removing key %u returned %p", k, v);
}
static bool bt_has(unsigned k)
{
    uintptr_t key = k + 1;
    void *v = bfdev_btree_lookup(&bt, &key);
    SIM_CHECK(!v || v == (void *)(uintptr_t)(k + 7), "bulk:find", "btree: lookup(%u) returned %p", k, v);
    return v;
}
static void bt_walk(bool back)
{
    uintptr_t key = 0; void *v;
    if (back) { bfdev_btree_for_each_reverse(&bt, &key, v) see((unsigned)key - 1); }
    else { bfdev_btree_for_each(&bt, &key, v) see((unsigned)key - 1); }
}
static unsigned bt_released;
static void bt_rel(void *node, void *pdata) { (void)node; (void)pdata; bt_released++; }
static void bt_clear(void)
{
    bt_released = 0;
    bfdev_btree_release(&bt, bt_rel, NULL);
    SIM_CHECK(bt_released == nin, "bulk:release", "btree: release visits %u of %u", bt_released, nin);
    sim_heap_expect_empty(heap, "btree release");
}
static const adt a_bt = { "btree", bt_open, bt_add, bt_del, bt_has, bt_walk, bt_clear, bt_clear, -1, 1 };

/* -------------------------------------------------------------------- radix */
struct c12 { uint32_t a, b, c; };
static BFDEV_GENERIC_RADIX(uint64_t) rx8;
static BFDEV_GENERIC_RADIX(struct c12) rx12;
static uintptr_t rx_at(unsigned k) { return variant & 2 ? (uintptr_t)k << 9 : k; }
#define RX(e8, e12) (variant & 1 ? (void *)(e12) : (void *)(e8))
static void rx_open(void)
{
    memset(&rx8, 0, sizeof(rx8)); memset(&rx12, 0, sizeof(rx12));
    rx8.tree.alloc = rx12.tree.alloc = sim_heap_alloc(heap);
}
static int rx_add(unsigned k)
{
    uintptr_t i = rx_at(k);
    unsigned char *p = RX(bfdev_radix_alloc(&rx8, i), bfdev_radix_alloc(&rx12, i));
    if (!p) return -BFDEV_ENOMEM;
    *(uint32_t *)(void *)p = k + 1;
    return 0;
}
static void rx_del(unsigned k)
{
    uintptr_t i = rx_at(k);
    int rc = variant & 1 ? bfdev_radix_free(&rx12, i) : bfdev_radix_free(&rx8, i);
    SIM_CHECK(!rc, "bulk:remove", "radix: freeing index %lu returned %d", (unsigned long)i, rc);
}
static bool rx_has(unsigned k)
{
    uintptr_t i = rx_at(k);
    uint32_t *p = RX(bfdev_radix_find(&rx8, i), bfdev_radix_find(&rx12, i));
    SIM_CHECK(!p || *p == k + 1, "bulk:find", "radix: index %lu holds %u", (unsigned long)i, *p);
    return p;
}
static void rx_see(uintptr_t i, void *p)
{
    unsigned k = (unsigned)(variant & 2 ? i >> 9 : i);
    SIM_CHECK(rx_at(k) == i && *(uint32_t *)p == k + 1, "bulk:ghost", "radix: iteration yields index %lu with %u", (unsigned long)i, *(uint32_t *)p);
    see(k);
}
static void rx_walk(bool back)
{
    uintptr_t i; uint64_t *p; struct c12 *q;
    if (variant & 1) { if (back) bfdev_radix_for_each_reverse(q, &rx12, &i) rx_see(i, q); else bfdev_radix_for_each(q, &rx12, &i) rx_see(i, q); }
    else { if (back) bfdev_radix_for_each_reverse(p, &rx8, &i) rx_see(i, p); else bfdev_radix_for_each(p, &rx8, &i) rx_see(i, p); }
}
static void rx_clear(void) { bfdev_radix_release(&rx8); bfdev_radix_release(&rx12); sim_heap_expect_empty(heap, "radix release"); }
static const adt a_rx = { "radix", rx_open, rx_add, rx_del, rx_has, rx_walk, rx_clear, rx_clear, 1, 1 };

/* ----------------------------------------------------------------- skiplist */
static bfdev_skip_head_t *sl;
static unsigned *SK;
static long sl_cmp(const void *a, const void *b, void *p) { (void)p; return (long)*(const unsigned *)a - (long)*(const unsigned *)b; }
static long sl_find(const void *n, void *p) { return (long)*(const unsigned *)n - (long)*(const unsigned *)p; }
static void sl_open(void)
{
    SK = sim_tmp(sizeof(*SK) * SPACE);
    for (unsigned k = 0; k < SPACE; ++k) SK[k] = k;
    sim_seed_rand(variant);
    sl = bfdev_skiplist_create(sim_heap_alloc(heap), 14 + variant);
    SIM_CHECK(sl, "bulk:create", "skiplist: create failed");
}
static int sl_add(unsigned k) { return bfdev_skiplist_insert(sl, &SK[k], sl_cmp, NULL); }
static void sl_del(unsigned k) { bfdev_skiplist_delete(sl, sl_find, &k); }
static bool sl_has(unsigned k)
{
    bfdev_skip_node_t *n = bfdev_skiplist_find(sl, sl_find, &k);
    SIM_CHECK(!n || n->key == &SK[k], "bulk:find", "skiplist: find(%u) returned another element", k);
    return n;
}
static void sl_walk(bool back)
{
    bfdev_skip_node_t *n;
    if (back) { bfdev_skiplist_for_each_reverse(n, sl, 0) see(*(unsigned *)n->key); }
    else { bfdev_skiplist_for_each(n, sl, 0) see(*(unsigned *)n->key); }
}
static void sl_clear(void) { bt_released = 0; bfdev_skiplist_reset(sl, bt_rel, NULL); SIM_CHECK(bt_released == nin, "bulk:release", "skiplist: reset visits %u of %u", bt_released, nin); }
static void sl_close(void) { bfdev_skiplist_destroy(sl, NULL, NULL); }
static const adt a_sl = { "skiplist", sl_open, sl_add, sl_del, sl_has, sl_walk, sl_clear, sl_close, 1, 1 };

/* ------------------------------------------------------------------- rbtree */
typedef struct { bfdev_rb_node_t node; } rbn;
static rbn *RN;
static bfdev_rb_root_cached_t rb;
#define RK(n) ((unsigned)((const char *)(n) - (const char *)RN) / (unsigned)sizeof(*RN))
static long rb_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { (void)p; return (long)RK(a) - (long)RK(b); }
static long rb_find(const bfdev_rb_node_t *a, void *p) { return (long)RK(a) - (long)*(unsigned *)p; }
static void rb_open(void) { RN = sim_tmp(sizeof(*RN) * SPACE); bfdev_rb_cache_init(&rb); }
static int rb_add(unsigned k)
{
    memset(&RN[k], 0xc3, sizeof(RN[k]));
    if (variant & 1) bfdev_rb_cached_insert(&rb, &RN[k].node, rb_cmp, NULL); else bfdev_rb_insert(&rb.root, &RN[k].node, rb_cmp, NULL);
    return 0;
}
static void rb_del(unsigned k) { if (variant & 1) bfdev_rb_cached_delete(&rb, &RN[k].node); else bfdev_rb_delete(&rb.root, &RN[k].node); }
static bool rb_has(unsigned k)
{
    bfdev_rb_node_t *n = bfdev_rb_find(&rb.root, &k, rb_find);
    SIM_CHECK(!n || n == &RN[k].node, "bulk:find", "rbtree: find(%u) returned another node", k);
    return n;
}
static void rb_walk(bool back)
{
    bfdev_rb_node_t *n;
    if (back) { bfdev_rb_for_each_reverse(n, &rb.root) see(RK(n)); } else { bfdev_rb_for_each(n, &rb.root) see(RK(n)); }
    if (variant & 1 && !back) SIM_CHECK(rb.leftmost == bfdev_rb_first(&rb.root), "bulk:leftmost", "rbtree: the cached leftmost node is not the smallest");
}
static void rb_clear(void)
{
    bfdev_rb_node_t *n, *t;
    unsigned c = 0;
    bfdev_rb_post_for_each_safe(n, t, &rb.root) { SIM_CHECK(in[RK(n)] && ++c <= nin, "bulk:postorder", "rbtree: postorder yields too much"); memset(n, 0xa5, sizeof(*n)); }
    SIM_CHECK(c == nin, "bulk:postorder", "rbtree: postorder yields %u of %u", c, nin);
    bfdev_rb_cache_init(&rb);
}
static const adt a_rb = { "rbtree", rb_open, rb_add, rb_del, rb_has, rb_walk, rb_clear, rb_clear, 1, 1 };

/* ------------------------------------------------------------------ segtree */
static bfdev_segtree_node_t *GN;
static void sg_open(void) { GN = sim_tmp(sizeof(*GN) * SPACE); bfdev_rb_cache_init(&rb); }
static int sg_add(unsigned k) { memset(&GN[k], 0xc3, sizeof(*GN)); GN[k].start = k; GN[k].end = k + k % 5; bfdev_segtree_insert(&rb, &GN[k]); return 0; }
static void sg_del(unsigned k) { bfdev_segtree_delete(&rb, &GN[k]); }
static bool sg_has(unsigned k)
{
    /* everything that covers the point, in order of start */
    bfdev_segtree_node_t *n = bfdev_segtree_first(&rb, k, k);
    bool got = false;
    for (unsigned s = k > 4 ? k - 4 : 0; s <= k; ++s) {
        if (!in[s] || s + s % 5 < k) continue;
        SIM_CHECK(n == &GN[s], "bulk:query", "segtree: the query for %u misses the interval from %u", k, s);
        n = bfdev_segtree_next(n, k, k);
        got |= s == k;
    }
    SIM_CHECK(!n, "bulk:query", "segtree: the query for %u yields too much", k);
    return got;
}
static void sg_walk(bool back)
{
    (void)back;
    for (bfdev_segtree_node_t *n = bfdev_segtree_first(&rb, 0, ~0ul); n; n = bfdev_segtree_next(n, 0, ~0ul)) see((unsigned)(n - GN));
}
static void sg_clear(void) { bfdev_rb_cache_init(&rb); }
static const adt a_sg = { "segtree", sg_open, sg_add, sg_del, sg_has, sg_walk, sg_clear, sg_clear, 1, 0 };

/* --------------------------------------------------------------------- heap */
typedef struct { bfdev_heap_node_t node; } hpn;
static hpn *PN;
static bfdev_heap_root_t hp;
#define PK(n) ((unsigned)((const char *)(n) - (const char *)PN) / (unsigned)sizeof(*PN))
static long hp_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { (void)p; return (long)PK(a) - (long)PK(b); }
static void hp_open(void) { PN = sim_tmp(sizeof(*PN) * SPACE); memset(&hp, 0, sizeof(hp)); }
static int hp_add(unsigned k) { memset(&PN[k], 0xc3, sizeof(PN[k])); bfdev_heap_insert(&hp, &PN[k].node, hp_cmp, NULL); return 0; }
static void hp_del(unsigned k) { bfdev_heap_delete(&hp, &PN[k].node, hp_cmp, NULL); }
static void hp_walk(bool back)
{
    unsigned long idx, at = 0;
    (void)back;
    SIM_CHECK(BFDEV_HEAP_ROOT_COUNT(&hp) == nin, "bulk:count", "heap: %lu counted, %u stored", hp.count, nin);
    for (bfdev_heap_node_t *n = bfdev_heap_first(&hp, &idx); n; n = bfdev_heap_next(&hp, &idx)) {
        see(PK(n));
        SIM_CHECK(!n->parent == !at && (!at || PK(n->parent) < PK(n)), "bulk:heap", "heap: node %lu is smaller than its parent", at);
        SIM_CHECK(!n->left == (at * 2 + 1 >= nin) && !n->right == (at * 2 + 2 >= nin), "bulk:shape", "heap: node %lu of %u has wrong children", at, nin);
        if (!(at & 1023)) SIM_CHECK(bfdev_heap_find(&hp, at + 1) == n, "bulk:find", "heap: node %lu is not found by its position", at);
        at++;
    }
}
static void hp_clear(void)
{
    /* everything comes out in order */
    unsigned c = 0, last = 0;
    while (BFDEV_HEAP_ROOT_NODE(&hp)) {
        bfdev_heap_node_t *n = BFDEV_HEAP_ROOT_NODE(&hp);
        unsigned k = PK(n);
        SIM_CHECK(k < SPACE && in[k] && c < nin && (!c || k > last), "bulk:pop", "heap: pop %u yields %u after %u", c, k, last);
        last = k; c++;
        bfdev_heap_delete(&hp, n, hp_cmp, NULL);
    }
    SIM_CHECK(c == nin, "bulk:pop", "heap: %u of %u came out", c, nin);
}
static const adt a_hp = { "heap", hp_open, hp_add, hp_del, NULL, hp_walk, hp_clear, hp_clear, 0, 0 };

/* --------------------------------------------------------------- list, sort */
static bfdev_list_head_t *LN, ls;
#define LK(n) ((unsigned)((n) - LN))
static int ls_sign;
static long ls_cmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *p)
{
    SIM_CHECK(p == &ls_sign && a != &ls && b != &ls, "bulk:cmp", "list: the comparison got wrong arguments");
    return ls_sign * ((long)(LK(a) >> (variant & 7)) - (long)(LK(b) >> (variant & 7)));
}
static unsigned *ls_pos;
static void ls_open(void) { LN = sim_tmp(sizeof(*LN) * SPACE); ls_pos = sim_tmp(sizeof(*ls_pos) * SPACE); bfdev_list_head_init(&ls); }
static int ls_add(unsigned k) { if (k & 1) bfdev_list_add(&ls, &LN[k]); else bfdev_list_add_prev(&ls, &LN[k]); return 0; }
static void ls_del(unsigned k) { bfdev_list_del(&LN[k]); }
static void ls_walk(bool back)
{
    bfdev_list_head_t *n, *last = NULL;
    unsigned at = 0;
    if (back) { bfdev_list_for_each_reverse(n, &ls) see(LK(n)); return; }
    bfdev_list_for_each(n, &ls) { see(LK(n)); ls_pos[LK(n)] = at++; }
    SIM_CHECK(at == nin, "bulk:lost", "list: %u of %u", at, nin);
    /* sorted, stable, both ways linked */
    ls_sign = nin & 1 ? 1 : -1;
    bfdev_list_sort(&ls, ls_cmp, &ls_sign);
    at = 0;
    bfdev_list_for_each(n, &ls) {
        SIM_CHECK(++at <= nin && in[LK(n)], "bulk:sort", "list: the sorted list is longer");
        SIM_CHECK(n->prev == (last ? last : &ls), "bulk:sort", "list: a backward link is wrong after the sort");
        if (last) {
            long c = ls_cmp(last, n, &ls_sign);
            SIM_CHECK(c < 0 || (!c && ls_pos[LK(last)] < ls_pos[LK(n)]), "bulk:sort", "list: %s after the sort", c ? "out of order" : "equal elements changed places");
        }
        last = n;
    }
    SIM_CHECK(at == nin && ls.prev == (last ? last : &ls), "bulk:sort", "list: %u of %u left after the sort", at, nin);
}
static void ls_clear(void) { bfdev_list_head_init(&ls); }
static const adt a_ls = { "list", ls_open, ls_add, ls_del, NULL, ls_walk, ls_clear, ls_clear, 0, 1 };

/* -------------------------------------------------------------------- cache */
static bfdev_cache_head_t *cc;
static bfdev_cache_node_t **CN;
static unsigned long *CU, cc_pend, cc_hits, cc_misses, cc_starve, cc_changed;

static unsigned long cc_hash(const void *tag, void *p) { (void)p; return hash((unsigned)(uintptr_t)tag); }
static long cc_find(const void *node, const void *tag, void *p) { (void)p; return (uintptr_t)node != (uintptr_t)tag + 1; }
static const bfdev_cache_ops_t cc_ops = { .hash = cc_hash, .find = cc_find };
static void cc_open(void)
{
    CN = sim_tmp(sizeof(*CN) * SPACE);
    CU = sim_tmp(sizeof(*CU) * SPACE);
    memset(CN, 0, sizeof(*CN) * SPACE);
    cc_pend = cc_hits = cc_misses = cc_starve = cc_changed = 0;
    cc = bfdev_cache_create(variant & 1 ? "lfu" : "lru", sim_heap_alloc(heap), &cc_ops, SPACE, SPACE, NULL);
    SIM_CHECK(cc, "bulk:create", "cache: create failed");
}
static int cc_add(unsigned k)
{
    bfdev_cache_node_t *n = bfdev_cache_get(cc, (void *)(uintptr_t)k);
    SIM_CHECK(n && n->index < SPACE, "bulk:refused", "cache: get of an absent tag is refused with %u of %u elements in use", nin, SPACE);
    for (unsigned j = 0; j < SPACE && k < 4; ++j) SIM_CHECK(!in[j] || CN[j] != n, "bulk:twice", "cache: an element is handed out twice");
    n->data = (void *)((uintptr_t)k + 1);
    CN[k] = n; CU[k] = 1;
    cc_pend++; cc_misses++;
    return 0;
}
static void cc_settle(void)
{
    SIM_CHECK(cc->pending == cc_pend, "bulk:count", "cache: %lu changes counted as pending, expected %lu", cc->pending, cc_pend);
    bfdev_cache_committed(cc);
    cc_changed += cc_pend; cc_pend = 0;
    SIM_CHECK(!cc->pending && cc->used == nin, "bulk:count", "cache: %lu in use of %u after the commit", cc->used, nin);
}
static void cc_del(unsigned k)
{
    if (cc->pending) cc_settle();
    while (CU[k]) {
        unsigned long left = bfdev_cache_put(cc, CN[k]);
        SIM_CHECK(left == --CU[k], "bulk:put", "cache: %lu references counted, %lu held", left, CU[k]);
    }
    int rc = bfdev_cache_del(cc, CN[k]);
    SIM_CHECK(!rc, "bulk:remove", "cache: removing idle tag %u returned %d", k, rc);
}
static bool cc_has(unsigned k)
{
    if (cc->pending) cc_settle();
    bfdev_cache_node_t *n = bfdev_cache_find(cc, (void *)(uintptr_t)k);
    SIM_CHECK(!n || n == CN[k], "bulk:find", "cache: find(%u) returned another element", k);
    return n;
}
static void cc_walk(bool back)
{
    (void)back;
    if (cc->pending) cc_settle();
    if (!++stamp) stamp = 1;
    unsigned any = SPACE;
    for (unsigned k = 0; k < SPACE; ++k) if (in[k]) {
        SIM_CHECK(CN[k]->index < SPACE && CN[k]->refcnt == CU[k] && CN[k]->status == BFDEV_CACHE_USING, "bulk:element", "cache: the element of tag %u changed", k);
        SIM_CHECK(cc->nodes[CN[k]->index] == CN[k], "bulk:index", "cache: element %lu is not at its place", CN[k]->index);
        see(k); any = k;
    }
    /* more holders than 16 bits count */
    if (any < SPACE && variant & 2) {
        for (int j = 0; j < 66000; ++j) SIM_CHECK(bfdev_cache_get(cc, (void *)(uintptr_t)any) == CN[any], "bulk:hit", "cache: hit %d of tag %u yields another element", j, any);
        CU[any] += 66000; cc_hits += 66000;
        SIM_CHECK(CN[any]->refcnt == CU[any], "bulk:refcnt", "cache: %lu references counted, %lu held", CN[any]->refcnt, CU[any]);
        sim_probe("more_than_65536_references");
    }
    /* refusals while every element is held */
    if (nin == SPACE && any < SPACE && variant & 4) {
        for (int j = 0; j < 66000; ++j) SIM_CHECK(!bfdev_cache_get(cc, (void *)(uintptr_t)(SPACE + 1)), "bulk:starved", "cache: an element was handed out although all are held");
        cc_misses++; cc_starve += 65999;
        while (CU[any]) { bfdev_cache_put(cc, CN[any]); CU[any]--; }
        SIM_CHECK(bfdev_cache_get(cc, (void *)(uintptr_t)any) == CN[any], "bulk:hit", "cache: an idle element does not serve its own tag after starving");
        CU[any] = 1; cc_hits++;
        sim_probe("more_than_65536_refusals");
    }
    SIM_CHECK(cc->hits == cc_hits && cc->misses == cc_misses, "bulk:count", "cache: hits/misses are %lu/%lu, expected %lu/%lu", cc->hits, cc->misses, cc_hits, cc_misses);
    SIM_CHECK(cc->starve == cc_starve && cc->changed == cc_changed, "bulk:count", "cache: starve/changed are %lu/%lu, expected %lu/%lu", cc->starve, cc->changed, cc_starve, cc_changed);
}
static void cc_clear(void) { bfdev_cache_reset(cc); cc_pend = cc_hits = cc_misses = cc_starve = 0; SIM_CHECK(!cc->used && !cc->pending, "bulk:count", "cache: %lu in use after a reset", cc->used); }
static void cc_close(void) { bfdev_cache_destroy(cc); }
static const adt a_cc = { "cache", cc_open, cc_add, cc_del, cc_has, cc_walk, cc_clear, cc_close, 0, 0 };

/* one run in two thousand */
#ifndef BULK_W
#define BULK_W 1
#endif
#define BULK(n) static void exec_##n(const sim_trace *tr) { A = &a_##n; exec(tr); }
BULK(hm) BULK(bt) BULK(rx) BULK(sl) BULK(rb) BULK(sg) BULK(hp) BULK(ls) BULK(cc)
const sim_workload w_bulk_hashmap = { "C02", "bulk-hashmap", cfn, opn, gen, exec_hm, BULK_W };
const sim_workload w_bulk_btree = { "C03", "bulk-btree", cfn, opn, gen, exec_bt, BULK_W };
const sim_workload w_bulk_radix = { "C04", "bulk-radix", cfn, opn, gen, exec_rx, BULK_W };
const sim_workload w_bulk_skiplist = { "C05", "bulk-skiplist", cfn, opn, gen, exec_sl, BULK_W };
const sim_workload w_bulk_rbtree = { "H02", "bulk-rbtree", cfn, opn, gen, exec_rb, BULK_W };
const sim_workload w_bulk_segtree = { "H04", "bulk-segtree", cfn, opn, gen, exec_sg, BULK_W };
const sim_workload w_bulk_heap = { "H05", "bulk-heap", cfn, opn, gen, exec_hp, BULK_W };
const sim_workload w_bulk_list = { "H01", "bulk-list", cfn, opn, gen, exec_ls, BULK_W };
const sim_workload w_bulk_cache = { "C06", "bulk-cache", cfn, opn, gen, exec_cc, BULK_W };
