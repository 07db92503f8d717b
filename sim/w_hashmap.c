/* C02: hash map against a list of stored nodes, under allocation faults. */
#include "sim.h"
#include <bfdev/hashmap.h>
#include <bfdev/errno.h>

enum { ADD, SET, UPDATE, APPEND, DEL, FIND, RELEASE, NOPS_ };
static const char *const opn[] = { "add", "set", "update", "append", "del", "find", "release" };
static const char *const cfn[SIM_NCFG] = { "keys", "hash", "garbage", "budget", "policy", "long" };

#define NITEM 2400
typedef struct { bfdev_hlist_node_t node; int key; bool in; int seen; } item;
static item *items;
static int hashkind, policy, nin, nitem;
static const int KEYMAGIC = 0x5151;

static unsigned long hashof(int key)
{
    switch (hashkind) {
    case 0: return (unsigned long)key;
    case 1: return 7;
    case 2: return (unsigned long)key & 3;
    case 3: return (unsigned long)key << 5;
    case 4: return (unsigned long)sim_mix((uint64_t)key, 99);
    case 5: return (unsigned long)key << 44;
    default: return ~(unsigned long)key;
    }
}
static unsigned long hash_key(const void *key, void *pdata)
{
    SIM_CHECK(pdata == &KEYMAGIC, "hashmap:pdata", "callback got a wrong private pointer");
    sim_nest();
    return hashof((int)(intptr_t)key);
}
static item *toitem(const bfdev_hlist_node_t *n)
{
    item *it = bfdev_container_of(n, item, node);
    SIM_CHECK(it >= items && it < items + nitem, "hashmap:node", "a node that was never stored shows up");
    return it;
}
static unsigned long hash_node(const bfdev_hlist_node_t *n, void *pdata)
{
    SIM_CHECK(pdata == &KEYMAGIC, "hashmap:pdata", "callback got a wrong private pointer");
    sim_nest();
    return hashof(toitem(n)->key);
}
static long equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pdata)
{
    (void)pdata;
    sim_nest();
    return toitem(a)->key - toitem(b)->key;
}
static long find(const bfdev_hlist_node_t *n, const void *key, void *pdata)
{
    (void)pdata;
    sim_nest();
    return toitem(n)->key - (int)(intptr_t)key;
}
/* tuning knobs of the caller: any answer must keep the map correct; they see
 * the true fill, and their answer decides */
static int asked_extend, asked_shrink, expect_used;
static const bfdev_hashmap_t *themap;
static void knob(const bfdev_hashmap_t *m, void *pdata)
{
    SIM_CHECK(pdata == &KEYMAGIC && m == themap, "hashmap:pdata", "tuning callback got wrong arguments");
    SIM_CHECK(m->used == (unsigned long)expect_used, "hashmap:fill", "tuning callback sees %lu used, %d are stored", m->used, expect_used);
}
static bool extend_cb2(const bfdev_hashmap_t *m);
static bool shrink_cb2(const bfdev_hashmap_t *m);
static bool extend_cb(const bfdev_hashmap_t *m, void *pdata) { knob(m, pdata); return asked_extend = extend_cb2(m); }
static bool shrink_cb(const bfdev_hashmap_t *m, void *pdata) { knob(m, pdata); return asked_shrink = shrink_cb2(m); }
static bool extend_cb2(const bfdev_hashmap_t *m)
{
    if (policy == 1) return m->used > m->capacity * 3;
    if (policy == 2) return m->capacity < 256 && m->used * 2 >= m->capacity;
    return false;
}
static bool shrink_cb2(const bfdev_hashmap_t *m)
{
    if (policy == 1) return m->capacity > 4;
    if (policy == 2) return false;
    return m->used * 8 < m->capacity;
}
static const bfdev_hashmap_ops_t ops_plain = { .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find };
static const bfdev_hashmap_ops_t ops_tuned = { .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find,
    .extend = extend_cb, .shrink = shrink_cb };

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 500 : 220);
    static const int base[NOPS_] = { 20, 8, 5, 8, 14, 8, 1 };
    int deep = sim_chance(r, 1, 3);
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == ADD || i == DEL);
    tr->ncfg = 6;
    tr->cfg[0] = deep ? 200 : sim_range(r, 1, 40);
    tr->cfg[1] = sim_range(r, 0, 6);
    tr->cfg[2] = (int64_t)sim_u64(r);
    tr->cfg[3] = faults && sim_chance(r, 1, 5) ? sim_range(r, 128, 2048) : 0;
    tr->cfg[4] = sim_chance(r, 1, 3) ? sim_range(r, 1, 3) : 0;
    /* now and then a map that is large enough for a long rehash */
    tr->cfg[5] = sim_chance(r, 1, 200);
    if (tr->cfg[5]) {
        n = (int)sim_range(r, 1000, SIM_MAXOPS);
        deep = 1;
        tr->cfg[0] = sim_range(r, 1000, 1 << 20);
        tr->cfg[1] = sim_chance(r, 1, 2) ? 4 : sim_chance(r, 1, 2) ? 0 : 6;
        tr->cfg[3] = faults && sim_chance(r, 1, 4) ? sim_range(r, 4096, 40000) : 0;
        w[RELEASE] = 0;
    }
    for (int i = 0; i < n; ++i) {
        /* grow phase, then drain phase, so that both rehash directions run */
        int k = sim_pickw(r, w, NOPS_);
        if (deep && i < n / 2 && (k == DEL || k == RELEASE)) k = ADD;
        if (deep && i > n * 3 / 4 && k == ADD) k = DEL;
        sim_op *o = sim_add(tr, (uint32_t)k);
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        /* drain: ask for keys that are there */
        if (tr->cfg[5] && o->kind != ADD && i && sim_chance(r, 3, 4)) o->a[0] = tr->ops[sim_below(r, (uint64_t)i)].a[0];
        o->a[1] = sim_chance(r, 1, 2);
        if (faults) sim_arm(r, o, 1, 3, 0);
    }
}

static item *fresh(int key)
{
    for (int i = 0; i < nitem; ++i)
        if (!items[i].in) {
            memset(&items[i].node, 0xdd, sizeof(items[i].node));
            items[i].key = key;
            return &items[i];
        }
    return NULL;
}
static int count(int key)
{
    int n = 0;
    for (int i = 0; i < nitem; ++i) n += items[i].in && items[i].key == key;
    return n;
}

/* learn which node left by walking the map */
static item *missing(bfdev_hashmap_t *m, int key)
{
    bfdev_hlist_node_t *pos; unsigned long idx;
    item *gone = NULL;
    for (int k = 0; k < nitem; ++k) items[k].seen = 0;
    bfdev_hashmap_for_each(pos, m, idx) toitem(pos)->seen++;
    for (int k = 0; k < nitem; ++k)
        if (items[k].in && !items[k].seen) {
            SIM_CHECK(!gone && items[k].key == key, "hashmap:replace", "replacing or deleting key %d removed another node", key);
            gone = &items[k];
        }
    SIM_CHECK(gone, "hashmap:replace", "replacing or deleting key %d removed nothing", key);
    return gone;
}

static int walkform;
static void check(bfdev_hashmap_t *m)
{
    bfdev_hlist_node_t *pos, *tmp;
    item *e, *f_;
    unsigned long idx;
    int n = 0;
    const int form = walkform & 3;
    for (int i = 0; i < nitem; ++i) items[i].seen = 0;
    SIM_CHECK(m->used == (unsigned long)nin, "hashmap:fill", "the map says %lu used, %d are stored", m->used, nin);
#define SEEN(it) { SIM_CHECK((it)->in, "hashmap:ghost", "iteration yields a node that is not stored (key %d)", (it)->key); \
        SIM_CHECK(!(it)->seen++, "hashmap:duplicate", "iteration yields a node twice (key %d)", (it)->key); n++; }
    switch (form) {
    case 0: bfdev_hashmap_for_each(pos, m, idx) SEEN(toitem(pos)) break;
    case 1: bfdev_hashmap_for_each_safe(pos, tmp, m, idx) SEEN(toitem(pos)) break;
    case 2: bfdev_hashmap_for_each_entry(e, m, node, idx) SEEN(e) break;
    default: bfdev_hashmap_for_each_entry_safe(e, f_, m, node, idx) SEEN(e) break;
    }
    SIM_CHECK(n == nin, "hashmap:lost", "iteration yields %d nodes, %d are stored", n, nin);
    for (int i = 0; i < nitem; ++i) {
        if (!items[i].in) continue;
        bfdev_hlist_node_t *f = bfdev_hashmap_find(m, (void *)(intptr_t)items[i].key);
        SIM_CHECK(f, "hashmap:unfindable", "stored key %d is not found", items[i].key);
        SIM_CHECK(toitem(f)->in && toitem(f)->key == items[i].key, "hashmap:wrong-node", "find(%d) returned a wrong node", items[i].key);
    }
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, tr->cfg[3], (uint64_t)tr->cfg[2]);
    bfdev_hashmap_t m;
    hashkind = (int)tr->cfg[1];
    policy = (int)tr->cfg[4];
    nitem = tr->cfg[5] ? NITEM : 320;
    items = sim_tmp(sizeof(item) * (size_t)nitem);
    nin = 0;
    themap = &m;
    bfdev_hashmap_init(&m, sim_heap_alloc(h), policy ? &ops_tuned : &ops_plain, (void *)&KEYMAGIC);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int key = (int)o->a[0], have = count(key), rc;
        bfdev_hlist_node_t *poison = (void *)&tr, *old = poison;
        item *it;
        unsigned long cap = m.capacity;
        asked_extend = asked_shrink = -1;
        expect_used = nin - (o->kind == DEL);
        sim_heap_op(h, o);
        switch (o->kind) {
        case ADD: case SET: case UPDATE: case APPEND:
            if (!(it = fresh(key))) break;
            switch (o->kind) {
            case ADD:
                if (o->a[1]) rc = bfdev_hashmap_insert(&m, &it->node, &old, BFDEV_HASHMAP_ADD);
                else rc = bfdev_hashmap_add(&m, &it->node);
                break;
            case SET: rc = bfdev_hashmap_set(&m, &it->node, o->a[1] ? &old : NULL); break;
            case UPDATE: rc = bfdev_hashmap_update(&m, &it->node, o->a[1] ? &old : NULL); break;
            default: rc = bfdev_hashmap_append(&m, &it->node); break;
            }
            sim_log((uint64_t)rc);
            if (o->kind == ADD && have) {
                SIM_CHECK(rc == -BFDEV_EEXIST, "hashmap:add-duplicate", "add of present key %d returned %d", key, rc);
                if (o->a[1]) SIM_CHECK(old != poison && toitem(old)->in && toitem(old)->key == key, "hashmap:old", "the existing node was not reported");
            } else if (o->kind == UPDATE && !have) {
                SIM_CHECK(rc == -BFDEV_ENOENT, "hashmap:update-absent", "update of absent key %d returned %d", key, rc);
            } else if ((o->kind == SET || o->kind == UPDATE) && have) {
                SIM_CHECK(rc == 0, "hashmap:replace", "replacing present key %d returned %d", key, rc);
                item *gone = NULL;
                if (o->a[1]) {
                    SIM_CHECK(old != poison && toitem(old)->in && toitem(old)->key == key && toitem(old) != it, "hashmap:old", "the replaced node was not reported");
                    gone = toitem(old);
                } else {
                    gone = missing(&m, key);
                }
                gone->in = false;
                it->in = true;
            } else if (rc) {
                SIM_CHECK(sim_heap_failed(h), "hashmap:spurious-failure", "%s of key %d returned %d with memory available", opn[o->kind], key, rc);
                SIM_CHECK(rc == -BFDEV_ENOMEM, "hashmap:errno", "allocation failure reported as %d", rc);
                sim_probe("insert_failed_oom");
            } else {
                it->in = true;
                nin++;
                if (sim_heap_failed(h)) sim_probe("insert_ok_despite_oom");
            }
            break;
        case DEL:
            rc = bfdev_hashmap_del(&m, (void *)(intptr_t)key, o->a[1] ? &old : NULL);
            sim_log((uint64_t)rc);
            if (!o->a[1] && have && !rc) old = &missing(&m, key)->node;
            if (!have) SIM_CHECK(rc == -BFDEV_ENOENT, "hashmap:del-absent", "del of absent key %d returned %d", key, rc);
            else {
                SIM_CHECK(rc == 0, "hashmap:del", "del of present key %d returned %d", key, rc);
                SIM_CHECK(old != poison && toitem(old)->in && toitem(old)->key == key, "hashmap:del-node", "del reported a wrong node");
                toitem(old)->in = false;
                nin--;
                if (sim_heap_failed(h)) sim_probe("del_ok_shrink_failed");
            }
            break;
        case FIND: {
            bfdev_hlist_node_t *f = bfdev_hashmap_find(&m, (void *)(intptr_t)key);
            SIM_CHECK(!!f == !!have, "hashmap:find", "find of key %d: got %d, stored %d", key, !!f, have);
            break;
        }
        case RELEASE:
            /* the nodes go away with their map */
            if (o->a[0] & 1) {
                bfdev_hlist_node_t *pos, *tmp;
                unsigned long idx;
                int n = 0;
                bfdev_hashmap_for_each_safe(pos, tmp, &m, idx) { memset(pos, 0xa5, sizeof(*pos)); n++; }
                SIM_CHECK(n == nin, "hashmap:lost", "safe iteration yields %d nodes, %d are stored", n, nin);
            } else {
                item *e, *f;
                unsigned long idx;
                int n = 0;
                bfdev_hashmap_for_each_entry_safe(e, f, &m, node, idx) { memset(&e->node, 0xa5, sizeof(e->node)); n++; }
                SIM_CHECK(n == nin, "hashmap:lost", "safe iteration yields %d nodes, %d are stored", n, nin);
            }
            bfdev_hashmap_release(&m);
            for (int k = 0; k < nitem; ++k) items[k].in = false;
            nin = 0;
            sim_heap_expect_empty(h, "hashmap release");
            break;
        }
        walkform = i;
        if (!tr->cfg[5] || i % 61 == 60) check(&m);
        /* the table follows its fill: the caller's answers decide, or the default keeps both bounded */
        if (o->kind == RELEASE) cap = 0;
        if (asked_extend == 0) SIM_CHECK(m.capacity == cap, "hashmap:tuning", "the table grew from %lu to %lu though the caller declined", cap, m.capacity);
        if (asked_extend == 1) SIM_CHECK(m.capacity > cap || sim_heap_failed(h), "hashmap:tuning", "the table did not grow though the caller asked");
        if (asked_shrink == 0) SIM_CHECK(m.capacity == cap, "hashmap:tuning", "the table shrank from %lu to %lu though the caller declined", cap, m.capacity);
        if (asked_shrink == 1 && cap > 64) SIM_CHECK(m.capacity < cap || sim_heap_failed(h), "hashmap:tuning", "the table did not shrink though the caller asked");
        if (!policy && !sim_faults_fired()) {
            SIM_CHECK(!nin || (unsigned long)nin <= m.capacity * 4, "hashmap:load", "%d nodes in %lu buckets", nin, m.capacity);
            SIM_CHECK(m.capacity <= 64 || m.capacity <= (unsigned long)(nin + 1) * 32, "hashmap:load", "%lu buckets kept for %d nodes", m.capacity, nin);
        }
        SIM_CHECK(sim_heap_bytes(h) <= (m.capacity + 1) * sizeof(*m.buckets) * 2, "hashmap:memory", "%zu bytes held for %lu buckets", sim_heap_bytes(h), m.capacity);
        sim_state(sim_mix(sim_mix((uint64_t)nin, m.capacity), o->kind * 2 + (sim_heap_failed(h) > 0)));
    }
    sim_heap_calm(h);
    int unused = 100000;
    for (int i = 0; i < nitem; ++i) if (items[i].in && items[i].key == unused) { unused++; i = -1; }
    item *it = fresh(unused);
    expect_used = nin;
    if (it) {
        int rc = bfdev_hashmap_add(&m, &it->node);
        SIM_CHECK(rc == 0, "hashmap:recovery", "insert fails (%d) after the faults stopped", rc);
        it->in = true; nin++;
        check(&m);
    }
    bfdev_hashmap_release(&m);
    sim_heap_expect_empty(h, "hashmap release");
}

/* another map, from inside a callback */
static unsigned long nest_hash_key(const void *key, void *pdata) { (void)pdata; return (uintptr_t)key * 0x9e3779b97f4a7c15ull; }
static unsigned long nest_hash_node(const bfdev_hlist_node_t *n, void *pdata) { return nest_hash_key((void *)(intptr_t)bfdev_container_of(n, item, node)->key, pdata); }
static long nest_equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pdata) { (void)pdata; return bfdev_container_of(a, item, node)->key - bfdev_container_of(b, item, node)->key; }
static long nest_find(const bfdev_hlist_node_t *n, const void *key, void *pdata) { (void)pdata; return bfdev_container_of(n, item, node)->key - (int)(intptr_t)key; }
static void nest(void)
{
    static const bfdev_hashmap_ops_t ops = { .hash_key = nest_hash_key, .hash_node = nest_hash_node, .equal = nest_equal, .find = nest_find };
    item it[12];
    bfdev_hashmap_t m;
    memset(it, 0, sizeof(it));
    bfdev_hashmap_init(&m, NULL, &ops, NULL);
    for (int i = 0; i < 12; ++i) { it[i].key = i * 5; SIM_CHECK(!bfdev_hashmap_add(&m, &it[i].node), "hashmap:nested", "adding to another map from inside a callback fails"); }
    for (int i = 0; i < 12; i += 3) SIM_CHECK(!bfdev_hashmap_del(&m, (void *)(intptr_t)(i * 5), NULL), "hashmap:nested", "deleting from another map from inside a callback fails");
    for (int i = 0; i < 60; ++i)
        SIM_CHECK(bfdev_hashmap_find(&m, (void *)(intptr_t)i) == (i % 5 || !(i / 5 % 3) ? NULL : &it[i / 5].node), "hashmap:nested", "a map used from inside a callback has lost track of key %d", i);
    bfdev_hashmap_release(&m);
}

const sim_workload w_hashmap = { "C02", "hashmap", cfn, opn, gen, exec, 2000, nest };
