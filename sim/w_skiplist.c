/* C05: skip list against a sorted multiset; the level lottery and the allocator are simulated. */
#include "sim.h"
#include <bfdev/skiplist.h>
#include <bfdev/errno.h>

enum { INSERT, DELETE, FIND, RESET, DRAIN, WALK, BULK, NOPS_ };
static const char *const opn[] = { "insert", "delete", "find", "reset", "delete-run", "walk", "bulk-insert" };
static const char *const cfn[SIM_NCFG] = { "levels", "keyspace", "randseed", "garbage", "budget", "order", "lucky" };

#define MAXN 1024
#define MAXK 256
typedef struct { int k; int live; unsigned seq; } ent;
static ent *ents;
static int nents, nlive, space, sign, percnt[MAXK];
static unsigned relseen, lucky;
static unsigned long looks;     /* comparisons made */

static long cmp(const void *a, const void *b, void *pdata)
{
    (void)pdata;
    looks++;
    sim_nest();
    return (long)sign * (((const ent *)a)->k - ((const ent *)b)->k);
}
static long finder(const void *node, void *pdata)
{
    looks++;
    sim_nest();
    return (long)sign * (((const ent *)node)->k - *(const int *)pdata);
}
static void release(void *key, void *pdata)
{
    ent *e = key;
    SIM_CHECK(pdata == &relseen, "skiplist:pdata", "release callback got a wrong private pointer");
    SIM_CHECK(e >= ents && e < ents + nents && e->live, "skiplist:release-twice", "release callback for an element that is not stored");
    e->live = 0; relseen++;
    sim_nest();
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 5, tier ? 400 : 120);
    static const int base[NOPS_] = { 20, 12, 6, 1, 1, 4, 0 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == INSERT);
    tr->ncfg = 7;
    tr->cfg[0] = sim_chance(r, 1, 6) ? 1 : sim_range(r, 1, sim_chance(r, 1, 8) ? 40 : 12);
    tr->cfg[1] = sim_range(r, 1, sim_chance(r, 1, 2) ? 8 : MAXK);
    tr->cfg[2] = (int64_t)(sim_u64(r) >> 1);
    tr->cfg[3] = (int64_t)sim_u64(r);
    tr->cfg[4] = faults && sim_chance(r, 1, 6) ? sim_range(r, 100, 3000) : 0;
    tr->cfg[5] = sim_range(r, 0, 1);
    if (sim_chance(r, 1, 40)) { w[BULK] = 4; w[RESET] = w[DRAIN] = 0; n = n / 4 + 4; tr->cfg[4] = 0; tr->cfg[0] = sim_range(r, 8, 14); tr->cfg[1] = MAXK; }
    tr->cfg[6] = 0;
    if (sim_chance(r, 1, 60)) {         /* a lottery won again and again: elements of very many levels */
        tr->cfg[0] = sim_range(r, 30, sim_chance(r, 1, 2) ? 330 : 70);
        tr->cfg[6] = sim_range(r, 56, 64);
        tr->cfg[1] = sim_range(r, 1, 12);
        n = n / 3 + 3;
        w[BULK] = 0;
    }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[1]);
        o->a[1] = sim_range(r, 1, 12);
        o->a[2] = (int64_t)sim_below(r, 12);
        o->a[3] = (int64_t)sim_below(r, 1024);
        if (o->kind == BULK) o->a[1] = sim_range(r, 80, 255);
        if (faults) sim_arm(r, o, 1, 3, 1);
    }
}

/* level 0 is the whole multiset in order; a higher level is a sorted part of the one below */
static void check(bfdev_skip_head_t *sl)
{
    static bfdev_skip_node_t *below[MAXN], *here[MAXN];
    bfdev_skip_node_t *pos;
    int nbelow = 0, seen[MAXK];
    memset(seen, 0, sizeof(seen));
    for (unsigned lev = 0; lev < sl->levels; ++lev) {
        int n = 0, at = 0;
        ent *prev = NULL;
        bfdev_skiplist_for_each(pos, sl, lev) {
            ent *e = pos->key;
            SIM_CHECK(e >= ents && e < ents + nents && e->live, "skiplist:ghost", "level %u holds an element that is not stored", lev);
            SIM_CHECK(n < nlive, "skiplist:extra", "level %u holds more elements than stored", lev);
            SIM_CHECK(!prev || sign * (prev->k - e->k) <= 0, "skiplist:order", "level %u is out of order", lev);
            if (!lev) seen[e->k]++;
            else {
                while (at < nbelow && below[at] != pos) ++at;
                SIM_CHECK(at < nbelow, "skiplist:level", "an element of level %u is not on the level below, in order", lev);
            }
            here[n++] = pos;
            prev = e;
        }
        if (!lev) {
            SIM_CHECK(n == nlive, "skiplist:lost", "the list holds %d elements, expected %d", n, nlive);
            for (int k = 0; k < space; ++k) SIM_CHECK(seen[k] == percnt[k], "skiplist:lost", "key %d is stored %d times, expected %d", k, seen[k], percnt[k]);
            int back = n;
            bfdev_skiplist_for_each_reverse(pos, sl, lev) SIM_CHECK(back > 0 && here[--back] == pos, "skiplist:reverse", "reverse iteration differs from forward iteration");
            SIM_CHECK(!back, "skiplist:reverse", "reverse iteration is shorter");
        }
        memcpy(below, here, sizeof(*here) * (size_t)n);
        nbelow = n;
        if (lev >= 3 && n) { sim_probe("element_on_level>=3"); if (lev >= 255) sim_probe("element_on_level>=255"); }
    }
}
static void find_all(bfdev_skip_head_t *sl)
{
    unsigned long from = looks;
    for (int k = -1; k <= space; ++k) {
        bfdev_skip_node_t *n = bfdev_skiplist_find(sl, finder, &k);
        int want = k >= 0 && k < space ? percnt[k] : 0;
        SIM_CHECK((n != NULL) == (want > 0), "skiplist:find", "find(%d) is %s, %d stored", k, n ? "present" : "absent", want);
        if (n) SIM_CHECK(((ent *)n->key)->k == k && ((ent *)n->key)->live, "skiplist:find", "find(%d) returns key %d", k, ((ent *)n->key)->k);
    }
    /* the levels are there to skip: an even lottery never leaves a search linear */
    if (nlive >= 200 && sl->levels >= 8 && !lucky) {
        SIM_CHECK((looks - from) / (unsigned long)(space + 2) < (unsigned long)nlive / 3, "skiplist:linear", "%lu comparisons for %d searches of %d elements", looks - from, space + 2, nlive);
        sim_probe("searched_200_or_more_elements");
    }
}
static void delete(bfdev_skip_head_t *sl, int k)
{
    bfdev_skip_node_t *pos;
    bfdev_skiplist_delete(sl, finder, &k);
    if (!percnt[k]) return;
    /* exactly one element with that key is gone */
    unsigned was = 0, is = 0;
    static unsigned stamp;
    ++stamp;
    bfdev_skiplist_for_each(pos, sl, 0) {
        ent *e = pos->key;
        SIM_CHECK(e >= ents && e < ents + nents && e->live && e->seq != stamp, "skiplist:ghost", "walk after delete meets an element that is not stored or meets it twice");
        e->seq = stamp;
        if (e->k == k) is++;
    }
    for (int i = 0; i < nents; ++i) if (ents[i].live && ents[i].k == k) { was++; if (ents[i].seq != stamp) ents[i].live = 0; }
    SIM_CHECK(is == was - 1, "skiplist:delete", "delete(%d) left %u of %u elements", k, is, was);
    percnt[k]--; nlive--;
}
/* every iteration form from any element of any level; the safe ones lose elements on the way */
static bfdev_skip_node_t *want[MAXN];
static int nwant, at;
static void see(bfdev_skip_head_t *sl, bfdev_skip_node_t *p, int safe, int mask)
{
    SIM_CHECK(at < nwant && want[at] == p, "skiplist:walk", "iteration differs from the list at element %d of %d", at, nwant);
    ent *e = p->key;
    if (safe && (mask >> at % 7) & 1 && percnt[e->k] == 1) { sim_probe("removed_while_walking"); delete(sl, e->k); }
    at++;
}
static void walk(bfdev_skip_head_t *sl, const sim_op *o)
{
    bfdev_skip_node_t *pos, *tmp, *all[MAXN];
    unsigned lev = sl->curr ? (unsigned)((uint64_t)o->a[1] % sl->curr) : 0;
    int n = 0, form = (int)((uint64_t)o->a[2] % 12), mask = (int)(o->a[3] & 127);
    bfdev_skiplist_for_each(pos, sl, lev) all[n++] = pos;
    if (!n) return;
    int m = (int)((uint64_t)o->a[3] % (uint64_t)n), kind = form / 2 % 3, rev = form >= 6;
    nwant = at = 0;
    for (int j = kind == 0 ? (rev ? n - 1 : 0) : kind == 1 ? m : rev ? m - 1 : m + 1; j >= 0 && j < n; j += rev ? -1 : 1) want[nwant++] = all[j];
    pos = all[m];
    switch (form) {
    case 0: bfdev_skiplist_for_each(pos, sl, lev) see(sl, pos, 0, 0); break;
    case 1: bfdev_skiplist_for_each_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    case 2: bfdev_skiplist_for_each_from(pos, sl, lev) see(sl, pos, 0, 0); break;
    case 3: bfdev_skiplist_for_each_from_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    case 4: bfdev_skiplist_for_each_continue(pos, sl, lev) see(sl, pos, 0, 0); break;
    case 5: bfdev_skiplist_for_each_continue_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    case 6: bfdev_skiplist_for_each_reverse(pos, sl, lev) see(sl, pos, 0, 0); break;
    case 7: bfdev_skiplist_for_each_reverse_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    case 8: bfdev_skiplist_for_each_reverse_from(pos, sl, lev) see(sl, pos, 0, 0); break;
    case 9: bfdev_skiplist_for_each_reverse_from_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    case 10: bfdev_skiplist_for_each_reverse_continue(pos, sl, lev) see(sl, pos, 0, 0); break;
    default: bfdev_skiplist_for_each_reverse_continue_safe(pos, tmp, sl, lev) see(sl, pos, 1, mask); break;
    }
    SIM_CHECK(at == nwant, "skiplist:walk", "iteration ends after %d of %d elements", at, nwant);
}
static int insert(bfdev_skip_head_t *sl, sim_heap *h, int k)
{
    if (nents == MAXN) return 0;
    ent *e = &ents[nents];
    e->k = k; e->live = 0; e->seq = 0;
    unsigned curr = sl->curr;
    int rc = bfdev_skiplist_insert(sl, e, cmp, NULL);
    sim_log((uint64_t)rc);
    if (rc) {
        SIM_CHECK(rc == -BFDEV_ENOMEM && sim_heap_failed(h), "skiplist:spurious-failure", "insert failed (%d) with memory available", rc);
        sim_probe(curr ? "insert_failed_oom" : "first_insert_failed_oom");
        return rc;
    }
    e->live = 1; nents++; nlive++; percnt[k]++;
    return 0;
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, tr->cfg[4], (uint64_t)tr->cfg[3]);
    bfdev_skip_head_t *sl;
    if (tr->cfg[0] < 1 || tr->cfg[0] > 330 || tr->cfg[1] < 1 || tr->cfg[1] > MAXK) return;
    lucky = (unsigned)tr->cfg[6];
    space = (int)tr->cfg[1]; sign = tr->cfg[5] ? -1 : 1;
    ents = sim_tmp(sizeof(*ents) * MAXN);
    nents = nlive = 0; memset(percnt, 0, sizeof(percnt));
    sim_seed_rand((uint64_t)tr->cfg[2]);
    sim_rand_low((unsigned)tr->cfg[6]);
    SIM_CHECK(!bfdev_skiplist_create(sim_heap_alloc(h), 0), "skiplist:create", "a list without levels was created");
    sim_heap_arm(h, 0, 1);
    SIM_CHECK(!bfdev_skiplist_create(sim_heap_alloc(h), (unsigned)tr->cfg[0]), "skiplist:create", "create succeeded without memory");
    sim_heap_calm(h);
    sl = bfdev_skiplist_create(sim_heap_alloc(h), (unsigned)tr->cfg[0]);
    SIM_CHECK(sl, "skiplist:create", "create failed");
    sim_heap_budget(h, tr->cfg[4]);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int k = (int)(o->a[0] % space);
        if (k < 0) k = 0;
        sim_heap_op(h, o);
        switch (o->kind) {
        case INSERT: insert(sl, h, k); break;
        case DELETE: delete(sl, k); break;
        case DRAIN: for (int j = 0; j < o->a[1] && j < MAXK; ++j) delete(sl, (k + j) % space); break;
        case FIND: {
            bfdev_skip_node_t *n = bfdev_skiplist_find(sl, finder, &k);
            SIM_CHECK((n != NULL) == (percnt[k] > 0), "skiplist:find", "find(%d) is %s, %d stored", k, n ? "present" : "absent", percnt[k]);
            break;
        }
        case WALK: walk(sl, o); break;
        case BULK: for (int j = 0; j < o->a[1] && j < MAXK; ++j) if (!percnt[(k + j * 7) % space]) insert(sl, h, (k + j * 7) % space); break;
        case RESET:
            relseen = 0;
            bfdev_skiplist_reset(sl, o->a[3] & 1 ? NULL : release, &relseen);
            if (o->a[3] & 1) for (int j = 0; j < nents; ++j) if (ents[j].live) { ents[j].live = 0; relseen++; }
            SIM_CHECK((int)relseen == nlive, "skiplist:release", "reset released %u of %d elements", relseen, nlive);
            nlive = 0; memset(percnt, 0, sizeof(percnt));
            SIM_CHECK(sim_heap_blocks(h) == 1, "skiplist:reset-leak", "%zu blocks remain after reset", sim_heap_blocks(h));
            break;
        }
        sim_heap_arm(h, -1, 0);
        check(sl);
        find_all(sl);
        SIM_CHECK(sim_heap_blocks(h) == (size_t)nlive + 1, "skiplist:leak", "%zu blocks for %d elements", sim_heap_blocks(h), nlive);
        sim_state(sim_mix(sim_mix((uint64_t)nlive, sl->curr), o->kind * 2 + (sim_heap_failed(h) > 0)));
    }
    sim_heap_calm(h);
    if (nents < MAXN) SIM_CHECK(!insert(sl, h, 0), "skiplist:recovery", "insert fails after the faults stopped");
    check(sl); find_all(sl);
    relseen = 0;
    bfdev_skiplist_destroy(sl, nents % 3 ? release : NULL, &relseen);
    if (!(nents % 3)) relseen = (unsigned)nlive;
    SIM_CHECK((int)relseen == nlive, "skiplist:release", "destroy released %u of %d elements", relseen, nlive);
    sim_heap_expect_empty(h, "skiplist destroy");
}

/* another list, from inside a callback */
static long nest_cmp(const void *a, const void *b, void *pdata) { (void)pdata; return *(const int *)a - *(const int *)b; }
static long nest_find(const void *a, void *pdata) { return *(const int *)a - *(const int *)pdata; }
static int nest_gone;
static void nest_release(void *key, void *pdata) { (void)key; (void)pdata; nest_gone++; }
static void nest(void)
{
    static int v[9] = { 5, 1, 8, 3, 7, 2, 6, 4, 0 };
    bfdev_skip_head_t *s = bfdev_skiplist_create(NULL, 4);
    int k = 3, last = -1, n = 0;
    bfdev_skip_node_t *w;
    SIM_CHECK(s, "skiplist:nested", "no other list can be created from inside a callback");
    for (int i = 0; i < 9; ++i) SIM_CHECK(!bfdev_skiplist_insert(s, &v[i], nest_cmp, NULL), "skiplist:nested", "inserting into another list from inside a callback fails");
    bfdev_skiplist_delete(s, nest_find, &k);
    SIM_CHECK(!bfdev_skiplist_find(s, nest_find, &k), "skiplist:nested", "deleting from another list from inside a callback fails");
    bfdev_skiplist_for_each(w, s, 0) { SIM_CHECK(*(int *)w->key > last, "skiplist:nested", "a list used from inside a callback is out of order"); last = *(int *)w->key; n++; }
    nest_gone = 0;
    bfdev_skiplist_destroy(s, nest_release, NULL);
    SIM_CHECK(n == 8 && nest_gone == 8, "skiplist:nested", "a list used from inside a callback holds %d and releases %d of 8", n, nest_gone);
}

const sim_workload w_skiplist = { "C05", "skiplist", cfn, opn, gen, exec, 2000, nest };
