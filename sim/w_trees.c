/*
 * H02: red-black tree (plain, cached, augmented) against a sorted set;
 * H05: binary heap against a multiset;
 * H04: interval tree against a list of intervals.
 * Faults are the client errors the debug build promises to contain: removing a
 * node twice, linking a node twice.
 */
#include "sim.h"
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/segtree.h>

#define MAXN 512

/*
 * Every iteration form is run from a random node and compared with the part of
 * the order it promises to visit.
 */
enum { ALL, FROM, CONT };
static void *wk[MAXN + 2];
static int nwk, wform, wcount;
#define SEE(e) do { if (nwk > MAXN) break; wk[nwk++] = (e); } while (0)
/* the wcount-th form: its order, where it starts, whether the visited may go away, its loop and the node seen */
#define W(ord, st, safe, loop, ent) if (wform == wcount++) { *order = ord; *start = st; *wipes = safe; \
    loop { if (nwk > MAXN) break; SEE(ent); if (safe) memset(ent, 0xa5, wipe); } return true; }

/* ------------------------------------------------------------------ rbtree */
typedef struct { bfdev_rb_node_t node; long key; long val, max; int in; unsigned mark; } rbn;
static rbn *R;
static long nin;
static int multi, nslots;
static bfdev_rb_root_cached_t *T;
static int mode;   /* 0 plain, 1 cached, 2 plain augmented, 3 cached augmented */

#define VAL(n) ((n)->val)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, aug, rbn, node, long, max, VAL);

static long keycmp(long a, long b) { return a < b ? -1 : a > b; }
static long rbcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata)
{
    (void)pdata;
    sim_nest();
    return keycmp(bfdev_rb_entry(a, rbn, node)->key, bfdev_rb_entry(b, rbn, node)->key);
}
static long rbfind(const bfdev_rb_node_t *a, void *key)
{
    sim_nest();
    return keycmp(bfdev_rb_entry(a, rbn, node)->key, *(long *)key);
}

enum { R_INS, R_DEL, R_FIND, R_FINDLAST, R_REPLACE, R_DEL2, R_POSTDEL, R_POPMIN, R_RELINK, R_WALK, R_N };
static const char *const r_opn[] = { "insert", "delete", "find", "find-last-insert", "replace", "delete-twice", "postorder-clear", "pop-min", "link-twice", "walk" };
static const char *const r_cfn[SIM_NCFG] = { "mode", "keyspace", "multi", "pattern" };

static void r_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[R_N] = { 24, 12, 4, 4, 3, 2, 0, 2, 1, 3 };
    int w[R_N], n = (int)sim_range(r, 5, tier ? 600 : 160);
    for (int i = 0; i < R_N; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == R_INS);
    if (!faults) w[R_DEL2] = w[R_RELINK] = 0;
    tr->ncfg = 4;
    tr->cfg[0] = sim_range(r, 0, 3);
    tr->cfg[1] = sim_range(r, 1, sim_chance(r, 1, 3) ? 10 : 256);
    tr->cfg[2] = sim_chance(r, 1, 3);
    tr->cfg[3] = sim_range(r, 0, 2);
    long seq = 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, R_N));
        if (sim_chance(r, 1, 120)) o->kind = R_POSTDEL;
        o->a[0] = tr->cfg[3] == 0 ? (int64_t)sim_below(r, (uint64_t)tr->cfg[1]) : (tr->cfg[3] == 1 ? seq++ : -seq++);
        if (o->kind == R_FIND || o->kind == R_FINDLAST) o->a[0] += sim_range(r, -1, 1);
        o->a[1] = (int64_t)sim_below(r, 1000);
        o->a[2] = (int64_t)sim_below(r, MAXN);
    }
}

static int black_height(const bfdev_rb_node_t *n, const bfdev_rb_node_t *parent, int depth, int limit, long *maxp, long *cnt)
{
    if (!n) { *maxp = -1; return 0; }
    SIM_CHECK(n->parent == parent, "rb:parent", "a node's parent pointer does not name its parent");
    SIM_CHECK(depth <= limit, "rb:height", "%ld nodes reach depth %d", nin, depth);
    SIM_CHECK(n->color != BFDEV_RB_RED || (parent && parent->color == BFDEV_RB_BLACK), "rb:red", "a red node has a red parent or is the root");
    SIM_CHECK(++*cnt <= nin, "rb:extra", "the tree links more nodes than were inserted");
    long lm, rm;
    int l = black_height(n->left, n, depth + 1, limit, &lm, cnt), r = black_height(n->right, n, depth + 1, limit, &rm, cnt);
    SIM_CHECK(l == r, "rb:black", "black heights of two subtrees differ (%d, %d)", l, r);
    rbn *e = bfdev_rb_entry(n, rbn, node);
    *maxp = e->val > lm ? e->val : lm;
    if (rm > *maxp) *maxp = rm;
    if (mode >= 2) SIM_CHECK(e->max == *maxp, "rb:augment", "subtree maximum is %ld, expected %ld", e->max, *maxp);
    return l + (n->color == BFDEV_RB_BLACK);
}

static void r_check(void)
{
    bfdev_rb_node_t *pos;
    rbn *prev = NULL;
    long n = 0, lg = 0, m, cnt = 0;
    static rbn *seq[MAXN];
    while ((1l << lg) < nin + 1) lg++;
    black_height(T->root.node, NULL, 0, (int)(2 * lg), &m, &cnt);
    SIM_CHECK(cnt == nin, "rb:lost", "the tree links %ld nodes, expected %ld", cnt, nin);
    bfdev_rb_for_each(pos, &T->root) {
        rbn *e = bfdev_rb_entry(pos, rbn, node);
        SIM_CHECK(e >= R && e < R + nslots && e->in, "rb:ghost", "the tree holds a node that was not inserted");
        SIM_CHECK(n < nin, "rb:extra", "iteration meets more nodes than inserted");
        SIM_CHECK(!prev || (multi ? prev->key <= e->key : prev->key < e->key), "rb:order", "keys %ld and %ld are out of order", prev->key, e->key);
        prev = e; seq[n++] = e;
    }
    SIM_CHECK(n == nin, "rb:lost", "iteration meets %ld nodes, expected %ld", n, nin);
    bfdev_rb_for_each_reverse(pos, &T->root) { SIM_CHECK(n > 0 && &seq[--n]->node == pos, "rb:reverse", "reverse iteration differs"); }
    SIM_CHECK(!n, "rb:reverse", "reverse iteration is short");
    if (mode & 1) SIM_CHECK(T->leftmost == (nin ? &seq[0]->node : NULL), "rb:leftmost", "the cached leftmost node is not the smallest");
    static unsigned stamp;
    ++stamp;
    bfdev_rb_pre_for_each(pos, &T->root) {
        rbn *e = bfdev_rb_entry(pos, rbn, node);
        SIM_CHECK(e->mark != stamp && n++ < nin, "rb:preorder", "preorder meets a node twice");
        SIM_CHECK(!pos->parent || bfdev_rb_entry(pos->parent, rbn, node)->mark == stamp, "rb:preorder", "preorder meets a child before its parent");
        SIM_CHECK(!pos->parent || pos != pos->parent->right || !pos->parent->left || bfdev_rb_entry(pos->parent->left, rbn, node)->mark == stamp, "rb:preorder", "preorder visits right before left");
        e->mark = stamp;
    }
    SIM_CHECK(n == nin, "rb:preorder", "preorder meets %ld of %ld nodes", n, nin);
    ++stamp; n = 0;
    bfdev_rb_post_for_each(pos, &T->root) {
        rbn *e = bfdev_rb_entry(pos, rbn, node);
        SIM_CHECK(e->mark != stamp && n++ < nin, "rb:postorder", "postorder meets a node twice");
        SIM_CHECK((!pos->left || bfdev_rb_entry(pos->left, rbn, node)->mark == stamp) && (!pos->right || bfdev_rb_entry(pos->right, rbn, node)->mark == stamp), "rb:postorder", "postorder meets a parent before a child");
        e->mark = stamp;
    }
    SIM_CHECK(n == nin, "rb:postorder", "postorder meets %ld of %ld nodes", n, nin);
}
/* in order, backwards, root first, children first */
enum { IN, BACK, PRE, POST };
#define RE(p) bfdev_rb_entry(p, rbn, node)
static bool r_walk(rbn *s, int *order, int *start, bool *wipes)
{
    const size_t wipe = sizeof(bfdev_rb_node_t);
    bfdev_rb_node_t *p = &s->node, *t;
    bfdev_rb_root_t *r = &T->root;
    rbn *e = s, *te;
    nwk = wcount = 0;
    W(IN, ALL, 0, bfdev_rb_for_each(p, r), RE(p))
    W(BACK, ALL, 0, bfdev_rb_for_each_reverse(p, r), RE(p))
    W(IN, FROM, 0, bfdev_rb_for_each_from(p), RE(p))
    W(BACK, FROM, 0, bfdev_rb_for_each_reverse_from(p), RE(p))
    W(IN, CONT, 0, bfdev_rb_for_each_continue(p), RE(p))
    W(BACK, CONT, 0, bfdev_rb_for_each_reverse_continue(p), RE(p))
    W(IN, ALL, 0, bfdev_rb_for_each_entry(e, r, node), e)
    W(BACK, ALL, 0, bfdev_rb_for_each_entry_reverse(e, r, node), e)
    W(IN, FROM, 0, bfdev_rb_for_each_entry_from(e, node), e)
    W(BACK, FROM, 0, bfdev_rb_for_each_entry_reverse_from(e, node), e)
    W(IN, CONT, 0, bfdev_rb_for_each_entry_continue(e, node), e)
    W(BACK, CONT, 0, bfdev_rb_for_each_entry_reverse_continue(e, node), e)
    W(PRE, ALL, 0, bfdev_rb_pre_for_each(p, r), RE(p))
    W(PRE, FROM, 0, bfdev_rb_pre_for_each_from(p), RE(p))
    W(PRE, CONT, 0, bfdev_rb_pre_for_each_continue(p), RE(p))
    W(PRE, ALL, 0, bfdev_rb_pre_for_each_entry(e, r, node), e)
    W(PRE, FROM, 0, bfdev_rb_pre_for_each_entry_from(e, node), e)
    W(PRE, CONT, 0, bfdev_rb_pre_for_each_entry_continue(e, node), e)
    W(POST, ALL, 0, bfdev_rb_post_for_each(p, r), RE(p))
    W(POST, FROM, 0, bfdev_rb_post_for_each_from(p), RE(p))
    W(POST, CONT, 0, bfdev_rb_post_for_each_continue(p), RE(p))
    W(POST, ALL, 1, bfdev_rb_post_for_each_safe(p, t, r), RE(p))
    W(POST, FROM, 1, bfdev_rb_post_for_each_safe_from(p, t), RE(p))
    W(POST, CONT, 1, bfdev_rb_post_for_each_safe_continue(p, t), RE(p))
    W(POST, ALL, 0, bfdev_rb_post_for_each_entry(e, r, node), e)
    W(POST, FROM, 0, bfdev_rb_post_for_each_entry_from(e, node), e)
    W(POST, CONT, 0, bfdev_rb_post_for_each_entry_continue(e, node), e)
    W(POST, ALL, 1, bfdev_rb_post_for_each_entry_safe(e, te, r, node), e)
    W(POST, FROM, 1, bfdev_rb_post_for_each_entry_from_safe(e, te, node), e)
    W(POST, CONT, 1, bfdev_rb_post_for_each_entry_continue_safe(e, te, node), e)
    if (!(mode & 1)) return false;
    W(IN, ALL, 0, bfdev_rb_cached_for_each(p, T), RE(p))
    W(BACK, ALL, 0, bfdev_rb_cached_for_each_reverse(p, T), RE(p))
    W(IN, ALL, 0, bfdev_rb_cached_for_each_entry(e, T, node), e)
    W(BACK, ALL, 0, bfdev_rb_cached_for_each_entry_reverse(e, T, node), e)
    W(PRE, ALL, 0, bfdev_rb_cached_pre_for_each(p, T), RE(p))
    W(PRE, ALL, 0, bfdev_rb_cached_pre_for_each_entry(e, T, node), e)
    W(POST, ALL, 0, bfdev_rb_cached_post_for_each(p, T), RE(p))
    W(POST, ALL, 1, bfdev_rb_cached_post_for_each_safe(p, t, T), RE(p))
    W(POST, ALL, 0, bfdev_rb_cached_post_for_each_entry(e, T, node), e)
    W(POST, ALL, 1, bfdev_rb_cached_post_for_each_entry_safe(e, te, T, node), e)
    return false;
}
static void r_list(bfdev_rb_node_t *n, int order, rbn **out, int *k)
{
    if (!n) return;
    if (order == PRE) out[(*k)++] = RE(n);
    r_list(order == BACK ? n->right : n->left, order, out, k);
    if (order == IN || order == BACK) out[(*k)++] = RE(n);
    r_list(order == BACK ? n->left : n->right, order, out, k);
    if (order == POST) out[(*k)++] = RE(n);
}
/* compare what a form visited with the order it promises */
static void walked(void **want, int n, void *from, int start, const char *what)
{
    int at = 0;
    if (start != ALL) { while (at < n && want[at] != from) ++at; at += start == CONT; }
    SIM_CHECK(nwk == n - at, what, "iteration form %d visits %d nodes, expected %d", wform, nwk, n - at);
    for (int i = 0; i < nwk; ++i) SIM_CHECK(wk[i] == want[at + i], what, "iteration form %d visits a wrong node at position %d", wform, i);
}
/* the ends of every subtree, and the farthest leaf on either side */
static void r_ends(bfdev_rb_node_t *n)
{
    bfdev_rb_node_t *p;
    for (p = n; p->left; p = p->left);
    SIM_CHECK(bfdev_rb_left_far(n) == p, "rb:ends", "the leftmost node of a subtree is wrong");
    for (p = n; p->right; p = p->right);
    SIM_CHECK(bfdev_rb_right_far(n) == p, "rb:ends", "the rightmost node of a subtree is wrong");
    for (p = n; p->left || p->right; p = p->left ? p->left : p->right);
    SIM_CHECK(bfdev_rb_left_deep(n) == p, "rb:ends", "the first leaf of a subtree is wrong");
    for (p = n; p->left || p->right; p = p->right ? p->right : p->left);
    SIM_CHECK(bfdev_rb_right_deep(n) == p, "rb:ends", "the last leaf of a subtree is wrong");
}

static rbn *have(long k) { for (int i = 0; i < nslots; ++i) if (R[i].in && R[i].key == k) return &R[i]; return NULL; }
static rbn *pick(int64_t a) { int k = (int)(a % MAXN); if (k < 0) k = 0; for (int i = 0; i < nslots; ++i) { rbn *e = &R[(k + i) % nslots]; if (e->in) return e; } return NULL; }
static void link_in(bfdev_rb_node_t *parent, bfdev_rb_node_t **link, rbn *e, bool leftmost)
{
    e->max = e->val;
    if (mode >= 2) for (bfdev_rb_node_t *p = parent; p; p = p->parent) {
        rbn *u = bfdev_rb_entry(p, rbn, node);
        if (u->max < e->val) u->max = e->val;
    }
    switch (mode) {
    case 0: bfdev_rb_insert_node(&T->root, parent, link, &e->node); break;
    case 1: bfdev_rb_cached_insert_node(T, parent, link, &e->node, leftmost); break;
    case 2: bfdev_rb_insert_node_augmented(&T->root, parent, link, &e->node, &aug); break;
    default: bfdev_rb_cached_insert_node_augmented(T, parent, link, &e->node, leftmost, &aug); break;
    }
    e->in = 1; nin++;
}
static void take_out(rbn *e, int64_t how)
{
    bfdev_rb_node_t *re, *n = &e->node;
    if (how & 1) {
        /* taken out first, balanced afterwards: what the delete helpers do in one go */
        if (T->leftmost == n && mode & 1) T->leftmost = bfdev_rb_next(n);
        switch (mode) {
        case 0: if ((re = bfdev_rb_remove(&T->root, n))) bfdev_rb_erase(&T->root, re); break;
        case 1: if ((re = bfdev_rb_cached_remove(T, n))) bfdev_rb_cached_erase(T, re); break;
        case 2: if ((re = bfdev_rb_remove_augmented(&T->root, n, &aug))) bfdev_rb_erase_augmented(&T->root, re, &aug); break;
        default: if ((re = bfdev_rb_cached_remove_augmented(T, n, &aug))) bfdev_rb_cached_erase_augmented(T, re, &aug); break;
        }
        memset(n, 0x7e, sizeof(*n));
        sim_probe("removed_then_balanced");
        return;
    }
    switch (mode) {
    case 0: bfdev_rb_delete(&T->root, n); break;
    case 1: { bfdev_rb_node_t *want = T->leftmost == n ? bfdev_rb_next(n) : NULL;
        SIM_CHECK(bfdev_rb_cached_delete(T, n) == want, "rb:leftmost", "cached delete returns a wrong new leftmost node"); break; }
    case 2: bfdev_rb_delete_augmented(&T->root, n, &aug); break;
    default: { bfdev_rb_node_t *want = T->leftmost == n ? bfdev_rb_next(n) : NULL;
        SIM_CHECK(bfdev_rb_cached_delete_augmented(T, n, &aug) == want, "rb:leftmost", "cached augmented delete returns a wrong new leftmost node"); break; }
    }
}
static rbn *fresh(long key, long val)
{
    if (nslots == MAXN) {
        for (int i = 0; i < MAXN; ++i) if (!R[i].in) { memset(&R[i].node, 0x5a, sizeof(R[i].node)); R[i].key = key; R[i].val = val; R[i].max = -7; return &R[i]; }
        return NULL;
    }
    rbn *e = &R[nslots++];
    memset(e, 0x5a, sizeof(*e));
    e->key = key; e->val = val; e->in = 0; e->max = -7; e->mark = 0;
    return e;
}
static void ins(long key, long val)
{
    rbn *old = have(key), *e = fresh(key, val);
    if (!e) return;
    if (multi) {
        bfdev_rb_node_t **link = &T->root.node, *parent = NULL;
        bool left = true;
        while (*link) {
            parent = *link;
            if (key < bfdev_rb_entry(parent, rbn, node)->key) link = &parent->left;
            else { link = &parent->right; left = false; }
        }
        link_in(parent, link, e, left);
        return;
    }
    bool ok;
    if (mode >= 2 && val & 1) {
        /* the helper that finds the place itself */
        e->max = val;
        ok = mode & 1 ? bfdev_rb_cached_insert_augmented(T, &e->node, rbcmp, NULL, &aug) : bfdev_rb_insert_augmented(&T->root, &e->node, rbcmp, NULL, &aug);
        SIM_CHECK(ok == !old, "rb:duplicate", "insert of a %s key returned %d", old ? "stored" : "new", ok);
        if (ok) { e->in = 1; nin++; }
        return;
    }
    if (mode >= 2) {
        bfdev_rb_node_t *parent, **link;
        bool left;
        link = bfdev_rb_parent(&T->root, &parent, &e->node, rbcmp, NULL, &left);
        SIM_CHECK((link == NULL) == (old != NULL), "rb:duplicate", "an insertion point for a stored key, or none for a new one");
        if (link) link_in(parent, link, e, left);
        return;
    }
    ok = mode ? bfdev_rb_cached_insert(T, &e->node, rbcmp, NULL) : bfdev_rb_insert(&T->root, &e->node, rbcmp, NULL);
    SIM_CHECK(ok == !old, "rb:duplicate", "insert of a %s key returned %d", old ? "stored" : "new", ok);
    if (ok) { e->in = 1; nin++; }
}

static void r_exec(const sim_trace *tr)
{
    R = sim_tmp(sizeof(*R) * MAXN); T = sim_tmp(sizeof(*T));
    nin = 0; nslots = 0; mode = (int)(tr->cfg[0] & 3); multi = tr->cfg[2] != 0;
    if (mode & 1) bfdev_rb_cache_init(T); else { bfdev_rb_init(&T->root); T->leftmost = (void *)0x77; }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        long k = (long)o->a[0];
        rbn *e;
        switch (o->kind) {
        case R_INS: ins(k, (long)(o->a[1] & 0xffff)); break;
        case R_DEL:
            if ((e = pick(o->a[2]))) { take_out(e, o->a[1] & 3 ? 0 : 1); e->in = 0; nin--; }
            break;
        case R_POPMIN:
            if (nin) { bfdev_rb_node_t *n = mode & 1 ? bfdev_rb_cached_first(T) : bfdev_rb_first(&T->root); e = bfdev_rb_entry(n, rbn, node); take_out(e, 0); e->in = 0; nin--; }
            break;
        case R_FIND: {
            bfdev_rb_node_t *n = mode & 1 ? bfdev_rb_cached_find(T, &k, rbfind) : bfdev_rb_find(&T->root, &k, rbfind);
            e = have(k);
            SIM_CHECK((n != NULL) == (e != NULL), "rb:find", "find(%ld) is %s", k, n ? "present" : "absent");
            if (n) SIM_CHECK(bfdev_rb_entry(n, rbn, node)->key == k && bfdev_rb_entry(n, rbn, node)->in, "rb:find", "find(%ld) returns another key", k);
            break;
        }
        case R_FINDLAST: {
            bfdev_rb_node_t *parent, **link, *n;
            bool left;
            n = mode & 1 ? bfdev_rb_cached_find_last(T, &k, rbfind, &parent, &link, &left) : bfdev_rb_find_last(&T->root, &k, rbfind, &parent, &link, &left);
            SIM_CHECK((n != NULL) == (have(k) != NULL), "rb:find", "find_last(%ld) is %s", k, n ? "present" : "absent");
            if (n) SIM_CHECK(bfdev_rb_entry(n, rbn, node)->key == k && *link == n, "rb:find", "find_last(%ld) returns another key or link", k);
            else if ((e = fresh(k, (long)(o->a[1] & 0xffff)))) link_in(parent, link, e, left);
            break;
        }
        case R_REPLACE:
            if ((e = pick(o->a[2]))) {
                rbn *nw = fresh(e->key, e->val);
                if (!nw) break;
                nw->max = e->max;
                if (mode & 1) bfdev_rb_cached_replace(T, &e->node, &nw->node);
                else bfdev_rb_replace(&T->root, &e->node, &nw->node);
                e->in = 0; nw->in = 1;
                memset(&e->node, 0xa5, sizeof(e->node));
            }
            break;
        case R_DEL2:
            if ((e = pick(o->a[2]))) {
                take_out(e, 0); e->in = 0; nin--;
                r_check();
#ifdef BFDEV_DEBUG_RBTREE
                sim_fault("client_double_delete");
                sim_alarms();
                take_out(e, 0);
                SIM_CHECK(sim_alarms(), "rb:unreported", "a second delete of a node was not reported");
#endif
            }
            break;
        case R_RELINK:
#ifdef BFDEV_DEBUG_RBTREE
            if ((e = pick(o->a[2])) && e->node.parent) {
                bfdev_rb_node_t *p = e->node.parent;
                sim_fault("client_double_link");
                sim_alarms();
                bfdev_rb_link(p, p->left == &e->node ? &p->left : &p->right, &e->node);
                SIM_CHECK(sim_alarms(), "rb:unreported", "linking a linked node again was not reported");
            }
#endif
            break;
        case R_WALK: {
            static bfdev_rb_node_t keep[MAXN];
            static rbn *want[MAXN];
            int order, start, n = 0;
            bool wipes;
            if (!(e = pick(o->a[2]))) {
                bfdev_rb_node_t *p;
                bfdev_rb_for_each(p, &T->root) SIM_CHECK(false, "rb:empty", "an empty tree has a first node");
                bfdev_rb_for_each_reverse(p, &T->root) SIM_CHECK(false, "rb:empty", "an empty tree has a last node");
                bfdev_rb_pre_for_each(p, &T->root) SIM_CHECK(false, "rb:empty", "an empty tree has a first node");
                bfdev_rb_post_for_each(p, &T->root) SIM_CHECK(false, "rb:empty", "an empty tree has a first node");
                break;
            }
            r_ends(&e->node);
            for (int j = 0; j < nslots; ++j) keep[j] = R[j].node;
            wform = (int)(o->a[1] % 40);
            if (wform < 0 || !r_walk(e, &order, &start, &wipes)) break;
            for (int j = 0; j < nslots; ++j) R[j].node = keep[j];
            r_list(T->root.node, order, want, &n);
            walked((void **)want, n, e, start, "rb:walk");
            if (wipes) sim_probe("walked_while_removing");
            break;
        }
        case R_POSTDEL: {
            bfdev_rb_node_t *pos, *tmp;
            long n = 0;
            bfdev_rb_post_for_each_safe(pos, tmp, &T->root) {
                e = bfdev_rb_entry(pos, rbn, node);
                SIM_CHECK(e->in, "rb:postorder", "safe postorder meets a node twice");
                e->in = 0; n++;
                memset(&e->node, 0xa5, sizeof(e->node));
            }
            SIM_CHECK(n == nin, "rb:postorder", "safe postorder meets %ld of %ld nodes", n, nin);
            nin = 0;
            bfdev_rb_cache_init(T);
            if (!(mode & 1)) T->leftmost = (void *)0x77;
            break;
        }
        }
        r_check();
        sim_state(sim_mix(sim_mix((uint64_t)nin, o->kind), (uint64_t)mode * 2 + multi));
    }
    while (nin) { rbn *e = bfdev_rb_entry(bfdev_rb_first(&T->root), rbn, node); take_out(e, 0); e->in = 0; nin--; if (nin % 7 == 0) r_check(); }
    r_check();
}
/* another tree, from inside a comparison */
static long nest_rbcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata) { (void)pdata; return keycmp(bfdev_rb_entry(a, rbn, node)->key, bfdev_rb_entry(b, rbn, node)->key); }
static void r_nest(void)
{
    bfdev_rb_root_t root = BFDEV_RB_INIT();
    static rbn c[12];
    rbn *e;
    long last = -1;
    int k = 0;
    memset(c, 0, sizeof(c));
    for (int i = 0; i < 12; ++i) { c[i].key = i * 5 % 12; bfdev_rb_insert(&root, &c[i].node, nest_rbcmp, NULL); }
    for (int i = 0; i < 12; i += 4) bfdev_rb_delete(&root, &c[i].node);
    bfdev_rb_for_each_entry(e, &root, node) { SIM_CHECK(e->key > last, "rb:nested", "a tree used from inside a comparison is out of order"); last = e->key; k++; }
    SIM_CHECK(k == 9, "rb:nested", "a tree used from inside a comparison holds %d of 9", k);
}
const sim_workload w_rbtree = { "H02", "rbtree", r_cfn, r_opn, r_gen, r_exec, 2000, r_nest };

/* -------------------------------------------------------------------- heap */
typedef struct { bfdev_heap_node_t node; long key; int in; unsigned mark; } hpn;
static hpn *Hn;
static bfdev_heap_root_t *HR;
static long hin;
static int hslots, hsign;
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata)
{
    SIM_CHECK(pdata == &hsign, "heap:pdata", "the comparison got a wrong private pointer");
    sim_nest();
    return hsign * keycmp(bfdev_heap_entry(a, hpn, node)->key, bfdev_heap_entry(b, hpn, node)->key);
}
enum { P_INS, P_DEL, P_POP, P_FIND, P_DEL2, P_POSTDEL, P_RELINK, P_WALK, P_N };
static const char *const p_opn[] = { "insert", "delete", "pop", "find", "delete-twice", "postorder-clear", "link-twice", "walk" };
static const char *const p_cfn[SIM_NCFG] = { "sign", "keyspace", "pattern" };
static void p_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[P_N] = { 24, 8, 8, 4, 2, 0, 1, 3 };
    int w[P_N], n = (int)sim_range(r, 5, tier ? 600 : 200);
    for (int i = 0; i < P_N; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == P_INS);
    if (!faults) w[P_DEL2] = w[P_RELINK] = 0;
    tr->ncfg = 3;
    tr->cfg[0] = sim_range(r, 0, 1);
    tr->cfg[1] = sim_range(r, 1, sim_chance(r, 1, 3) ? 6 : 300);
    tr->cfg[2] = sim_range(r, 0, 2);
    long seq = 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, P_N));
        if (sim_chance(r, 1, 150)) o->kind = P_POSTDEL;
        o->a[0] = tr->cfg[2] == 0 ? (int64_t)sim_below(r, (uint64_t)tr->cfg[1]) : (tr->cfg[2] == 1 ? seq++ : -seq++);
        o->a[1] = (int64_t)sim_below(r, MAXN);
        o->a[2] = sim_range(r, 0, 20);
    }
}
#define PE(p) bfdev_heap_entry(p, hpn, node)
static bool p_walk(hpn *s, unsigned long at, int *order, int *start, bool *wipes)
{
    const size_t wipe = sizeof(bfdev_heap_node_t);
    bfdev_heap_node_t *p = &s->node, *t;
    unsigned long i = at;
    hpn *e = s, *te;
    nwk = wcount = 0;
    W(IN, ALL, 0, bfdev_heap_for_each(p, &i, HR), PE(p))
    W(IN, FROM, 0, bfdev_heap_for_each_from(p, &i, HR), PE(p))
    W(IN, CONT, 0, bfdev_heap_for_each_continue(p, &i, HR), PE(p))
    W(IN, ALL, 0, bfdev_heap_for_each_entry(e, &i, HR, node), e)
    W(IN, FROM, 0, bfdev_heap_for_each_entry_from(e, &i, HR, node), e)
    W(IN, CONT, 0, bfdev_heap_for_each_entry_continue(e, &i, HR, node), e)
    W(POST, ALL, 0, bfdev_heap_post_for_each(p, HR), PE(p))
    W(POST, FROM, 0, bfdev_heap_post_for_each_from(p), PE(p))
    W(POST, CONT, 0, bfdev_heap_post_for_each_continue(p), PE(p))
    W(POST, ALL, 1, bfdev_heap_post_for_each_safe(p, t, HR), PE(p))
    W(POST, FROM, 1, bfdev_heap_post_for_each_safe_from(p, t), PE(p))
    W(POST, CONT, 1, bfdev_heap_post_for_each_safe_continue(p, t), PE(p))
    W(POST, ALL, 0, bfdev_heap_post_for_each_entry(e, HR, node), e)
    W(POST, FROM, 0, bfdev_heap_post_for_each_entry_from(e, node), e)
    W(POST, CONT, 0, bfdev_heap_post_for_each_entry_continue(e, node), e)
    W(POST, ALL, 1, bfdev_heap_post_for_each_entry_safe(e, te, HR, node), e)
    W(POST, FROM, 1, bfdev_heap_post_for_each_entry_from_safe(e, te, node), e)
    W(POST, CONT, 1, bfdev_heap_post_for_each_entry_continue_safe(e, te, node), e)
    return false;
}
static void p_list(bfdev_heap_node_t *n, hpn **out, int *k)
{
    if (!n) return;
    p_list(n->left, out, k); p_list(n->right, out, k);
    out[(*k)++] = PE(n);
}
static void p_ends(bfdev_heap_node_t *n)
{
    bfdev_heap_node_t *p;
    for (p = n; p->left; p = p->left);
    SIM_CHECK(bfdev_heap_left_far(n) == p, "heap:ends", "the leftmost node of a subtree is wrong");
    for (p = n; p->right; p = p->right);
    SIM_CHECK(bfdev_heap_right_far(n) == p, "heap:ends", "the rightmost node of a subtree is wrong");
    for (p = n; p->left || p->right; p = p->left ? p->left : p->right);
    SIM_CHECK(bfdev_heap_left_deep(n) == p, "heap:ends", "the first leaf of a subtree is wrong");
    for (p = n; p->left || p->right; p = p->right ? p->right : p->left);
    SIM_CHECK(bfdev_heap_right_deep(n) == p, "heap:ends", "the last leaf of a subtree is wrong");
}
static void p_check(void)
{
    bfdev_heap_node_t *pos;
    unsigned long idx;
    static bfdev_heap_node_t *lev[MAXN + 2];
    static unsigned stamp;
    long n = 0;
    SIM_CHECK((long)BFDEV_HEAP_ROOT_COUNT(HR) == hin, "heap:count", "count is %lu, expected %ld", HR->count, hin);
    SIM_CHECK(bfdev_heap_empty_root(HR) == !hin, "heap:empty", "emptiness is wrong with %ld nodes", hin);
    ++stamp;
    for (pos = bfdev_heap_first(HR, &idx); pos; pos = bfdev_heap_next(HR, &idx)) {
        hpn *e = bfdev_heap_entry(pos, hpn, node);
        SIM_CHECK(e >= Hn && e < Hn + hslots && e->in && e->mark != stamp, "heap:ghost", "the heap holds a node that was not inserted, or twice");
        SIM_CHECK(n < hin, "heap:extra", "level order meets more nodes than inserted");
        e->mark = stamp;
        lev[n++] = pos;
    }
    SIM_CHECK(n == hin, "heap:lost", "level order meets %ld nodes, expected %ld", n, hin);
    for (long i = 0; i < hin; ++i) {
        bfdev_heap_node_t *l = 2 * i + 1 < hin ? lev[2 * i + 1] : NULL, *r = 2 * i + 2 < hin ? lev[2 * i + 2] : NULL;
        SIM_CHECK(lev[i]->left == l && lev[i]->right == r, "heap:shape", "node %ld of %ld has a wrong child", i, hin);
        SIM_CHECK(lev[i]->parent == (i ? lev[(i - 1) / 2] : NULL), "heap:shape", "node %ld of %ld has a wrong parent", i, hin);
        if (i) SIM_CHECK(hsign * keycmp(bfdev_heap_entry(lev[(i - 1) / 2], hpn, node)->key, bfdev_heap_entry(lev[i], hpn, node)->key) <= 0, "heap:order", "node %ld is smaller than its parent", i);
    }
    for (unsigned long i = 0; i <= (unsigned long)hin + 3; ++i)
        SIM_CHECK(bfdev_heap_find(HR, i) == (i && i <= (unsigned long)hin ? lev[i - 1] : NULL), "heap:find", "find(%lu) of %ld nodes is wrong", i, hin);
    ++stamp; n = 0;
    bfdev_heap_post_for_each(pos, HR) {
        hpn *e = bfdev_heap_entry(pos, hpn, node);
        SIM_CHECK(e->mark != stamp && n++ < hin, "heap:postorder", "postorder meets a node twice");
        SIM_CHECK((!pos->left || bfdev_heap_entry(pos->left, hpn, node)->mark == stamp) && (!pos->right || bfdev_heap_entry(pos->right, hpn, node)->mark == stamp), "heap:postorder", "postorder meets a parent before a child");
        e->mark = stamp;
    }
    SIM_CHECK(n == hin, "heap:postorder", "postorder meets %ld of %ld nodes", n, hin);
}
static hpn *ppick(int64_t a) { int k = (int)(a % MAXN); if (k < 0) k = 0; for (int i = 0; i < hslots; ++i) { hpn *e = &Hn[(k + i) % hslots]; if (e->in) return e; } return NULL; }
static hpn *pfresh(long key)
{
    hpn *e = NULL;
    if (hslots < MAXN) { e = &Hn[hslots++]; e->mark = 0; }
    else for (int i = 0; i < MAXN && !e; ++i) if (!Hn[i].in) e = &Hn[i];
    if (!e) return NULL;
    memset(&e->node, 0x5a, sizeof(e->node));
    e->key = key; e->in = 0;
    return e;
}
static void p_exec(const sim_trace *tr)
{
    Hn = sim_tmp(sizeof(*Hn) * MAXN); HR = sim_tmp(sizeof(*HR));
    hin = 0; hslots = 0; hsign = tr->cfg[0] ? -1 : 1;
    bfdev_heap_init(HR);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        hpn *e;
        switch (o->kind) {
        case P_INS:
            if ((e = pfresh((long)o->a[0]))) { bfdev_heap_insert(HR, &e->node, hcmp, &hsign); e->in = 1; hin++; }
            break;
        case P_DEL: if ((e = ppick(o->a[1]))) { bfdev_heap_delete(HR, &e->node, hcmp, &hsign); e->in = 0; hin--; } break;
        case P_POP:
            if (hin) {
                e = bfdev_heap_entry(HR->node, hpn, node);
                for (int j = 0; j < hslots; ++j) if (Hn[j].in) SIM_CHECK(hsign * keycmp(e->key, Hn[j].key) <= 0, "heap:min", "the root is not the smallest node");
                bfdev_heap_delete(HR, &e->node, hcmp, &hsign); e->in = 0; hin--;
            }
            break;
        case P_FIND: break;     /* every check() looks every index up */
        case P_DEL2:
            if ((e = ppick(o->a[1]))) {
                bfdev_heap_delete(HR, &e->node, hcmp, &hsign); e->in = 0; hin--;
                p_check();
#ifdef BFDEV_DEBUG_HEAP
                sim_fault("client_double_delete");
                sim_alarms();
                bfdev_heap_delete(HR, &e->node, hcmp, &hsign);
                SIM_CHECK(sim_alarms(), "heap:unreported", "a second delete of a node was not reported");
#endif
            }
            break;
        case P_RELINK:
#ifdef BFDEV_DEBUG_HEAP
            if ((e = ppick(o->a[1])) && e->node.parent) {
                bfdev_heap_node_t *p = e->node.parent;
                sim_fault("client_double_link");
                sim_alarms();
                bfdev_heap_link(HR, p, p->left == &e->node ? &p->left : &p->right, &e->node);
                SIM_CHECK(sim_alarms(), "heap:unreported", "linking a linked node again was not reported");
            }
#endif
            break;
        case P_WALK: {
            static bfdev_heap_node_t keep[MAXN];
            static hpn *want[MAXN];
            unsigned long at = 0;
            int order, start, n = 0;
            bool wipes;
            if (!(e = ppick(o->a[1]))) break;
            p_ends(&e->node);
            while (bfdev_heap_find(HR, at + 1) != &e->node) ++at;
            for (int j = 0; j < hslots; ++j) keep[j] = Hn[j].node;
            wform = (int)(o->a[2] % 18);
            if (wform < 0 || !p_walk(e, at, &order, &start, &wipes)) break;
            for (int j = 0; j < hslots; ++j) Hn[j].node = keep[j];
            if (order == IN) for (; n < hin; ++n) want[n] = PE(bfdev_heap_find(HR, (unsigned long)n + 1));
            else p_list(HR->node, want, &n);
            walked((void **)want, n, e, start, "heap:walk");
            if (wipes) sim_probe("walked_while_removing");
            break;
        }
        case P_POSTDEL: {
            bfdev_heap_node_t *pos, *tmp;
            long n = 0;
            bfdev_heap_post_for_each_safe(pos, tmp, HR) {
                e = bfdev_heap_entry(pos, hpn, node);
                SIM_CHECK(e->in, "heap:postorder", "safe postorder meets a node twice");
                e->in = 0; n++;
                memset(&e->node, 0xa5, sizeof(e->node));
            }
            SIM_CHECK(n == hin, "heap:postorder", "safe postorder meets %ld of %ld nodes", n, hin);
            hin = 0;
            bfdev_heap_init(HR);
            break;
        }
        }
        p_check();
        sim_state(sim_mix((uint64_t)hin, o->kind * 2 + (hsign > 0)));
    }
    long last = 0; int first = 1;
    while (hin) {
        hpn *e = bfdev_heap_entry(HR->node, hpn, node);
        SIM_CHECK(first || hsign * keycmp(last, e->key) <= 0, "heap:drain", "draining does not come out sorted");
        first = 0; last = e->key;
        bfdev_heap_delete(HR, &e->node, hcmp, &hsign); e->in = 0; hin--;
        if (hin % 5 == 0) p_check();
    }
    p_check();
}
/* another heap, from inside a comparison */
static long nest_hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata) { (void)pdata; return keycmp(bfdev_heap_entry(a, hpn, node)->key, bfdev_heap_entry(b, hpn, node)->key); }
static void p_nest(void)
{
    bfdev_heap_root_t root = BFDEV_HEAP_INIT();
    static hpn c[9];
    long last = -1;
    memset(c, 0, sizeof(c));
    for (int i = 0; i < 9; ++i) { c[i].key = i * 4 % 9; bfdev_heap_insert(&root, &c[i].node, nest_hcmp, NULL); }
    bfdev_heap_delete(&root, &c[5].node, nest_hcmp, NULL);
    for (int i = 0; i < 8; ++i) {
        SIM_CHECK(root.node, "heap:nested", "a heap used from inside a comparison lost elements");
        hpn *e = bfdev_heap_entry(root.node, hpn, node);
        SIM_CHECK(e != &c[5] && e->key > last, "heap:nested", "a heap used from inside a comparison gives %ld after %ld", e->key, last);
        last = e->key;
        bfdev_heap_delete(&root, &e->node, nest_hcmp, NULL);
    }
    SIM_CHECK(!root.node, "heap:nested", "a heap used from inside a comparison keeps elements");
}
const sim_workload w_heap = { "H05", "heap", p_cfn, p_opn, p_gen, p_exec, 2000, p_nest };

/* ----------------------------------------------------------- interval tree */
typedef struct { int in; bfdev_segtree_node_t s; unsigned mark; } sgn;
/* a second instance of the template, over a signed type and another member order */
typedef struct { long hi, lo; long top; bfdev_rb_node_t rb; int id; } sg2;
#define S2(n) ((n)->lo)
#define E2(n) ((n)->hi)
BFDEV_SEGTREE_DEFINE(static, seg2, sg2, rb, long, top, S2, E2)

static bool seg_walk(bfdev_rb_root_cached_t *root, sgn *from, unsigned long lo, unsigned long hi, int *order, int *start, bool *wipes, size_t wipe)
{
    bfdev_segtree_node_t *p = &from->s;
    sgn *e = from;
    nwk = wcount = 0;
    W(IN, ALL, 0, bfdev_segtree_for_each(p, lo, hi, root), bfdev_segtree_entry(p, sgn, s))
    W(IN, FROM, 0, bfdev_segtree_for_each_form(p, lo, hi), bfdev_segtree_entry(p, sgn, s))
    W(IN, CONT, 0, bfdev_segtree_for_each_continue(p, lo, hi), bfdev_segtree_entry(p, sgn, s))
    W(IN, ALL, 0, bfdev_segtree_for_each_entry(e, lo, hi, root, s), e)
    W(IN, FROM, 0, bfdev_segtree_for_each_entry_from(e, lo, hi, s), e)
    W(IN, CONT, 0, bfdev_segtree_for_each_entry_continue(e, lo, hi, s), e)
    return false;
}
enum { G_INS, G_DEL, G_QUERY, G_DEL2, G_N };
static const char *const g_opn[] = { "insert", "delete", "query", "delete-twice" };
static const char *const g_cfn[SIM_NCFG] = { "span", "width", "base", "template" };
static void g_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[G_N] = { 16, 8, 6, 1 };
    int w[G_N], n = (int)sim_range(r, 5, tier ? 500 : 120);
    for (int i = 0; i < G_N; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == G_INS || i == G_QUERY);
    if (!faults) w[G_DEL2] = 0;
    tr->ncfg = 4;
    tr->cfg[0] = sim_range(r, 1, sim_chance(r, 1, 2) ? 20 : 1000);
    tr->cfg[1] = sim_range(r, 0, tr->cfg[0]);
    tr->cfg[2] = sim_range(r, 0, 4);
    tr->cfg[3] = sim_range(r, 0, 1);
    if (sim_chance(r, 1, 4)) tr->cfg[0] = 1001;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, G_N));
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        o->a[1] = (int64_t)sim_below(r, (uint64_t)tr->cfg[1] + 1);
        if (sim_chance(r, 1, 12)) o->a[1] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0] + 1);
        o->a[2] = (int64_t)sim_below(r, MAXN);
    }
}
/* where in the key type the values of a run lie (strictly increasing in v) */
static unsigned long g_at(int base, bool two, long v)
{
    switch (base) {
    case 0: return (unsigned long)v;
    case 1: return two ? (unsigned long)(v - 500) : (unsigned long)v + 5;
    case 2: return two ? (unsigned long)(v - 2000000000l) : ~0ul - 4000 + (unsigned long)v;
    case 3: return (two ? 0 : 1ul << 63) - 1000 + (unsigned long)v;    /* across the sign */
    default:                                                            /* the whole type, both ends included */
        return (v == 2000 ? ~0ul : v <= 1000 ? (unsigned long)v * (~0ul / 1100)
               : 1000 * (~0ul / 1100) + (unsigned long)(v - 1000) * (~0ul / 11001)) + (two ? 1ul << 63 : 0);
    }
}
static void g_exec(const sim_trace *tr)
{
    static sgn *N; static sg2 *M; static bfdev_rb_root_cached_t root, root2;
    static struct { long lo, hi; int in; unsigned mark; } iv[MAXN];
    int n = 0, in = 0, two = tr->cfg[3] != 0;
    int base = (int)((unsigned)tr->cfg[2] % 5);
#define AT(v) g_at(base, two, v)
    static unsigned stamp;
    N = sim_tmp(sizeof(*N) * MAXN); M = sim_tmp(sizeof(*M) * MAXN);
    memset(iv, 0, sizeof(iv)); stamp = 0;
    bfdev_rb_cache_init(&root); bfdev_rb_cache_init(&root2);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        if (o->a[0] < 0 || o->a[0] > 1000 || o->a[1] < 0 || o->a[1] > 1000) continue;
        int k = -1;
        for (int j = 0; j < n; ++j) { int c = (int)((o->a[2] + j) % n); if (c >= 0 && iv[c].in) { k = c; break; } }
        switch (o->kind) {
        case G_INS:
            if (n == MAXN) break;
            memset(&N[n], 0xc3, sizeof(N[n])); memset(&M[n], 0xc3, sizeof(M[n]));
            iv[n].lo = o->a[0]; iv[n].hi = o->a[0] + o->a[1]; iv[n].in = 1;
            if (two) { M[n].lo = (long)AT(iv[n].lo); M[n].hi = (long)AT(iv[n].hi); M[n].id = n; seg2_insert(&root2, &M[n]); }
            else { N[n].s.start = AT(iv[n].lo); N[n].s.end = AT(iv[n].hi); bfdev_segtree_insert(&root, &N[n].s); }
            n++; in++;
            break;
        case G_DEL2: case G_DEL:
            if (k < 0) break;
            if (two) seg2_delete(&root2, &M[k]); else bfdev_segtree_delete(&root, &N[k].s);
            iv[k].in = 0; in--;
#ifdef BFDEV_DEBUG_RBTREE
            if (o->kind == G_DEL2) {
                sim_fault("client_double_delete");
                if (two) seg2_delete(&root2, &M[k]); else bfdev_segtree_delete(&root, &N[k].s);
            }
#endif
            break;
        }
        /* one query per step (its own range), plus the whole range after every eighth */
        long qlo = o->a[0], qhi = o->a[0] + o->a[1];
        for (int round = 0; round < 2; ++round) {
            int hits = 0, want = 0;
            long last = -1;
            ++stamp;
            for (int j = 0; j < n; ++j) want += iv[j].in && iv[j].lo <= qhi && iv[j].hi >= qlo;
            if (two) {
                for (sg2 *p = seg2_first(&root2, (long)AT(qlo), (long)AT(qhi)); p; p = seg2_next(p, (long)AT(qlo), (long)AT(qhi))) {
                    int id = p->id;
                    SIM_CHECK(p >= M && p < M + n && iv[id].in && iv[id].mark != stamp, "segtree:ghost", "a query returns an interval that is not stored, or twice");
                    SIM_CHECK(iv[id].lo <= qhi && iv[id].hi >= qlo, "segtree:overlap", "[%ld,%ld] returned for [%ld,%ld]", iv[id].lo, iv[id].hi, qlo, qhi);
                    SIM_CHECK(iv[id].lo >= last, "segtree:order", "intervals come out of start order");
                    last = iv[id].lo; iv[id].mark = stamp; hits++;
                }
            } else {
                bfdev_segtree_node_t *p, *top = bfdev_segtree_entry_safe(root.root.node, bfdev_segtree_node_t, node);
                if (top && top->subtree >= AT(qlo))
                    SIM_CHECK(bfdev_segtree_search(top, AT(qlo), AT(qhi)) == bfdev_segtree_first(&root, AT(qlo), AT(qhi)), "segtree:search", "search from the top and first differ");
                bfdev_segtree_for_each(p, AT(qlo), AT(qhi), &root) {
                    int id = (int)(bfdev_segtree_entry(p, sgn, s) - N);
                    SIM_CHECK(bfdev_segtree_entry(p, sgn, s) >= N && id < n && iv[id].in && iv[id].mark != stamp, "segtree:ghost", "a query returns an interval that is not stored, or twice");
                    SIM_CHECK(iv[id].lo <= qhi && iv[id].hi >= qlo, "segtree:overlap", "[%ld,%ld] returned for [%ld,%ld]", iv[id].lo, iv[id].hi, qlo, qhi);
                    SIM_CHECK(iv[id].lo >= last, "segtree:order", "intervals come out of start order");
                    last = iv[id].lo; iv[id].mark = stamp; hits++;
                }
            }
            /* the other iteration forms, from the first hit and from a later one */
            if (!two && want) {
                const size_t wipe = 0;
                unsigned long lo = AT(qlo), hi = AT(qhi);
                static void *all[MAXN];
                int na = 0, order_, *order = &order_, start_, *start = &start_;
                bool wipes_, *wipes = &wipes_;
                for (bfdev_segtree_node_t *q = bfdev_segtree_first(&root, lo, hi); q && na < MAXN; q = bfdev_segtree_next(q, lo, hi)) all[na++] = bfdev_segtree_entry(q, sgn, s);
                sgn *from = all[(unsigned)o->a[2] % (unsigned)na];
                for (wform = 0; wform < 6; ++wform) {
                    seg_walk(&root, from, lo, hi, order, start, wipes, wipe);
                    walked(all, na, from, *start, "segtree:walk");
                }
            }
            SIM_CHECK(hits == want, "segtree:missed", "query [%ld,%ld] returns %d of %d intervals", qlo, qhi, hits, want);
            if (want > 1 && want < in) sim_probe("query_hits_some");
            if (!want && in) sim_probe("query_hits_none");
            if (i % 3) { qlo = qhi; } else { qlo = 0; qhi = 2000; }
        }
        sim_state(sim_mix((uint64_t)in, o->kind * 2 + (unsigned)two));
    }
}
#undef AT
const sim_workload w_segtree = { "H04", "segtree", g_cfn, g_opn, g_gen, g_exec, 2000 };
