/*
 * H06: corrupted links and misuse are caught before they spread.  A structure is
 * built by valid calls (which must report nothing); then a fault: a caller that
 * deletes, links or frees what it must not, or links in memory redirected to a
 * wrong element.  The next call on it has to report that and change no byte.
 */
#include "sim.h"
#include <bfdev/list.h>
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/ilist.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/memalloc.h>
#include <bfdev/refcount.h>
#include <limits.h>

enum { ADD, DEL, MISUSE, CORRUPT, NOPS_ };
static const char *const opn[] = { "add", "del", "misuse", "corrupt" };
static const char *const cfn[SIM_NCFG] = { "structure" };

#define NN 24
enum { OUT, IN, GONE };        /* GONE: was deleted, not linked since */
static int st[NN], nin;
typedef struct { bfdev_list_head_t l; } lnode;
static struct image {
    bfdev_list_head_t lh, l[NN];
    bfdev_hlist_head_t hh; bfdev_hlist_node_t h[NN];
    bfdev_slist_head_t sh, s[NN];
    bfdev_ilist_head_t ih; struct { bfdev_ilist_node_t n; int key; } i[NN];
    bfdev_rb_root_cached_t rr; struct { bfdev_rb_node_t n; int key; } r[NN];
    bfdev_heap_root_t pr; struct { bfdev_heap_node_t n; int key; } p[NN];
    bfdev_memalloc_head_t mh; unsigned char arena[4096] __attribute__((aligned(16)));
    bfdev_refcnt_t ref;
} im, before;
static void *blk[NN]; static size_t blen[NN];

static int pick(int64_t a, int state)
{
    int k = (int)((uint64_t)a % NN);
    for (int i = 0; i < NN; ++i) if (st[(k + i) % NN] == state) return (k + i) % NN;
    return -1;
}
static void snap(void) { before = im; (void)sim_alarms(); }
static void refused(const char *what)
{
    unsigned n = sim_alarms();
    SIM_CHECK(n, "debug:unreported", "%s was not reported", what);
    SIM_CHECK(!memcmp(&before, &im, sizeof(im)), "debug:spread", "%s was reported but carried out all the same", what);
}
static void accepted(const char *what) { SIM_CHECK(!sim_alarms(), "debug:false-report", "%s on a sound structure was reported as an error", what); }
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pd)
{
    (void)pd;
    return (long)*(const int *)(a + 1) - *(const int *)(b + 1);
}
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd)
{
    (void)pd;
    return *(const int *)(a + 1) < *(const int *)(b + 1) ? -1 : 1;
}
static long pcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd)
{
    (void)pd;
    return (long)*(const int *)(a + 1) - *(const int *)(b + 1);
}
static void aug_rotate(bfdev_rb_node_t *n, bfdev_rb_node_t *m) { (void)n; (void)m; }
static void aug_copy(bfdev_rb_node_t *n, bfdev_rb_node_t *m) { (void)n; (void)m; }
static void aug_propagate(bfdev_rb_node_t *n, bfdev_rb_node_t *m) { (void)n; (void)m; }
static const bfdev_rb_callbacks_t aug = { .rotate = aug_rotate, .copy = aug_copy, .propagate = aug_propagate };
static void rb_delete(int how, bfdev_rb_node_t *n)
{
    /* which form of delete makes no difference, but the plain ones must not leave the first element remembered */
    bfdev_rb_node_t *first = im.rr.leftmost;
    if (how & 2 && first == n) im.rr.leftmost = bfdev_rb_next(n);
    switch (how & 3) {
    case 0: bfdev_rb_cached_delete(&im.rr, n); break;
    case 1: bfdev_rb_cached_delete_augmented(&im.rr, n, &aug); break;
    case 2: bfdev_rb_delete(&im.rr.root, n); break;
    case 3: bfdev_rb_delete_augmented(&im.rr.root, n, &aug); break;
    }
}
/* a wild write over some, never all, of the marks a deleted element carries */
static void scribble(void *words, int n, uint64_t mask, void *other)
{
    void **w = words;
    mask &= (1u << n) - 1;
    if (mask == (1u << n) - 1) mask = 0;
    if (mask) sim_fault("deleted_element_overwritten");
    for (int i = 0; i < n; ++i) if (mask >> i & 1) w[i] = other;
}

enum { LIST, HLIST, SLIST, ILIST, RB, HEAP, MEM, REF, NSTRUCT };
static const char *const sname[] = { "list", "hlist", "slist", "ilist", "rbtree", "heap", "memalloc", "refcnt" };

static void add(int s, int id, const sim_op *o)
{
    int at = pick(o->a[1], IN);
    bool prev = o->a[2] & 1;
    switch (s) {
    case LIST: { bfdev_list_head_t *p = at < 0 || !(o->a[1] & 3) ? &im.lh : &im.l[at]; if (prev) bfdev_list_add_prev(p, &im.l[id]); else bfdev_list_add(p, &im.l[id]); break; }
    case HLIST: if (at < 0 || !(o->a[1] & 3)) bfdev_hlist_head_add(&im.hh, &im.h[id]); else if (prev) bfdev_hlist_prev_add(&im.h[at], &im.h[id]); else bfdev_hlist_next_add(&im.h[at], &im.h[id]); break;
    case SLIST: bfdev_slist_add(at < 0 ? &im.sh : &im.s[at], &im.s[id]); break;
    case ILIST: bfdev_ilist_node_init(&im.i[id].n); im.i[id].key = (int)(o->a[2] & 7); bfdev_ilist_add(&im.ih, &im.i[id].n, icmp, NULL); break;
    case RB: im.r[id].key = (int)(o->a[2] & 15); SIM_CHECK(o->a[2] & 16 ? bfdev_rb_cached_insert(&im.rr, &im.r[id].n, rcmp, NULL) : bfdev_rb_cached_insert_augmented(&im.rr, &im.r[id].n, rcmp, NULL, &aug), "debug:refused", "a valid insert was refused"); break;
    case HEAP: im.p[id].key = (int)(o->a[2] & 15); bfdev_heap_insert(&im.pr, &im.p[id].n, pcmp, NULL); break;
    case MEM:
        blen[id] = (size_t)(o->a[2] % 300) + 1;
        blk[id] = bfdev_memalloc_alloc(&im.mh, blen[id]);
        /* what was freed before may be in use again */
        for (int i = 0; i < NN; ++i) if (st[i] == GONE) st[i] = OUT;
        if (!blk[id]) { accepted("alloc"); return; }
        memset(blk[id], id, blen[id]);
        break;
    }
    accepted("add");
    st[id] = IN; nin++;
}
static void del(int s, int id, int64_t x)
{
    switch (s) {
    case LIST: bfdev_list_del(&im.l[id]); break;
    case HLIST: bfdev_hlist_del(&im.h[id]); break;
    case SLIST: bfdev_slist_del(&im.sh, &im.s[id]); break;
    case ILIST: bfdev_ilist_del(&im.ih, &im.i[id].n); break;
    case RB: rb_delete((int)(x & 3), &im.r[id].n); break;
    case HEAP: bfdev_heap_delete(&im.pr, &im.p[id].n, pcmp, NULL); break;
    case MEM: for (size_t i = 0; i < blen[id]; ++i) SIM_CHECK(((unsigned char *)blk[id])[i] == id, "debug:content", "a block changed"); bfdev_memalloc_free(&im.mh, blk[id]); break;
    }
    accepted("del");
    st[id] = GONE; nin--;
}

/* a second delete of an element; whatever it still points to */
static void misuse(int s, const sim_op *o)
{
    int gone = pick(o->a[1], GONE), in = pick(o->a[1], IN);
    uint64_t x = (uint64_t)o->a[2], mask = x / 8;
    bool twice = !(x & 1);
    if (s != REF && twice ? gone < 0 : in < 0) return;
    if (twice) sim_fault("client_deletes_twice"); else sim_fault("client_links_twice");
    switch (s) {
    case LIST:
        if (twice) { scribble(&im.l[gone], 2, mask, &im.lh); snap(); bfdev_list_del(&im.l[gone]); refused("a second delete"); break; }
        snap();
        switch (x / 2 & 3) {
        case 0: bfdev_list_add(&im.l[in], &im.l[in]); break;
        case 1: bfdev_list_add_prev(&im.l[in], &im.l[in]); break;
        case 2: bfdev_list_add(im.l[in].prev, &im.l[in]); break;
        case 3: bfdev_list_add_prev(im.l[in].next, &im.l[in]); break;
        }
        refused("an add next to itself");
        break;
    case HLIST:
        if (twice) { scribble(&im.h[gone], 2, mask, &im.h[(gone + 1) % NN]); snap(); bfdev_hlist_del(&im.h[gone]); refused("a second delete"); break; }
        snap();
        if (&im.hh.node == im.h[in].pprev) bfdev_hlist_head_add(&im.hh, &im.h[in]);
        else if (im.h[in].next && x & 2) bfdev_hlist_prev_add(im.h[in].next, &im.h[in]);
        else bfdev_hlist_next_add(bfdev_container_of(im.h[in].pprev, bfdev_hlist_node_t, next), &im.h[in]);
        refused("an add where the element is");
        break;
    case SLIST: {
        bfdev_slist_head_t *w = &im.sh;
        if (twice) { snap(); bfdev_slist_del(&im.sh, &im.s[gone]); refused("a second delete"); break; }
        snap();
        if (x & 2) w = &im.s[in]; else while (w->next != &im.s[in]) w = w->next;
        bfdev_slist_add(w, &im.s[in]);
        refused("an add where the element is");
        break;
    }
    case ILIST:            /* calls that change nothing, and are no error */
        snap();
        if (twice) bfdev_ilist_del(&im.ih, &im.i[gone].n); else { if (nin < 2) return; bfdev_ilist_add(&im.ih, &im.i[in].n, icmp, NULL); }
        SIM_CHECK(!memcmp(&before, &im, sizeof(im)), "debug:spread", "a repeated call on an index list changed it");
        accepted("a repeated call");
        break;
    case RB:
        if (twice) {
            scribble(&im.r[gone].n.parent, 3, mask, &im.r[(gone + 1) % NN].n);
            snap();
            rb_delete((int)(x >> 1 & 3), &im.r[gone].n);
            refused("a second delete");
            break;
        }
        snap();
        { bfdev_rb_node_t *n = &im.r[in].n, *p = n->parent; bfdev_rb_link(p, !p ? &im.rr.root.node : p->left == n ? &p->left : &p->right, n); }
        refused("a second link");
        break;
    case HEAP:
        if (twice) { scribble(&im.p[gone].n.parent, 3, mask, &im.p[(gone + 1) % NN].n); snap(); bfdev_heap_delete(&im.pr, &im.p[gone].n, pcmp, NULL); refused("a second delete"); break; }
        snap();
        { bfdev_heap_node_t *n = &im.p[in].n, *p = n->parent; bfdev_heap_link(&im.pr, p, !p ? &im.pr.node : p->left == n ? &p->left : &p->right, n); }
        refused("a second link");
        break;
    case MEM:
        if (gone < 0) break;
        snap();
        if (x & 2) SIM_CHECK(!bfdev_memalloc_realloc(&im.mh, blk[gone], (size_t)(x & 511)), "debug:spread", "a freed block could be resized");
        else bfdev_memalloc_free(&im.mh, blk[gone]);
        refused("a second free");
        break;
    }
}

/* a link of an element in the structure points to another element than it should */
static void corrupt(int s, const sim_op *o)
{
    int in = pick(o->a[1], IN), other = pick(o->a[2], IN), out = pick(o->a[0], OUT);
    uint64_t x = (uint64_t)o->a[3];
    struct image sound;
    if (out < 0) out = pick(o->a[0], GONE);
    if (in < 0 || other < 0 || out < 0) return;
    snap();
    sound = im;
    if (s == LIST) {
        bfdev_list_head_t *pos = &im.l[in], *wrong = &im.l[other];
        if (x & 1) { if (pos->next == wrong) return; pos->next = wrong; } else { if (pos->prev == wrong) return; pos->prev = wrong; }
        sim_fault("link_redirected");
        snap();
        if (x & 1) bfdev_list_add(pos, &im.l[out]); else bfdev_list_add_prev(pos, &im.l[out]);
        refused("an insert at a corrupted link");
    } else if (s == ILIST) {
        bfdev_ilist_node_t *pos = &im.i[in].n, *wrong = &im.i[other].n;
        bfdev_list_head_t *p = &pos->node_list, *w = &wrong->node_list;
        if (x & 2) { p = &pos->index_list; w = &wrong->index_list; if (p->next == p || w->next == w) return; }
        if (x & 1) { if (p->next == w) return; p->next = w; } else { if (p->prev == w) return; p->prev = w; }
        sim_fault(x & 2 ? "index_redirected" : "link_redirected");
        bfdev_ilist_node_init(&im.i[out].n);
        snap();
        if (x & 4) { bfdev_ilist_add(&im.ih, &im.i[out].n, icmp, NULL); refused("an add to a corrupted list"); }
        else { bfdev_ilist_del(&im.ih, &im.i[in].n); refused("a delete from a corrupted list"); }
        sound.i[out].n = im.i[out].n;
        if (st[out] == GONE) st[out] = OUT;
    }
    im = sound;
}

/* reference counts: misuse does what the arithmetic says, and is reported exactly then */
static void count(const sim_op *o)
{
    static const bfdev_atomic_t vals[] = { 0, 1, 2, 3, 100, INTPTR_MAX, INTPTR_MAX - 1, -1, -5, INTPTR_MIN + 10 };
    static const bfdev_atomic_t steps[] = { 1, 2, 5, INTPTR_MAX };
    bfdev_atomic_t v = vals[(uint64_t)o->a[1] % 10], n = steps[(uint64_t)o->a[2] % 4], old = 77, want;
    int op = (int)((uint64_t)o->a[3] % 16);
    bool one = op % 2 == 0, wrong, t = false, tested = false, fetched = false;
    if (one) n = 1;
    bfdev_refcnt_set(&im.ref, v);
    (void)sim_alarms();
    if (op < 6) { want = (bfdev_atomic_t)((uintptr_t)v + (uintptr_t)n); wrong = v <= 0 || want < 0; }
    else if (op < 12) { want = (bfdev_atomic_t)((uintptr_t)v - (uintptr_t)n); wrong = v != n && (v <= 0 || want < 0); }
    else { want = v ? (bfdev_atomic_t)((uintptr_t)v + (uintptr_t)n) : 0; wrong = v && (v < 0 || want < 0); }
    switch (op) {
    case 0: bfdev_refcnt_inc(&im.ref); break;
    case 2: n = 1; bfdev_refcnt_fetch_add(&im.ref, 1, o->a[1] & 16 ? &old : NULL); fetched = o->a[1] & 16; break;
    case 4: bfdev_refcnt_fetch_inc(&im.ref, &old); fetched = true; break;
    case 1: case 3: case 5: bfdev_refcnt_add(&im.ref, n); break;
    case 6: if (o->a[1] & 16) bfdev_refcnt_dec(&im.ref); else { t = bfdev_refcnt_dec_test(&im.ref); tested = true; } break;
    case 7: if (o->a[1] & 16) bfdev_refcnt_sub(&im.ref, n); else { t = bfdev_refcnt_sub_test(&im.ref, n); tested = true; } break;
    case 8: bfdev_refcnt_fetch_dec(&im.ref, &old); fetched = true; break;
    case 9: bfdev_refcnt_fetch_sub(&im.ref, n, &old); fetched = true; break;
    case 11: t = bfdev_refcnt_fetch_sub_test(&im.ref, n, o->a[1] & 16 ? &old : NULL); tested = true; fetched = o->a[1] & 16; break;
    case 10: t = bfdev_refcnt_fetch_dec_test(&im.ref, &old); tested = fetched = true; break;
    case 12: if (o->a[1] & 16) bfdev_refcnt_incnz(&im.ref); else { t = bfdev_refcnt_incnz_test(&im.ref); tested = true; } break;
    case 13: if (o->a[1] & 16) bfdev_refcnt_addnz(&im.ref, n); else { t = bfdev_refcnt_addnz_test(&im.ref, n); tested = true; } break;
    case 14: if (o->a[1] & 16) bfdev_refcnt_fetch_incnz(&im.ref, &old); else { t = bfdev_refcnt_fetch_incnz_test(&im.ref, &old); tested = true; } fetched = true; break;
    case 15: if (o->a[1] & 16) bfdev_refcnt_fetch_addnz(&im.ref, n, &old); else { t = bfdev_refcnt_fetch_addnz_test(&im.ref, n, &old); tested = true; } fetched = true; break;
    }
    unsigned told = sim_alarms();
    if (wrong) sim_fault("count_misused");
    SIM_CHECK(bfdev_refcnt_get(&im.ref) == want, "debug:count", "operation %d with %ld takes the count from %ld to %ld", op, (long)n, (long)v, (long)bfdev_refcnt_get(&im.ref));
    SIM_CHECK(!fetched || old == v, "debug:count", "the previous count is said to be %ld, was %ld", (long)old, (long)v);
    SIM_CHECK(!tested || t == (op < 12 ? !want : !v), "debug:count", "operation %d at %ld with %ld answers %d", op, (long)v, (long)n, t);
    SIM_CHECK((told > 0) == wrong, wrong ? "debug:unreported" : "debug:false-report", "operation %d with %ld at a count of %ld was%s reported", op, (long)n, (long)v, told ? "" : " not");
    sim_state(sim_mix((uint64_t)op * 64 + (uint64_t)wrong, sim_mix((uint64_t)v, (uint64_t)n)));
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int n = (int)sim_range(r, 5, tier ? 160 : 60), w[NOPS_] = { 10, (int)sim_range(r, 3, 9), faults ? 4 : 0, faults ? 3 : 0 };
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 0, NSTRUCT - 1);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, NN - 1);
        o->a[1] = sim_range(r, 0, 31);
        o->a[2] = sim_range(r, 0, 1 << 12);
        o->a[3] = sim_range(r, 0, 255);
    }
}
static void exec(const sim_trace *tr)
{
    int s = (int)((uint64_t)tr->cfg[0] % NSTRUCT);
    memset(&im, 0x5a, sizeof(im));
    memset(st, 0, sizeof(st));
    nin = 0;
    bfdev_list_head_init(&im.lh); bfdev_hlist_head_init(&im.hh); bfdev_slist_head_init(&im.sh); bfdev_ilist_head_init(&im.ih);
    { BFDEV_RB_ROOT_CACHED(r0); BFDEV_HEAP_ROOT(h0); im.rr = r0; im.pr = h0; }
    bfdev_memalloc_init(&im.mh, bfdev_memalloc_first_fit, im.arena, sizeof(im.arena));
    (void)sim_alarms();
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int id;
        if (s == REF) { count(o); continue; }
        switch (o->kind) {
        case ADD: id = pick(o->a[0], OUT); if (id < 0) id = pick(o->a[0], GONE); if (id >= 0) add(s, id, o); break;
        case DEL: if ((id = pick(o->a[0], IN)) >= 0) del(s, id, o->a[1]); break;
        case MISUSE: { struct image sound = im; misuse(s, o); im = sound; break; }
        case CORRUPT: corrupt(s, o); break;
        }
        /* the structure still holds what it should */
        int n = 0;
        switch (s) {
        case LIST: { bfdev_list_head_t *p; bfdev_list_for_each(p, &im.lh) { SIM_CHECK(p >= im.l && p < im.l + NN && st[p - im.l] == IN && p->next->prev == p && n++ < nin, "debug:damaged", "the list is damaged"); } break; }
        case HLIST: { bfdev_hlist_node_t *p; bfdev_hlist_for_each(p, &im.hh) { SIM_CHECK(p >= im.h && p < im.h + NN && st[p - im.h] == IN && *p->pprev == p && n++ < nin, "debug:damaged", "the list is damaged"); } break; }
        case SLIST: { bfdev_slist_head_t *p; bfdev_slist_for_each(p, &im.sh) { SIM_CHECK(p >= im.s && p < im.s + NN && st[p - im.s] == IN && n++ < nin, "debug:damaged", "the list is damaged"); } break; }
        case ILIST: { bfdev_list_head_t *p; for (p = im.ih.node_list.next; p != &im.ih.node_list; p = p->next) SIM_CHECK(n++ < nin, "debug:damaged", "the list is damaged"); break; }
        case RB: { bfdev_rb_node_t *p; bfdev_rb_cached_for_each(p, &im.rr) SIM_CHECK(n++ < nin, "debug:damaged", "the tree is damaged"); break; }
        case HEAP: { bfdev_heap_node_t *p; unsigned long ix; bfdev_heap_for_each(p, &ix, &im.pr) SIM_CHECK(n++ < nin, "debug:damaged", "the heap is damaged"); SIM_CHECK(im.pr.count == (unsigned long)nin, "debug:damaged", "the heap counts %lu of %d", im.pr.count, nin); break; }
        case MEM: n = nin; break;
        }
        SIM_CHECK(n == nin, "debug:damaged", "the %s holds %d of %d elements", sname[s], n, nin);
        sim_state(sim_mix((uint64_t)s * 32 + (uint64_t)nin, (uint64_t)o->kind));
    }
    if (s == MEM) for (int i = 0; i < NN; ++i) if (st[i] == IN) del(s, i, 0);
}
const sim_workload w_debug = { "H06", "debug", cfn, opn, gen, exec, 1 };
