/*
 * H01: linked lists (doubly linked, hash, singly linked, hash table of lists)
 * and the list sort against plain sequences; H03: index list against a sorted
 * sequence.  Faults are the client errors the debug build promises to contain:
 * deleting a node twice, adding a node next to itself, inserting between
 * non-neighbours.
 */
#include "sim.h"
#include <bfdev/list.h>
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/hashtbl.h>
#include <bfdev/ilist.h>

#define NN 96
#define NH 3
static int seq[NH][NN], len[NH];
static int where[NN];          /* list, -1 detached */
static int kept;

static int at(int h, int id) { for (int i = 0; i < len[h]; ++i) if (seq[h][i] == id) return i; return -1; }
static void put(int h, int i, int id)
{
    memmove(&seq[h][i + 1], &seq[h][i], sizeof(int) * (size_t)(len[h] - i));
    seq[h][i] = id; len[h]++; where[id] = h;
}
static void drop(int id)
{
    int h = where[id], i = at(h, id);
    memmove(&seq[h][i], &seq[h][i + 1], sizeof(int) * (size_t)(len[h] - i - 1));
    len[h]--; where[id] = -1;
}
static int pickin(int64_t a, int linked)
{
    int k = (int)(a % NN);
    if (k < 0) k = 0;
    for (int i = 0; i < NN; ++i) { int id = (k + i) % NN; if ((where[id] >= 0) == linked) return id; }
    return -1;
}
static int hd(int64_t a) { int h = (int)(a % NH); return h < 0 ? 0 : h; }

/*
 * Every iteration form is run from a chosen element and compared, step by step,
 * with the part of the sequence it promises to visit; the forms that promise
 * it have chosen elements removed and overwritten while they run.
 */
enum { FWD, REV };
enum { ALL, FROM, CONT };
static int wform, wcount, wh, wm, wi, wmask, wn, wexp[NN];
static void (*wgone)(int id);
static void wbegin(int order, int start)
{
    int lo = start == ALL ? (order ? len[wh] - 1 : 0) : start == FROM ? wm : order ? wm - 1 : wm + 1;
    wi = wn = 0;
    for (int j = lo; order ? j >= 0 : j < len[wh]; j += order ? -1 : 1) wexp[wn++] = seq[wh][j];
}
static void wsee(int id, int safe)
{
    SIM_CHECK(wi < wn && wexp[wi] == id, "list:walk", "iteration form %d meets element %d at step %d of %d, expected %d", wform, id, wi, wn, wi < wn ? wexp[wi] : -1);
    if (safe && (wmask >> (wi % 7)) & 1) { sim_probe("removed_while_walking"); wgone(id); drop(id); }
    wi++;
}
#define V(ord, st, safe, loop, ident) if (wform == wcount++) { wbegin(ord, st); loop wsee(ident, safe); \
    SIM_CHECK(wi == wn, "list:walk", "iteration form %d stops after %d of %d elements", wform, wi, wn); return; }
#define V12(P, R, ord, H, M, base, toid) \
    V(ord, ALL, 0, bfdev_##P##_for_each##R(p, H), toid(p)) \
    V(ord, ALL, 1, bfdev_##P##_for_each##R##_safe(p, t, H), toid(p)) \
    V(ord, FROM, 0, bfdev_##P##_for_each##R##_from(p, H), toid(p)) \
    V(ord, FROM, 1, bfdev_##P##_for_each##R##_from_safe(p, t, H), toid(p)) \
    V(ord, CONT, 0, bfdev_##P##_for_each##R##_continue(p, H), toid(p)) \
    V(ord, CONT, 1, bfdev_##P##_for_each##R##_continue_safe(p, t, H), toid(p)) \
    V(ord, ALL, 0, bfdev_##P##_for_each_entry##R(e, H, M), (int)(e - base)) \
    V(ord, ALL, 1, bfdev_##P##_for_each_entry##R##_safe(e, f, H, M), (int)(e - base)) \
    V(ord, FROM, 0, bfdev_##P##_for_each_entry##R##_from(e, H, M), (int)(e - base)) \
    V(ord, FROM, 1, bfdev_##P##_for_each_entry##R##_from_safe(e, f, H, M), (int)(e - base)) \
    V(ord, CONT, 0, bfdev_##P##_for_each_entry##R##_continue(e, H, M), (int)(e - base)) \
    V(ord, CONT, 1, bfdev_##P##_for_each_entry##R##_continue_safe(e, f, H, M), (int)(e - base))
/* singly linked families take no head after the start */
#define V12S(P, H, M, base, toid) \
    V(FWD, ALL, 0, bfdev_##P##_for_each(p, H), toid(p)) \
    V(FWD, ALL, 1, bfdev_##P##_for_each_safe(p, t, H), toid(p)) \
    V(FWD, FROM, 0, bfdev_##P##_for_each_from(p), toid(p)) \
    V(FWD, FROM, 1, bfdev_##P##_for_each_from_safe(p, t), toid(p)) \
    V(FWD, CONT, 0, bfdev_##P##_for_each_continue(p), toid(p)) \
    V(FWD, CONT, 1, bfdev_##P##_for_each_continue_safe(p, t), toid(p)) \
    V(FWD, ALL, 0, bfdev_##P##_for_each_entry(e, H, M), (int)(e - base)) \
    V(FWD, ALL, 1, bfdev_##P##_for_each_entry_safe(e, f, H, M), (int)(e - base)) \
    V(FWD, FROM, 0, bfdev_##P##_for_each_entry_from(e, M), (int)(e - base)) \
    V(FWD, FROM, 1, bfdev_##P##_for_each_entry_from_safe(e, f, M), (int)(e - base)) \
    V(FWD, CONT, 0, bfdev_##P##_for_each_entry_continue(e, M), (int)(e - base)) \
    V(FWD, CONT, 1, bfdev_##P##_for_each_entry_continue_safe(e, f, M), (int)(e - base))
/* pick list, element, form and removals from the operation */
static bool wpick(const sim_op *o, int forms)
{
    wh = hd(o->a[2]); wmask = (int)(o->a[4] & 127);
    wform = (int)((uint64_t)(o->a[3] * 31 + o->a[4] + o->a[1] * 7) % (uint64_t)forms); wcount = 0;
    wm = len[wh] ? (int)((uint64_t)o->a[0] % (uint64_t)len[wh]) : 0;
    return len[wh] > 0;
}

/* ------------------------------------------------------------ doubly linked */
typedef struct { long pad; bfdev_list_head_t l; int id; long key; } ln;
static ln *L;
static bfdev_list_head_t *LH;

enum { L_ADD, L_ADDP, L_DEL, L_DELI, L_MOVE, L_MOVEP, L_SPLICE, L_SPLICET, L_REPL, L_REPLI, L_SWAP, L_SORT, L_WALK, L_DEL2, L_ADD2, L_STALE, L_N };
static const char *const l_opn[] = { "add", "add-prev", "del", "del-init", "move", "move-prev", "splice", "splice-tail", "replace", "replace-init", "swap", "sort", "walk", "delete-twice", "add-twice", "insert-between-strangers" };
static const char *const l_cfn[SIM_NCFG] = { "keyspace" };
static void mix_gen(sim_rng *r, sim_trace *tr, int faults, int tier, const int *base, int nk, int firstfault)
{
    int w[32], n = (int)sim_range(r, 5, tier ? 400 : 120);
    for (int i = 0; i < nk; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == 0);
    if (!faults) for (int i = firstfault; i < nk; ++i) w[i] = 0;
    tr->ncfg = 2;
    tr->cfg[0] = sim_range(r, 1, sim_chance(r, 1, 2) ? 5 : 1000);
    tr->cfg[1] = sim_range(r, 0, 1000);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, nk));
        o->a[0] = (int64_t)sim_below(r, NN);
        o->a[1] = (int64_t)sim_below(r, NN);
        o->a[2] = (int64_t)sim_below(r, NH);
        o->a[3] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        o->a[4] = (int64_t)sim_below(r, 256);
    }
}
static void l_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[L_N] = { 20, 20, 6, 6, 6, 6, 2, 2, 4, 4, 6, 3, 4, 2, 2, 2 };
    mix_gen(r, tr, faults, tier, base, L_N, L_DEL2);
}
static long lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pdata)
{
    SIM_CHECK(pdata == &kept, "list:pdata", "the comparison got a wrong private pointer");
    sim_nest();
    return bfdev_list_entry(a, ln, l)->key - bfdev_list_entry(b, ln, l)->key;
}
static void l_check(void)
{
    for (int h = 0; h < NH; ++h) {
        ln *e; bfdev_list_head_t *p;
        int i = 0;
        SIM_CHECK(bfdev_list_check_empty(&LH[h]) == !len[h], "list:empty", "emptiness of a list of %d is wrong", len[h]);
        bfdev_list_for_each_entry(e, &LH[h], l) {
            SIM_CHECK(i < len[h] && e == &L[seq[h][i]], "list:order", "element %d of %d is not the expected one", i, len[h]);
            SIM_CHECK(bfdev_list_check_first(&LH[h], &e->l) == (i == 0) && bfdev_list_check_end(&LH[h], &e->l) == (i == len[h] - 1) &&
                bfdev_list_check_another(&LH[h], &e->l) == (len[h] == 1) && !bfdev_list_check_head(&LH[h], &e->l), "list:query", "a position query on element %d of %d is wrong", i, len[h]);
            ln *nx = bfdev_list_next_entry_or_null(e, &LH[h], l), *pv = bfdev_list_prev_entry_or_null(e, &LH[h], l);
            SIM_CHECK(nx == (i + 1 < len[h] ? &L[seq[h][i + 1]] : NULL) && pv == (i ? &L[seq[h][i - 1]] : NULL), "list:query", "the neighbours of element %d of %d are wrong", i, len[h]);
            i++;
        }
        SIM_CHECK(i == len[h], "list:lost", "%d elements, expected %d", i, len[h]);
        bfdev_list_for_each_reverse(p, &LH[h]) { SIM_CHECK(i > 0 && p == &L[seq[h][i - 1]].l, "list:reverse", "reverse iteration differs"); --i; }
        SIM_CHECK(!i, "list:reverse", "reverse iteration is short");
        e = bfdev_list_first_entry_or_null(&LH[h], ln, l);
        SIM_CHECK(e == (len[h] ? &L[seq[h][0]] : NULL), "list:query", "the first entry is wrong");
        e = bfdev_list_last_entry_or_null(&LH[h], ln, l);
        SIM_CHECK(e == (len[h] ? &L[seq[h][len[h] - 1]] : NULL), "list:query", "the last entry is wrong");
        if (len[h]) {
            int m = len[h] / 2, j = m;
            e = &L[seq[h][m]];
            bfdev_list_for_each_entry_continue(e, &LH[h], l) { ++j; SIM_CHECK(j < len[h] && e == &L[seq[h][j]], "list:continue", "continued iteration differs"); }
            SIM_CHECK(j == len[h] - 1, "list:continue", "continued iteration is short");
            e = &L[seq[h][m]]; j = m;
            bfdev_list_for_each_entry_reverse_from(e, &LH[h], l) { SIM_CHECK(j >= 0 && e == &L[seq[h][j]], "list:continue", "reverse iteration from the middle differs"); --j; }
            SIM_CHECK(j == -1, "list:continue", "reverse iteration from the middle is short");
        }
    }
}
#define LID(p) ((int)(bfdev_list_entry(p, ln, l) - L))
static void l_gone(int id) { bfdev_list_del(&L[id].l); memset(&L[id].l, 0x5a, sizeof(L[id].l)); }
static void l_walk(void)
{
    bfdev_list_head_t *h = &LH[wh], *p = &L[seq[wh][wm]].l, *t;
    ln *e = &L[seq[wh][wm]], *f;
    V12(list, , FWD, h, l, L, LID)
    V12(list, _reverse, REV, h, l, L, LID)
}
static void l_exec(const sim_trace *tr)
{
    L = sim_tmp(sizeof(*L) * NN); LH = sim_tmp(sizeof(*LH) * NH);
    memset(len, 0, sizeof(len));
    for (int i = 0; i < NN; ++i) { where[i] = -1; memset(&L[i], 0x5a, sizeof(L[i])); L[i].id = i; bfdev_list_head_init(&L[i].l); }
    for (int h = 0; h < NH; ++h) if (h) bfdev_list_head_init(&LH[h]); else LH[h] = BFDEV_LIST_HEAD_INIT(&LH[h]);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int h = hd(o->a[2]), out = pickin(o->a[0], 0), in = pickin(o->a[0], 1), to = pickin(o->a[1], 1);
        switch (o->kind) {
        case L_ADD: case L_ADDP:
            if (out < 0) break;
            L[out].key = (long)o->a[3];
            if (to >= 0 && (o->a[4] & 1)) {       /* next to an element */
                h = where[to];
                if (o->kind == L_ADD) { bfdev_list_add(&L[to].l, &L[out].l); put(h, at(h, to) + 1, out); }
                else { bfdev_list_add_prev(&L[to].l, &L[out].l); put(h, at(h, to), out); }
            } else if (o->kind == L_ADD) { bfdev_list_add(&LH[h], &L[out].l); put(h, 0, out); }
            else { bfdev_list_add_prev(&LH[h], &L[out].l); put(h, len[h], out); }
            break;
        case L_DEL: if (in >= 0) { bfdev_list_del(&L[in].l); drop(in); } break;
        case L_DELI:
            if (in < 0) break;
            bfdev_list_del_init(&L[in].l); drop(in);
            SIM_CHECK(bfdev_list_check_empty(&L[in].l), "list:init", "a node is not initialised after del_init");
            if (o->a[4] & 1) bfdev_list_del_init(&L[in].l);   /* repeating it is harmless */
            break;
        case L_MOVE: case L_MOVEP:
            if (in < 0 || in == to) break;
            if (to >= 0 && (o->a[4] & 1)) {
                if (o->kind == L_MOVE) bfdev_list_move(&L[to].l, &L[in].l); else bfdev_list_move_prev(&L[to].l, &L[in].l);
                drop(in); h = where[to]; put(h, at(h, to) + (o->kind == L_MOVE), in);
            } else {
                if (o->kind == L_MOVE) bfdev_list_move(&LH[h], &L[in].l); else bfdev_list_move_prev(&LH[h], &L[in].l);
                drop(in); put(h, o->kind == L_MOVE ? 0 : len[h], in);
            }
            break;
        case L_SPLICE: case L_SPLICET: {
            int g = (h + 1) % NH, tmp[NN], m = len[g];
            memcpy(tmp, seq[g], sizeof(int) * (size_t)m);
            if (o->a[4] & 1) {
                if (o->kind == L_SPLICE) bfdev_list_splice_init(&LH[h], &LH[g]); else bfdev_list_splice_tail_init(&LH[h], &LH[g]);
            } else {
                if (o->kind == L_SPLICE) bfdev_list_splice(&LH[h], &LH[g]); else bfdev_list_splice_prev(&LH[h], &LH[g]);
                bfdev_list_head_init(&LH[g]);
            }
            len[g] = 0;
            for (int j = 0; j < m; ++j) put(h, o->kind == L_SPLICE ? j : len[h], tmp[j]);
            break;
        }
        case L_REPL: case L_REPLI:
            if (in < 0 || out < 0) break;
            if (o->kind == L_REPL) bfdev_list_replace(&L[in].l, &L[out].l);
            else {
                bfdev_list_replace_init(&L[in].l, &L[out].l);
                SIM_CHECK(bfdev_list_check_empty(&L[in].l), "list:init", "a node is not initialised after replace_init");
            }
            L[out].key = L[in].key; h = where[in];
            seq[h][at(h, in)] = out; where[out] = h; where[in] = -1;
            break;
        case L_SWAP:
            if (in < 0 || to < 0 || in == to) break;
            bfdev_list_swap(&L[in].l, &L[to].l);
            { int a = where[in], ai = at(a, in), b = where[to], bi = at(b, to); seq[a][ai] = to; seq[b][bi] = in; where[to] = a; where[in] = b; }
            break;
        case L_SORT:
            bfdev_list_sort(&LH[h], lcmp, &kept);
            for (int a = 1; a < len[h]; ++a) for (int b = a; b > 0 && L[seq[h][b - 1]].key > L[seq[h][b]].key; --b) { int t = seq[h][b]; seq[h][b] = seq[h][b - 1]; seq[h][b - 1] = t; }
            if (len[h] > 8) sim_probe("sorted_more_than_8");
            break;
        case L_WALK: if (wpick(o, 24)) { wgone = l_gone; l_walk(); } break;
#ifdef BFDEV_DEBUG_LIST
        case L_DEL2:
            if (in < 0) break;
            bfdev_list_del(&L[in].l); drop(in);
            l_check();
            sim_alarms(); sim_fault("client_double_delete");
            bfdev_list_del(&L[in].l);
            SIM_CHECK(sim_alarms(), "list:unreported", "a second delete was not reported");
            break;
        case L_ADD2:
            if (in < 0) break;
            sim_alarms(); sim_fault("client_double_add");
            if (o->a[4] & 1) bfdev_list_add(&L[in].l, &L[in].l);
            else if (o->a[4] & 2) bfdev_list_add(L[in].l.prev, &L[in].l);
            else bfdev_list_add_prev(L[in].l.next, &L[in].l);
            SIM_CHECK(sim_alarms(), "list:unreported", "adding a node next to itself was not reported");
            break;
        case L_STALE: {
            if (out < 0 || len[h] < 3) break;
            int a = (int)(o->a[1] % len[h]), b = (int)((o->a[4] + a) % len[h]);
            if (a < 0 || b < 0 || b == a + 1) break;
            sim_alarms(); sim_fault("client_stale_neighbours");
            bfdev_list_insert(&L[seq[h][a]].l, &L[seq[h][b]].l, &L[out].l);
            SIM_CHECK(sim_alarms(), "list:unreported", "inserting between nodes that are not neighbours was not reported");
            break;
        }
#endif
        }
        l_check();
        sim_state(sim_mix(sim_mix((uint64_t)len[0], (uint64_t)len[1]), sim_mix((uint64_t)len[2], o->kind)));
    }
}
/* another list, from inside a comparison */
static long nest_lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pdata) { (void)pdata; return bfdev_list_entry(a, ln, l)->key - bfdev_list_entry(b, ln, l)->key; }
static void l_nest(void)
{
    BFDEV_LIST_HEAD(head);
    static ln c[7];
    ln *e;
    int k = 0;
    memset(c, 0, sizeof(c));
    for (int i = 0; i < 7; ++i) { c[i].key = i * 3 % 7 / 2; bfdev_list_add_prev(&head, &c[i].l); }
    bfdev_list_sort(&head, nest_lcmp, NULL);
    ln *last = NULL;
    bfdev_list_for_each_entry(e, &head, l) {
        SIM_CHECK(!last || last->key < e->key || (last->key == e->key && last < e), "list:nested", "a list sorted from inside a comparison is out of order");
        last = e; k++;
    }
    SIM_CHECK(k == 7, "list:nested", "a list sorted from inside a comparison holds %d of 7", k);
}
const sim_workload w_list = { "H01", "list", l_cfn, l_opn, l_gen, l_exec, 800, l_nest };

/* -------------------------------------------------------------- hash lists */
typedef struct { bfdev_hlist_node_t l; int id; } hn;
static hn *Hh; static bfdev_hlist_head_t *HH;
enum { X_ADD, X_NEXT, X_PREV, X_DEL, X_DELI, X_REPL, X_HEADREPL, X_WALK, X_DEL2, X_ADD2, X_N };
static const char *const x_opn[] = { "head-add", "next-add", "prev-add", "del", "del-init", "replace", "head-replace", "walk", "delete-twice", "add-twice" };
static void x_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[X_N] = { 16, 12, 12, 6, 6, 5, 2, 4, 2, 2 };
    mix_gen(r, tr, faults, tier, base, X_N, X_DEL2);
}
static void x_check(void)
{
    for (int h = 0; h < NH; ++h) {
        hn *e; int i = 0;
        SIM_CHECK(bfdev_hlist_check_empty(&HH[h]) == !len[h], "hlist:empty", "emptiness of a list of %d is wrong", len[h]);
        bfdev_hlist_for_each_entry(e, &HH[h], l) {
            SIM_CHECK(i < len[h] && e == &Hh[seq[h][i]], "hlist:order", "element %d of %d is not the expected one", i, len[h]);
            SIM_CHECK(bfdev_hlist_check_first(&HH[h], &e->l) == !i && bfdev_hlist_check_end(&e->l) == (i == len[h] - 1) && bfdev_hlist_check_another(&HH[h], &e->l) == (len[h] == 1) &&
                !bfdev_hlist_check_unhashed(&e->l), "hlist:query", "a position query on element %d of %d is wrong", i, len[h]);
            SIM_CHECK(*e->l.pprev == &e->l, "hlist:back", "element %d of %d has a stale back link", i, len[h]);
            i++;
        }
        SIM_CHECK(i == len[h], "hlist:lost", "%d elements, expected %d", i, len[h]);
    }
}
#define XID(p) ((int)(bfdev_hlist_entry(p, hn, l) - Hh))
static void x_gone(int id) { bfdev_hlist_del(&Hh[id].l); memset(&Hh[id].l, 0x5a, sizeof(Hh[id].l)); }
static void x_walk(void)
{
    bfdev_hlist_node_t *p = &Hh[seq[wh][wm]].l, *t;
    hn *e = &Hh[seq[wh][wm]], *f;
    V12S(hlist, &HH[wh], l, Hh, XID)
}
static void x_exec(const sim_trace *tr)
{
    Hh = sim_tmp(sizeof(*Hh) * NN); HH = sim_tmp(sizeof(*HH) * NH);
    memset(len, 0, sizeof(len));
    for (int i = 0; i < NN; ++i) { where[i] = -1; Hh[i].id = i; bfdev_hlist_node_init(&Hh[i].l); }
    for (int h = 0; h < NH; ++h) bfdev_hlist_head_init(&HH[h]);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int h = hd(o->a[2]), out = pickin(o->a[0], 0), in = pickin(o->a[0], 1), to = pickin(o->a[1], 1);
        switch (o->kind) {
        case X_ADD: if (out >= 0) { bfdev_hlist_head_add(&HH[h], &Hh[out].l); put(h, 0, out); } break;
        case X_NEXT: if (out >= 0 && to >= 0) { bfdev_hlist_next_add(&Hh[to].l, &Hh[out].l); h = where[to]; put(h, at(h, to) + 1, out); } break;
        case X_PREV: if (out >= 0 && to >= 0) { bfdev_hlist_prev_add(&Hh[to].l, &Hh[out].l); h = where[to]; put(h, at(h, to), out); } break;
        case X_DEL: if (in >= 0) { bfdev_hlist_del(&Hh[in].l); drop(in); } break;
        case X_DELI:
            if (in < 0) break;
            bfdev_hlist_del_init(&Hh[in].l); drop(in);
            SIM_CHECK(bfdev_hlist_check_unhashed(&Hh[in].l), "hlist:init", "a node is not initialised after del_init");
            break;
        case X_REPL:
            if (in < 0 || out < 0) break;
            bfdev_hlist_replace(&Hh[in].l, &Hh[out].l);
            h = where[in]; seq[h][at(h, in)] = out; where[out] = h; where[in] = -1;
            break;
        case X_HEADREPL: {
            int g = (h + 1) % NH;
            if (len[g]) break;
            bfdev_hlist_head_replace(&HH[h], &HH[g]);
            len[g] = len[h]; memcpy(seq[g], seq[h], sizeof(seq[g])); len[h] = 0;
            for (int j = 0; j < len[g]; ++j) where[seq[g][j]] = g;
            break;
        }
        case X_WALK: if (wpick(o, 12)) { wgone = x_gone; x_walk(); } break;
#ifdef BFDEV_DEBUG_HLIST
        case X_DEL2:
            if (in < 0) break;
            bfdev_hlist_del(&Hh[in].l); drop(in);
            x_check();
            sim_alarms(); sim_fault("client_double_delete");
            bfdev_hlist_del(&Hh[in].l);
            SIM_CHECK(sim_alarms(), "hlist:unreported", "a second delete was not reported");
            break;
        case X_ADD2: {
            if (to < 0) break;
            int g = where[to], p = at(g, to);
            sim_alarms(); sim_fault("client_double_add");
            if (p == 0 && (o->a[4] & 1)) bfdev_hlist_head_add(&HH[g], &Hh[to].l);
            else if (p + 1 < len[g]) {
                if (o->a[4] & 2) bfdev_hlist_next_add(&Hh[to].l, &Hh[seq[g][p + 1]].l);
                else bfdev_hlist_prev_add(&Hh[seq[g][p + 1]].l, &Hh[to].l);
            } else break;
            SIM_CHECK(sim_alarms(), "hlist:unreported", "adding a linked node in its own place was not reported");
            break;
        }
#endif
        }
        x_check();
        sim_state(sim_mix(sim_mix((uint64_t)len[0], (uint64_t)len[1]), sim_mix((uint64_t)len[2], o->kind)));
    }
}
const sim_workload w_hlist = { "H01", "hlist", l_cfn, x_opn, x_gen, x_exec, 400 };

/* ------------------------------------------------------------ singly linked */
typedef struct { long pad; bfdev_slist_head_t l; int id; } sn;
static sn *S; static bfdev_slist_head_t *SH;
enum { S_ADD, S_NEXT, S_DEL, S_REPL, S_WALK, S_DEL2, S_ADD2, S_N };
static const char *const s_opn[] = { "head-add", "next-add", "del", "replace", "walk", "delete-twice", "add-twice" };
static void s_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[S_N] = { 16, 14, 8, 5, 4, 2, 2 };
    mix_gen(r, tr, faults, tier, base, S_N, S_DEL2);
}
static void s_check(void)
{
    for (int h = 0; h < NH; ++h) {
        sn *e; int i = 0;
        SIM_CHECK(bfdev_slist_check_empty(&SH[h]) == !len[h], "slist:empty", "emptiness of a list of %d is wrong", len[h]);
        bfdev_slist_for_each_entry(e, &SH[h], l) {
            SIM_CHECK(i < len[h] && e == &S[seq[h][i]], "slist:order", "element %d of %d is not the expected one", i, len[h]);
            SIM_CHECK(bfdev_slist_check_first(&SH[h], &e->l) == !i && bfdev_slist_check_end(&e->l) == (i == len[h] - 1) && bfdev_slist_check_another(&SH[h], &e->l) == (len[h] == 1), "slist:query", "a position query on element %d of %d is wrong", i, len[h]);
            i++;
        }
        SIM_CHECK(i == len[h], "slist:lost", "%d elements, expected %d", i, len[h]);
        if (len[h]) {
            int j = len[h] / 2;
            e = &S[seq[h][j]];
            bfdev_slist_for_each_entry_continue(e, l) { ++j; SIM_CHECK(j < len[h] && e == &S[seq[h][j]], "slist:continue", "continued iteration differs"); }
            SIM_CHECK(j == len[h] - 1, "slist:continue", "continued iteration is short");
        }
    }
}
#define SID(p) ((int)(bfdev_slist_entry(p, sn, l) - S))
static void s_gone(int id) { bfdev_slist_del(&SH[wh], &S[id].l); memset(&S[id].l, 0x5a, sizeof(S[id].l)); }
static void s_walk(void)
{
    bfdev_slist_head_t *p = &S[seq[wh][wm]].l, *t;
    sn *e = &S[seq[wh][wm]], *f;
    V12S(slist, &SH[wh], l, S, SID)
}
static void s_exec(const sim_trace *tr)
{
    S = sim_tmp(sizeof(*S) * NN); SH = sim_tmp(sizeof(*SH) * NH);
    memset(len, 0, sizeof(len));
    for (int i = 0; i < NN; ++i) { where[i] = -1; S[i].id = i; bfdev_slist_head_init(&S[i].l); }
    for (int h = 0; h < NH; ++h) bfdev_slist_head_init(&SH[h]);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int h = hd(o->a[2]), out = pickin(o->a[0], 0), in = pickin(o->a[0], 1), to = pickin(o->a[1], 1);
        switch (o->kind) {
        case S_ADD: if (out >= 0) { bfdev_slist_add(&SH[h], &S[out].l); put(h, 0, out); } break;
        case S_NEXT: if (out >= 0 && to >= 0) { bfdev_slist_add(&S[to].l, &S[out].l); h = where[to]; put(h, at(h, to) + 1, out); } break;
        case S_DEL: if (in >= 0) { bfdev_slist_del(&SH[where[in]], &S[in].l); drop(in); } break;
        case S_REPL:
            if (in < 0 || out < 0) break;
            h = where[in];
            bfdev_slist_replace(&SH[h], &S[in].l, &S[out].l);
            seq[h][at(h, in)] = out; where[out] = h; where[in] = -1;
            break;
        case S_WALK: if (wpick(o, 12)) { wgone = s_gone; s_walk(); } break;
#ifdef BFDEV_DEBUG_SLIST
        case S_DEL2: {
            if (in < 0) break;
            int g = where[in];
            bfdev_slist_del(&SH[g], &S[in].l); drop(in);
            s_check();
            sim_alarms(); sim_fault("client_double_delete");
            bfdev_slist_del(&SH[g], &S[in].l);
            SIM_CHECK(sim_alarms(), "slist:unreported", "a second delete was not reported");
            break;
        }
        case S_ADD2: {
            if (in < 0) break;
            int g = where[in], p = at(g, in);
            sim_alarms(); sim_fault("client_double_add");
            if (o->a[4] & 1) bfdev_slist_add(&S[in].l, &S[in].l);
            else bfdev_slist_add(p ? &S[seq[g][p - 1]].l : &SH[g], &S[in].l);
            SIM_CHECK(sim_alarms(), "slist:unreported", "adding a linked node in its own place was not reported");
            break;
        }
#endif
        }
        s_check();
        sim_state(sim_mix(sim_mix((uint64_t)len[0], (uint64_t)len[1]), sim_mix((uint64_t)len[2], o->kind)));
    }
}
const sim_workload w_slist = { "H01", "slist", l_cfn, s_opn, s_gen, s_exec, 400 };

/* -------------------------------------------------------------- hash table */
enum { T_ADD, T_DEL, T_LOOK, T_CLEAR, T_N };
static const char *const t_opn[] = { "add", "del", "lookup", "walk" };
static void t_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[T_N] = { 20, 10, 4, 3 };
    mix_gen(r, tr, faults, tier, base, T_N, T_N);
    if (sim_chance(r, 1, 80)) tr->cfg[1] = 1000 + sim_range(r, 7, sim_chance(r, 1, 6) ? 17 : 11);
}
typedef struct { long key; bfdev_hlist_node_t l; int id, in; unsigned mark; } tn;
static void t_exec(const sim_trace *tr)
{
    unsigned long size = 2ul << (tr->cfg[1] < 0 ? 0 : tr->cfg[1] >= 1000 ? (tr->cfg[1] - 1000) % 18 : tr->cfg[1] % 7), idx;
    if (size > 65536) sim_probe("more_than_65536_buckets");
    bfdev_hlist_head_t *tab = sim_tmp(sizeof(*tab) * size);
    tn *n = sim_tmp(sizeof(*n) * NN), *e, *tmp;
    bfdev_hlist_node_t *p, *q;
    unsigned stamp = 0;
    int in = 0;
    memset(tab, 0x5a, sizeof(*tab) * size);
    bfdev_hashtbl_init(tab, size);
    for (int i = 0; i < NN; ++i) { n[i].id = i; n[i].in = 0; n[i].mark = 0; }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int k = (int)(o->a[0] % NN);
        if (k < 0) continue;
        switch (o->kind) {
        case T_ADD: if (!n[k].in) { n[k].key = (long)o->a[3] * (tr->cfg[0] & 1 ? 1 : 4096); bfdev_hashtbl_add(tab, size, &n[k].l, (unsigned long)n[k].key); n[k].in = 1; in++; } break;
        case T_DEL: if (n[k].in) { bfdev_hashtbl_del(&n[k].l); n[k].in = 0; in--; } break;
        case T_CLEAR:
            ++stamp;
#define TSEE(gone) { SIM_CHECK(e >= n && e < n + NN && e->in && e->mark != stamp, "hashtbl:ghost", "iteration meets a node that is not stored, or twice"); \
                e->mark = stamp; \
                if (gone && o->a[4] >> (e->id % 7) & 1) { bfdev_hashtbl_del(&e->l); memset(&e->l, 0x5a, sizeof(e->l)); bfdev_hlist_node_init(&e->l); e->in = 0; in--; } }
            switch (o->a[4] % 7) {
            case 0: bfdev_hashtbl_for_each_entry(e, tab, size, l, idx) TSEE(0) break;
            case 1: bfdev_hashtbl_for_each(p, tab, size, idx) { e = bfdev_hlist_entry(p, tn, l); TSEE(0) } break;
            case 2: bfdev_hashtbl_for_each_safe(p, q, tab, size, idx) { e = bfdev_hlist_entry(p, tn, l); TSEE(1) } break;
            case 3: for (idx = 0; idx < size; ++idx) bfdev_hashtbl_for_each_idx(p, tab, size, idx) { e = bfdev_hlist_entry(p, tn, l); TSEE(0) } break;
            case 4: for (idx = 0; idx < size; ++idx) bfdev_hashtbl_for_each_idx_safe(p, q, tab, size, idx) { e = bfdev_hlist_entry(p, tn, l); TSEE(1) } break;
            case 5: for (idx = 0; idx < size; ++idx) bfdev_hashtbl_for_each_idx_entry_safe(e, tmp, tab, size, l, idx) TSEE(1) break;
            default: bfdev_hashtbl_for_each_entry_safe(e, tmp, tab, size, l, idx) TSEE(1) break;
            }
            for (int j = 0; j < NN; ++j) SIM_CHECK(!n[j].in || n[j].mark == stamp, "hashtbl:lost", "iteration misses a stored node");
            break;
        }
        SIM_CHECK(bfdev_hashtbl_empty(tab, size) == !in, "hashtbl:empty", "emptiness with %d nodes is wrong", in);
        int c = 0;
        ++stamp;
        bfdev_hashtbl_for_each_entry(e, tab, size, l, idx) {
            SIM_CHECK(e >= n && e < n + NN && e->in && e->mark != stamp, "hashtbl:ghost", "iteration meets a node that is not stored, or twice");
            e->mark = stamp; c++;
        }
        SIM_CHECK(c == in, "hashtbl:lost", "iteration meets %d of %d nodes", c, in);
        /* every node is reachable through the bucket of its key */
        for (int j = 0; j < NN; ++j) if (n[j].in) {
            bool hit = false;
            unsigned long b = bfdev_hashtbl_index(size, (unsigned long)n[j].key);
            SIM_CHECK(b < size, "hashtbl:index", "bucket %lu of %lu", b, size);
            bfdev_hashtbl_for_each_idx_entry(e, tab, size, l, b) hit |= e == &n[j];
            SIM_CHECK(hit, "hashtbl:bucket", "a stored key is not found through its bucket");
        }
        sim_state(sim_mix((uint64_t)in, sim_mix(size, o->kind)));
    }
}
const sim_workload w_hashtbl = { "H01", "hashtbl", l_cfn, t_opn, t_gen, t_exec, 400 };

/* -------------------------------------------------------------- index list */
typedef struct { bfdev_ilist_node_t l; int id; long key; } in_;
enum { I_ADD, I_DEL, I_WALK, I_DEL2, I_ADD2, I_N };
static const char *const i_opn[] = { "add", "del", "walk", "delete-twice", "add-twice" };
static void i_gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int base[I_N] = { 20, 10, 4, 2, 2 };
    mix_gen(r, tr, faults, tier, base, I_N, I_DEL2);
}
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    SIM_CHECK(pdata == &kept, "ilist:pdata", "the comparison got a wrong private pointer");
    sim_nest();
    return bfdev_ilist_entry(a, in_, l)->key - bfdev_ilist_entry(b, in_, l)->key;
}
static in_ *IN; static bfdev_ilist_head_t *IH;
#define IID(p) ((int)(bfdev_container_of(p, in_, l.node_list) - IN))
static void i_gone(int id) { bfdev_ilist_del(IH, &IN[id].l); bfdev_ilist_node_init(&IN[id].l); }
static void i_walk(void)
{
    bfdev_list_head_t *p = &IN[seq[0][wm]].l.node_list, *t;
    in_ *e = &IN[seq[0][wm]], *f;
    V12(ilist, , FWD, IH, l, IN, IID)
    V12(ilist, _reverse, REV, IH, l, IN, IID)
}
static void i_exec(const sim_trace *tr)
{
    in_ *n = sim_tmp(sizeof(*n) * NN), *e;
    bfdev_ilist_head_t *head = sim_tmp(sizeof(*head));
    memset(len, 0, sizeof(len));
    memset(head, 0x5a, sizeof(*head));
    IN = n; IH = head;
    bfdev_ilist_head_init(head);
    for (int i = 0; i < NN; ++i) { where[i] = -1; memset(&n[i], 0x5a, sizeof(n[i])); n[i].id = i; bfdev_ilist_node_init(&n[i].l); }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int out = pickin(o->a[0], 0), in = pickin(o->a[0], 1);
        switch (o->kind) {
        case I_ADD: {
            if (out < 0) break;
            n[out].key = (long)o->a[3];
            bfdev_ilist_add(head, &n[out].l, icmp, &kept);
            int p = 0;
            while (p < len[0] && n[seq[0][p]].key <= n[out].key) ++p;
            put(0, p, out);
            break;
        }
        case I_DEL: if (in >= 0) { bfdev_ilist_del(head, &n[in].l); drop(in); } break;
        case I_DEL2:
            if (in < 0) break;
            bfdev_ilist_del(head, &n[in].l); drop(in);
            sim_fault("client_double_delete");
            bfdev_ilist_del(head, &n[in].l);
            break;
        case I_ADD2:
            if (in < 0 || len[0] < 2) break;
            sim_fault("client_double_add");
            bfdev_ilist_add(head, &n[in].l, icmp, &kept);
            break;
        case I_WALK: if (wpick(&(sim_op){ .a = { o->a[0], o->a[1], 0, o->a[3], o->a[4] } }, 24)) { wgone = i_gone; i_walk(); } break;
        }
        int j = 0;
        SIM_CHECK(bfdev_ilist_head_empty(head) == !len[0], "ilist:empty", "emptiness of a list of %d is wrong", len[0]);
        bfdev_ilist_for_each_entry(e, head, l) {
            SIM_CHECK(j < len[0] && e == &n[seq[0][j]], "ilist:order", "element %d of %d is not the expected one", j, len[0]);
            j++;
        }
        SIM_CHECK(j == len[0], "ilist:lost", "%d elements, expected %d", j, len[0]);
        bfdev_ilist_for_each_entry_reverse(e, head, l) { SIM_CHECK(j > 0 && e == &n[seq[0][j - 1]], "ilist:reverse", "reverse iteration differs"); --j; }
        if (len[0]) SIM_CHECK(bfdev_ilist_first(head) == &n[seq[0][0]].l && bfdev_ilist_last(head) == &n[seq[0][len[0] - 1]].l, "ilist:ends", "the first or last node is wrong");
        /* the index ring names the first node of every run of equal keys, in order */
        if (len[0]) {
            bfdev_ilist_node_t *w = bfdev_ilist_first(head);
            int runs = 0;
            for (int q = 0; q < len[0]; ++q) if (!q || n[seq[0][q - 1]].key != n[seq[0][q]].key) {
                SIM_CHECK(w == &n[seq[0][q]].l, "ilist:index", "the index does not name the first node of run %d", runs);
                w = bfdev_list_next_entry(w, index_list);
                runs++;
            }
            SIM_CHECK(w == bfdev_ilist_first(head), "ilist:index", "the index holds more nodes than there are distinct keys");
        }
        sim_state(sim_mix((uint64_t)len[0], o->kind));
    }
}
/* another list, from inside a comparison */
static long nest_icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata) { (void)pdata; return bfdev_ilist_entry(a, in_, l)->key - bfdev_ilist_entry(b, in_, l)->key; }
static void i_nest(void)
{
    static in_ c[7];
    bfdev_ilist_head_t head;
    in_ *e, *last = NULL;
    int k = 0;
    bfdev_ilist_head_init(&head);
    for (int i = 0; i < 7; ++i) { bfdev_ilist_node_init(&c[i].l); c[i].key = i * 3 % 7 / 2; bfdev_ilist_add(&head, &c[i].l, nest_icmp, NULL); }
    bfdev_ilist_del(&head, &c[3].l);
    bfdev_ilist_for_each_entry(e, &head, l) {
        SIM_CHECK(e != &c[3] && (!last || last->key < e->key || (last->key == e->key && last < e)), "ilist:nested", "a list used from inside a comparison is out of order");
        last = e; k++;
    }
    SIM_CHECK(k == 6, "ilist:nested", "a list used from inside a comparison holds %d of 6", k);
}
const sim_workload w_ilist = { "H03", "ilist", l_cfn, i_opn, i_gen, i_exec, 1, i_nest };
