/*
 * L01: lock-free list, L02: atomics, L03: reference counts, L04: atomic bit operations.
 * Several simulated threads call them at once, are switched between any two memory
 * accesses, suspended, or ended for good; the history has to be linearizable.
 */
#include "conc.h"
#include <bfdev/llist.h>
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#include <bfdev/refcount.h>
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bitflags.h>
#include <sys/mman.h>

#define MAXH 60
#define LIMIT 400000
enum { DO = CONC_OPS };
static const char *const opn[] = { CONC_OPNAMES, "call" };
static const char *const cfn[SIM_NCFG] = { "threads", "mode", "init" };

static lin_op H[MAXH + 2];
static int nh, nthr;
static const sim_trace *T;

static lin_op *begin(int kind, int64_t a, int64_t b, int64_t c)
{
    lin_op *o = &H[nh++];
    memset(o, 0, sizeof(*o));
    o->tid = conc_self();
    o->kind = kind;
    o->arg[0] = a; o->arg[1] = b; o->arg[2] = c;
    o->res = UINT64_MAX;
    o->inv = conc_now();
    return o;
}
static void end(lin_op *o, int64_t r0, int64_t r1)
{
    o->ret[0] = r0;
    o->ret[1] = r1;
    o->res = conc_now();
    sim_log(sim_mix((uint64_t)r0, (uint64_t)r1));
}

static void (*call)(int tid, const sim_op *o);
static void program(int tid, void *arg)
{
    (void)arg;
    for (int i = 0; i < T->nops && nh < MAXH; ++i)
        if (T->ops[i].kind == DO && (int)((uint64_t)T->ops[i].a[0] % (uint64_t)nthr) == tid)
            call(tid, &T->ops[i]);
}
static void run(const sim_trace *tr, void (*fn)(int, const sim_op *))
{
    T = tr;
    nh = 0;
    call = fn;
    for (int i = 0; i < nthr; ++i) conc_spawn(program, NULL);
    conc_run(tr, LIMIT);
}
static const char *const *names;
static void explain(const char *what)
{
    fprintf(stderr, "%s, history (threads, real-time order of calls and returns):\n", what);
    for (int i = 0; i < nh; ++i) {
        const lin_op *o = &H[i];
        fprintf(stderr, "  t%d [%llu,%lld] %s(%lld,%lld,%lld) -> %lld %lld\n", o->tid, (unsigned long long)o->inv,
                o->res == UINT64_MAX ? -1ll : (long long)o->res, names[o->kind], (long long)o->arg[0], (long long)o->arg[1],
                (long long)o->arg[2], (long long)o->ret[0], (long long)o->ret[1]);
    }
}
static void judge(const char *cls, const void *init, size_t size, lin_step step)
{
    if (lin_check(H, nh, init, size, step)) return;
    explain("not linearizable");
    sim_fail(cls, "no order of the %d calls explains their results", nh);
}
static void setup(const sim_trace *tr)
{
    nthr = (int)tr->cfg[0];
    if (nthr < 1) nthr = 1;
    if (nthr > CONC_MAXT) nthr = CONC_MAXT;
    for (int i = 0; i < nthr; ++i) sim_state(0);    /* keeps the map's first bit used */
}
/* what the map counts: which kinds of call overlapped, and how often a call was overtaken */
static void coverage(void)
{
    for (int i = 0; i < nh; ++i) {
        uint64_t h = sim_mix((uint64_t)H[i].kind, (uint64_t)nthr);
        int over = 0;
        for (int j = 0; j < nh; ++j)
            if (H[j].tid != H[i].tid && H[j].inv < H[i].res && H[i].inv < H[j].res && over++ < 3)
                h = sim_mix(h, (uint64_t)H[j].kind * 8 + (H[j].inv < H[i].inv) * 4 + (H[j].res < H[i].res) * 2 + (H[j].res == UINT64_MAX));
        if (over) sim_probe("calls_that_overlapped");
        sim_state(sim_mix(h, (uint64_t)H[i].ret[0] & 3));
    }
}

/* every workload: 2-4 threads, short programs, then a schedule */
static void threads(sim_rng *r, sim_trace *tr, int lo)
{
    tr->ncfg = 3;
    tr->cfg[0] = sim_chance(r, 1, 2) ? lo : sim_range(r, lo, 4);
}
static void calls(sim_rng *r, sim_trace *tr, int faults, int cost, int max, void (*arg)(sim_rng *, sim_op *))
{
    int n = (int)tr->cfg[0], total = (int)sim_range(r, n, max);
    for (int i = 0; i < total; ++i) {
        sim_op *o = sim_add(tr, DO);
        o->a[0] = sim_range(r, 0, n - 1);
        arg(r, o);
    }
    conc_gen(r, tr, n, (total / n + 1) * cost, faults);
}

/* ================= L01 ================= */

enum { ADD, SPLIT, DEL, DESTROY };
static const char *const lnames[] = { "add", "split", "del", "destroy" };
#define NNODE 20
typedef struct lnode { bfdev_slist_head_t list; int id; } lnode;
static lnode nodes[NNODE];
static bfdev_slist_head_t lhead;
static int pool[CONC_MAXT][NNODE], npool[CONC_MAXT];
static int lmode;

typedef struct lstate { int8_t n, id[NNODE + 3]; } lstate;   /* id[n-1] is the first entry */

static bool lstep(void *sv, const lin_op *o, bool done)
{
    lstate *s = sv;
    int64_t h = 0;
    switch (o->kind) {
    case ADD: case SPLIT:
        if (done && o->ret[0] != !s->n) return false;
        for (int64_t k = o->arg[0]; k--;) {
            if (s->n >= NNODE) return false;
            s->id[s->n++] = (int8_t)(o->arg[1] >> (8 * k) & 0xff);
        }
        return true;
    case DEL:
        if (done && o->ret[0] != (s->n ? s->id[s->n - 1] : -1)) return false;
        if (s->n) s->id[--s->n] = 0;
        return true;
    case DESTROY:
        while (s->n) { h = h * 131 + s->id[s->n - 1] + 1; s->id[--s->n] = 0; }
        return !done || o->ret[0] == h;
    }
    return false;
}

static int take_chain(bfdev_slist_head_t *first, int64_t *hash, int owner)
{
    int n = 0;
    *hash = 0;
    for (bfdev_slist_head_t *p = first; p; p = p->next) {
        lnode *nd = (lnode *)p;
        SIM_CHECK(nd >= nodes && nd < nodes + NNODE && (char *)nd == (char *)&nodes[nd - nodes], "llist:foreign",
                  "a taken chain leads to something that was never added");
        SIM_CHECK(++n <= NNODE, "llist:cycle", "a taken chain does not end");
        *hash = *hash * 131 + nd->id + 1;
    }
    if (owner < 0) return n;
    for (bfdev_slist_head_t *p = first; p; p = p->next) {
        SIM_CHECK(npool[owner] < NNODE, "llist:duplicate", "a node was taken twice");
        pool[owner][npool[owner]++] = ((lnode *)p)->id;
    }
    return n;
}
static void lcall(int tid, const sim_op *o)
{
    int op = (int)((uint64_t)o->a[1] % 4), k, consumer = lmode ? 1 : tid == 0;
    lin_op *h;
    if (!consumer && op >= DEL) op = ADD;
    if (lmode && op == DEL) op = DESTROY;           /* del is for a single consumer */
    switch (op) {
    case ADD: case SPLIT: {
        lnode *batch[4];
        int64_t ids = 0;
        bool was = false;
        k = op == ADD ? 1 : (int)(1 + (uint64_t)o->a[2] % 4);
        if (npool[tid] < k) return;
        for (int i = 0; i < k; ++i) batch[i] = &nodes[pool[tid][--npool[tid]]];
        for (int i = 0; i < k; ++i) {
            batch[i]->list.next = i + 1 < k ? &batch[i + 1]->list : (void *)0x10;
            ids |= (int64_t)batch[i]->id << (8 * i);
        }
        h = begin(op, k, ids, 0);
        if (op == ADD) LIB(was = bfdev_llist_add(&lhead, &batch[0]->list));
        else LIB(was = bfdev_llist_split(&lhead, &batch[0]->list, &batch[k - 1]->list));
        end(h, was, 0);
        break;
    }
    case DEL: {
        bfdev_slist_head_t *p = NULL;
        h = begin(op, 0, 0, 0);
        LIB(p = bfdev_llist_del(&lhead));
        end(h, p ? ((lnode *)p)->id : -1, 0);
        if (p) {
            SIM_CHECK(npool[tid] < NNODE, "llist:duplicate", "a node was taken twice");
            pool[tid][npool[tid]++] = ((lnode *)p)->id;
        }
        break;
    }
    case DESTROY: {
        bfdev_slist_head_t *p = NULL;
        int64_t hash;
        h = begin(op, 0, 0, 0);
        LIB(p = bfdev_llist_destroy(&lhead));
        take_chain(p, &hash, tid);
        end(h, hash, 0);
        break;
    }
    }
}
static void lexec(const sim_trace *tr)
{
    lstate s;
    int64_t hash;
    lin_op *h;
    setup(tr);
    names = lnames;
    lmode = (int)(tr->cfg[1] & 1);
    memset(npool, 0, sizeof(npool));
    lhead.next = NULL;
    for (int i = 0; i < NNODE; ++i) {
        nodes[i].id = i;
        pool[i % nthr][npool[i % nthr]++] = i;
    }
    run(tr, lcall);
    h = begin(DESTROY, 0, 0, 0);
    take_chain(bfdev_llist_destroy(&lhead), &hash, -1);
    end(h, hash, 0);
    SIM_CHECK(!lhead.next, "llist:leftover", "the list is not empty after all of it was taken");
    memset(&s, 0, sizeof(s));
    judge("llist:linearizability", &s, sizeof(s), lstep);
    coverage();
}
static void larg(sim_rng *r, sim_op *o)
{
    static const int w[4] = { 6, 3, 4, 2 };
    o->a[1] = sim_pickw(r, w, 4);
    o->a[2] = sim_range(r, 0, 3);
}
static void lgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    threads(r, tr, 2);
    tr->cfg[1] = sim_range(r, 0, 1);
    calls(r, tr, faults, 6, tier ? 44 : 26, larg);
}
const sim_workload w_llist = { "L01", "llist", cfn, opn, lgen, lexec, 1 };

/* ================= L02 ================= */

enum { A_READ, A_WRITE, A_XCHG, A_CMPXCHG, A_TRY, A_ADD, A_SUB, A_AND, A_OR, A_XOR,
       A_FADD, A_FSUB, A_FAND, A_FOR, A_FXOR, A_ADDF, A_SUBF, A_ANDF, A_ORF, A_XORF, A_NOPS };
static const char *const anames[] = { "read", "write", "xchg", "cmpxchg", "try_cmpxchg", "add", "sub", "and", "or", "xor",
    "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "add_fetch", "sub_fetch", "and_fetch", "or_fetch", "xor_fetch" };
static bfdev_atomic_t av[2];
static int64_t alast[CONC_MAXT];

static bool astep(void *sv, const lin_op *o, bool done)
{
    int64_t *v = (int64_t *)sv + o->arg[0], old = *v, x = o->arg[1], nv = old, ret = 0, ret1 = 0;
    uint64_t u = (uint64_t)old;
    switch (o->kind) {
    case A_READ: ret = old; break;
    case A_WRITE: nv = x; break;
    case A_XCHG: ret = old; nv = x; break;
    case A_CMPXCHG: ret = old; if (old == o->arg[2]) nv = x; break;
    case A_TRY: ret = old == o->arg[2]; ret1 = old; if (ret) nv = x; break;
    case A_ADD: case A_FADD: case A_ADDF: nv = (int64_t)(u + (uint64_t)x); break;
    case A_SUB: case A_FSUB: case A_SUBF: nv = (int64_t)(u - (uint64_t)x); break;
    case A_AND: case A_FAND: case A_ANDF: nv = old & x; break;
    case A_OR: case A_FOR: case A_ORF: nv = old | x; break;
    case A_XOR: case A_FXOR: case A_XORF: nv = old ^ x; break;
    }
    if (o->kind >= A_FADD) ret = o->kind >= A_ADDF ? nv : old;
    *v = nv;
    return !done || (o->ret[0] == ret && o->ret[1] == ret1);
}
static void acall(int tid, const sim_op *o)
{
    int op = (int)((uint64_t)o->a[1] % A_NOPS), var = (int)(o->a[2] & 1);
    int64_t x = o->a[3], old = o->a[4] == -100 ? alast[tid] : o->a[4];
    bfdev_atomic_t *p = &av[var], r = 0, seen = old;
    lin_op *h = begin(op, var, x, old);
    bool ok = false;
    switch (op) {
    case A_READ: LIB(r = bfdev_atomic_read(p)); break;
    case A_WRITE: LIB(bfdev_atomic_write(p, x)); break;
    case A_XCHG: LIB(r = bfdev_xchg(p, x)); break;
    case A_CMPXCHG: LIB(r = bfdev_cmpxchg(p, old, x)); break;
    case A_TRY: LIB(ok = bfdev_try_cmpxchg(p, &seen, x)); end(h, ok, seen); alast[tid] = seen; return;
    case A_ADD: LIB(bfdev_atomic_add(p, x)); break;
    case A_SUB: LIB(bfdev_atomic_sub(p, x)); break;
    case A_AND: LIB(bfdev_atomic_and(p, x)); break;
    case A_OR: LIB(bfdev_atomic_or(p, x)); break;
    case A_XOR: LIB(bfdev_atomic_xor(p, x)); break;
    case A_FADD: LIB(r = bfdev_atomic_fetch_add(p, x)); break;
    case A_FSUB: LIB(r = bfdev_atomic_fetch_sub(p, x)); break;
    case A_FAND: LIB(r = bfdev_atomic_fetch_and(p, x)); break;
    case A_FOR: LIB(r = bfdev_atomic_fetch_or(p, x)); break;
    case A_FXOR: LIB(r = bfdev_atomic_fetch_xor(p, x)); break;
    case A_ADDF: LIB(r = bfdev_atomic_add_fetch(p, x)); break;
    case A_SUBF: LIB(r = bfdev_atomic_sub_fetch(p, x)); break;
    case A_ANDF: LIB(r = bfdev_atomic_and_fetch(p, x)); break;
    case A_ORF: LIB(r = bfdev_atomic_or_fetch(p, x)); break;
    case A_XORF: LIB(r = bfdev_atomic_xor_fetch(p, x)); break;
    }
    end(h, r, 0);
    alast[tid] = r;
}
static void aexec(const sim_trace *tr)
{
    int64_t s[2];
    setup(tr);
    names = anames;
    memset(alast, 0, sizeof(alast));
    av[0] = tr->cfg[1];
    av[1] = tr->cfg[2];
    s[0] = av[0];
    s[1] = av[1];
    run(tr, acall);
    for (int i = 0; i < 2; ++i) { lin_op *h = begin(A_READ, i, 0, 0); end(h, av[i], 0); }
    judge("atomic:linearizability", s, sizeof(s), astep);
    coverage();
}
static int64_t small(sim_rng *r)
{
    static const int64_t v[] = { 0, 1, 2, 3, 5, 12, 0xff, -1, -2, INT64_MAX, INT64_MIN, 0x100000000ll, 0x7fffffff };
    return sim_chance(r, 1, 2) ? sim_range(r, 0, 3) : v[sim_below(r, sizeof(v) / sizeof(*v))];
}
static void aarg(sim_rng *r, sim_op *o)
{
    o->a[1] = sim_chance(r, 1, 3) ? sim_range(r, A_READ, A_TRY) : sim_range(r, 0, A_NOPS - 1);
    o->a[2] = sim_chance(r, 1, 5);
    o->a[3] = small(r);
    o->a[4] = sim_chance(r, 1, 2) ? -100 : small(r);
}
static void agen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    threads(r, tr, 2);
    tr->cfg[1] = small(r);
    tr->cfg[2] = small(r);
    calls(r, tr, faults, 4, tier ? 40 : 24, aarg);
}
const sim_workload w_atomic = { "L02", "atomic", cfn, opn, agen, aexec, 1 };

/* ================= L03 ================= */

enum { R_GET, R_INC, R_ADD, R_DEC, R_SUB, R_DECT, R_SUBT, R_INCNZ, R_ADDNZ, R_FINC, R_FDECT, R_FINCNZ, R_FSUB, R_FDEC, R_FADDNZ, R_FINCNZ_, R_INCNZ_, R_ADDNZ_, R_NOPS };
static const char *const rnames[] = { "get", "inc", "add", "dec", "sub", "dec_test", "sub_test", "incnz_test", "addnz_test",
    "fetch_inc", "fetch_dec_test", "fetch_incnz_test", "fetch_sub", "fetch_dec", "fetch_addnz", "fetch_incnz", "incnz", "addnz" };
static bfdev_refcnt_t ref;
static int64_t held[CONC_MAXT];
static int released;

static bool rstep(void *sv, const lin_op *o, bool done)
{
    int64_t *v = sv, old = *v, n = o->arg[0], ret = 0, ret1 = 0;
    switch (o->kind) {
    case R_GET: ret = old; break;
    case R_INC: case R_ADD: *v += n; break;
    case R_FINC: *v += n; ret1 = old; break;
    case R_DEC: case R_SUB: *v -= n; break;
    case R_FSUB: case R_FDEC: *v -= n; ret1 = old; break;
    case R_FADDNZ: case R_FINCNZ_: ret1 = old; if (old) *v += n; break;
    case R_INCNZ_: case R_ADDNZ_: if (old) *v += n; break;
    case R_DECT: case R_SUBT: *v -= n; ret = !*v; break;
    case R_FDECT: *v -= n; ret = !*v; ret1 = old; break;
    case R_INCNZ: case R_ADDNZ: ret = !old; if (old) *v += n; break;
    case R_FINCNZ: ret = !old; ret1 = old; if (old) *v += n; break;
    }
    return !done || (o->ret[0] == ret && o->ret[1] == ret1);
}
static void rcall(int tid, const sim_op *o)
{
    int op = (int)((uint64_t)o->a[1] % R_NOPS);
    int64_t n = o->a[2] > 1 && (op == R_ADD || op == R_SUB || op == R_SUBT || op == R_ADDNZ || op == R_FSUB || op == R_FADDNZ || op == R_ADDNZ_) ? o->a[2] % 4 + 1 : 1;
    bfdev_atomic_t old = 0, r = 0;
    bool t = false;
    lin_op *h;
    /* only a holder may copy or drop its reference */
    if ((op == R_INC || op == R_ADD || op == R_FINC) && !held[tid]) return;
    if ((op == R_DEC || op == R_SUB || op == R_DECT || op == R_SUBT || op == R_FDECT || op == R_FSUB || op == R_FDEC)) {
        if (held[tid] < n) return;
        held[tid] -= n;
    }
    h = begin(op, n, 0, 0);
    switch (op) {
    case R_GET: LIB(r = bfdev_refcnt_get(&ref)); break;
    case R_INC: LIB(bfdev_refcnt_inc(&ref)); held[tid]++; break;
    case R_ADD: LIB(bfdev_refcnt_add(&ref, n)); held[tid] += n; break;
    case R_FINC: LIB(bfdev_refcnt_fetch_inc(&ref, &old)); held[tid]++; break;
    case R_DEC: LIB(bfdev_refcnt_dec(&ref)); break;
    case R_SUB: LIB(bfdev_refcnt_sub(&ref, n)); break;
    case R_DECT: LIB(t = bfdev_refcnt_dec_test(&ref)); break;
    case R_SUBT: LIB(t = bfdev_refcnt_sub_test(&ref, n)); break;
    case R_FDECT: LIB(t = bfdev_refcnt_fetch_dec_test(&ref, &old)); break;
    case R_FSUB: LIB(bfdev_refcnt_fetch_sub(&ref, n, &old)); break;
    case R_INCNZ: LIB(t = bfdev_refcnt_incnz_test(&ref)); if (!t) held[tid]++; break;
    case R_ADDNZ: LIB(t = bfdev_refcnt_addnz_test(&ref, n)); if (!t) held[tid] += n; break;
    case R_FINCNZ: LIB(t = bfdev_refcnt_fetch_incnz_test(&ref, &old)); if (!t) held[tid]++; break;
    case R_FDEC: LIB(bfdev_refcnt_fetch_dec(&ref, &old)); break;
    case R_FADDNZ: LIB(bfdev_refcnt_fetch_addnz(&ref, n, &old)); if (old) held[tid] += n; break;
    case R_FINCNZ_: LIB(bfdev_refcnt_fetch_incnz(&ref, &old)); if (old) held[tid]++; break;
    /* the caller is not told whether it got the reference, so it cannot use or drop it */
    case R_INCNZ_: LIB(bfdev_refcnt_incnz(&ref)); break;
    case R_ADDNZ_: LIB(bfdev_refcnt_addnz(&ref, n)); break;
    }
    end(h, op == R_GET ? r : t, old);
    if (op == R_DECT || op == R_SUBT || op == R_FDECT) {
        if (t) {
            SIM_CHECK(++released == 1, "refcnt:released-twice", "two droppers were told they dropped the last reference");
            for (int i = 0; i < nthr; ++i)
                SIM_CHECK(!held[i], "refcnt:released-in-use", "last reference reported dropped while thread %d holds %lld", i, (long long)held[i]);
        }
    } else if (op == R_FADDNZ || op == R_FINCNZ_ ? old != 0 : op != R_GET && op != R_DEC && op != R_SUB && op != R_FSUB && op != R_FDEC && op != R_INCNZ_ && op != R_ADDNZ_ && !t)
        SIM_CHECK(!released, "refcnt:revived", "a reference was taken after the last one was dropped");
}
static void rexec(const sim_trace *tr)
{
    int64_t s;
    lin_op *h;
    setup(tr);
    names = rnames;
    released = 0;
    memset(held, 0, sizeof(held));
    s = 0;
    for (int i = 0; i < nthr; ++i) s += held[i] = tr->cfg[1] >> (2 * i) & 3;
    if (!s) s = held[0] = 1;
    if (s == 1) { BFDEV_DEFINE_REFCNT(fresh); ref = fresh; } else bfdev_refcnt_set(&ref, s);
    run(tr, rcall);
    h = begin(R_GET, 0, 0, 0);
    end(h, bfdev_refcnt_get(&ref), 0);
    judge("refcnt:linearizability", &s, sizeof(s), rstep);
    coverage();
}
static void rarg(sim_rng *r, sim_op *o)
{
    static const int w[R_NOPS] = { 1, 3, 2, 1, 1, 6, 3, 6, 3, 2, 3, 3, 1, 1, 2, 2, 1, 1 };
    o->a[1] = sim_pickw(r, w, R_NOPS);
    o->a[2] = sim_range(r, 0, 4);
}
static void rgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    threads(r, tr, 2);
    tr->cfg[1] = sim_range(r, 0, 255);
    calls(r, tr, faults, 4, tier ? 44 : 26, rarg);
}
const sim_workload w_refcnt = { "L03", "refcnt", cfn, opn, rgen, rexec, 1 };

/* ================= L04 ================= */

enum { B_TEST, B_SET, B_CLR, B_FLIP, B_CHG, B_TSET, B_TCLR, B_TFLIP, B_TCHG, B_NOPS };
static const char *const bnames[] = { "test", "set", "clr", "flip", "change", "test_set", "test_clr", "test_flip", "test_change", "word" };
/* two words apart from each other in a bitmap as long as a bit number reaches */
static unsigned long *bmap, *bw;
static unsigned int bgap;
#define BMAX ((1u << 26) - 1)
/* the named flags the templates make, on the same words */
struct bpair { unsigned long lo, hi; };
BFDEV_BITFLAGS_ATOMIC(fl_far, 64)
BFDEV_BITFLAGS_STRUCT_ATOMIC(fl_lo, struct bpair, lo, 31)
BFDEV_BITFLAGS_STRUCT_ATOMIC(fl_hi, struct bpair, hi, 1)
static bool bstep(void *sv, const lin_op *o, bool done)
{
    uint64_t *w = (uint64_t *)sv + o->arg[0] / 64, m = 1ull << (o->arg[0] % 64);
    int64_t was = !!(*w & m), ret = o->kind == B_TEST || o->kind >= B_TSET ? was : 0;
    if (o->kind == B_NOPS) return !done || (uint64_t)o->ret[0] == *w;
    switch (o->kind) {
    case B_SET: case B_TSET: *w |= m; break;
    case B_CLR: case B_TCLR: *w &= ~m; break;
    case B_FLIP: case B_TFLIP: *w ^= m; break;
    case B_CHG: case B_TCHG: if (o->arg[1]) *w |= m; else *w &= ~m; break;
    }
    return !done || o->ret[0] == ret;
}
static void bcall(int tid, const sim_op *o)
{
    int op = (int)((uint64_t)o->a[1] % B_NOPS);
    unsigned int bit = (unsigned int)((uint64_t)o->a[2] % 128);
    bool v = o->a[3] & 1, r = false;
    bool flag = (o->a[3] & 6) == 6 && op != B_CHG && op != B_TCHG && bgap == 1;
    struct bpair *bp = (void *)bw;
    lin_op *h;
    (void)tid;
    if (flag) bit = bit % 3 == 0 ? 64 : bit % 3 == 1 ? 31 : 65;
    h = begin(op, bit, v, 0);
    if (bit >= 64) bit += (bgap - 1) * 64;
    if (flag) {
#define FLAG(fn, ptr) switch (op) { \
        case B_TEST: LIB(r = fn##_test(ptr)); break; \
        case B_SET: LIB(fn##_set(ptr)); break; \
        case B_CLR: LIB(fn##_clr(ptr)); break; \
        case B_FLIP: LIB(fn##_flip(ptr)); break; \
        case B_TSET: LIB(r = fn##_test_set(ptr)); break; \
        case B_TCLR: LIB(r = fn##_test_clr(ptr)); break; \
        case B_TFLIP: LIB(r = fn##_test_flip(ptr)); break; \
    }
        if (bit == 64) FLAG(fl_far, bw)
        else if (bit == 31) FLAG(fl_lo, bp)
        else FLAG(fl_hi, bp)
        sim_probe("named_flag");
    } else if ((o->a[3] & 6) == 4) {
        /* bytes counted from the far end of each word; little endian is the native order here */
        unsigned int be = bit ^ (BFDEV_BITS_PER_LONG - 8);
        bool le = o->a[3] & 8;
#define ENDIAN(fn, ...) do { if (le) LIB(bfdev_bit_atomic_##fn##_le(bw, bit, ##__VA_ARGS__)); else LIB(bfdev_bit_atomic_##fn##_be(bw, be, ##__VA_ARGS__)); } while (0)
#define ENDIANR(fn, ...) do { if (le) LIB(r = bfdev_bit_atomic_##fn##_le(bw, bit, ##__VA_ARGS__)); else LIB(r = bfdev_bit_atomic_##fn##_be(bw, be, ##__VA_ARGS__)); } while (0)
        switch (op) {
        case B_TEST: ENDIANR(test); break;
        case B_SET: ENDIAN(set); break;
        case B_CLR: ENDIAN(clr); break;
        case B_FLIP: ENDIAN(flip); break;
        case B_CHG: ENDIAN(change, v); break;
        case B_TSET: ENDIANR(test_set); break;
        case B_TCLR: ENDIANR(test_clr); break;
        case B_TFLIP: ENDIANR(test_flip); break;
        case B_TCHG: ENDIANR(test_change, v); break;
        }
        sim_probe("byte_order_form");
    } else switch (op) {
    case B_TEST: LIB(r = bfdev_bit_atomic_test(bw, bit)); break;
    case B_SET: LIB(bfdev_bit_atomic_set(bw, bit)); break;
    case B_CLR: LIB(bfdev_bit_atomic_clr(bw, bit)); break;
    case B_FLIP: LIB(bfdev_bit_atomic_flip(bw, bit)); break;
    case B_CHG: LIB(bfdev_bit_atomic_change(bw, bit, v)); break;
    case B_TSET: LIB(r = bfdev_bit_atomic_test_set(bw, bit)); break;
    case B_TCLR: LIB(r = bfdev_bit_atomic_test_clr(bw, bit)); break;
    case B_TFLIP: LIB(r = bfdev_bit_atomic_test_flip(bw, bit)); break;
    case B_TCHG: LIB(r = bfdev_bit_atomic_test_change(bw, bit, v)); break;
    }
    end(h, r, 0);
}
static void bexec(const sim_trace *tr)
{
    uint64_t s[2];
    setup(tr);
    names = bnames;
    if (!bmap) {
        bmap = mmap(NULL, (BMAX + 4ul) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (bmap == MAP_FAILED) abort();
    }
    bw = bmap + 1;
    bgap = (unsigned int)tr->cfg[3];
    if (bgap < 1 || bgap > BMAX) bgap = 1;
    if (bgap > 1) sim_probe("words_far_apart");
    bw[-1] = bw[1] = bw[bgap - 1] = 0x5555aaaa5555aaaaul;
    bw[bgap + 1] = ~bw[-1];
    s[0] = bw[0] = (unsigned long)tr->cfg[1];
    s[1] = bw[bgap] = (unsigned long)tr->cfg[2];
    run(tr, bcall);
    for (int i = 0; i < 2; ++i) { lin_op *h = begin(B_NOPS, 64 * i, 0, 0); end(h, (int64_t)bw[i ? bgap : 0], 0); }
    SIM_CHECK(bw[-1] == 0x5555aaaa5555aaaaul && bw[bgap + 1] == ~bw[-1] && (bgap < 2 || bw[1] == bw[-1]) && (bgap < 2 || bw[bgap - 1] == bw[-1]), "bit:neighbour", "words next to the addressed ones changed");
    judge("bit:linearizability", s, sizeof(s), bstep);
    coverage();
}
static void barg(sim_rng *r, sim_op *o)
{
    static const int64_t hot[] = { 0, 1, 31, 32, 63, 64, 65, 127 };
    o->a[1] = sim_range(r, 0, B_NOPS - 1);
    o->a[2] = sim_chance(r, 4, 5) ? hot[sim_below(r, sim_chance(r, 1, 2) ? 2 : 8)] : sim_range(r, 0, 127);
    o->a[3] = sim_range(r, 0, 15);
}
static void bgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    threads(r, tr, 2);
    tr->cfg[1] = sim_chance(r, 1, 2) ? 0 : (int64_t)sim_u64(r);
    tr->cfg[2] = sim_chance(r, 1, 2) ? -1 : (int64_t)sim_u64(r);
    static const int64_t gaps[] = { 2, 3, 4, 5, 8, 16, 31, 64, 127, 1023, 1024, 4096, 65536, 1 << 20, 1 << 25, BMAX - 1, BMAX };
    tr->ncfg = 4;
    tr->cfg[3] = sim_chance(r, 3, 4) ? 1 : gaps[sim_below(r, sizeof(gaps) / sizeof(*gaps))];
    calls(r, tr, faults, 4, tier ? 44 : 26, barg);
}
static const char *const bcfn[SIM_NCFG] = { "threads", "word0", "word1", "apart" };
const sim_workload w_bitop = { "L04", "bitop", bcfn, opn, bgen, bexec, 1 };
