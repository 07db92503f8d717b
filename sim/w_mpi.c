/* M01: arbitrary precision integers against a schoolbook reference in 32-bit
 * digits (shift-and-subtract division), through chains of operations that
 * share operands and destinations in every way, under allocation faults. */
#include "sim.h"
#include <bfdev/mpi.h>
#include <bfdev/dword.h>
#include <bfdev/errno.h>

enum { IMPORT, SETI, SET, ADD, SUB, MUL, DIV, MOD, ADDI, SUBI, MULI, DIVI, MODI, AND, OR, XOR, SHLI, SHRI, BSET, BCLR, BTEST, CMP, CMPI, RELEASE, NEAR, NOPS_ };
static const char *const opn[] = { "import", "seti", "set", "add", "sub", "mul", "div", "mod", "addi", "subi", "muli", "divi", "modi",
    "and", "or", "xor", "shl", "shr", "bset", "bclr", "btest", "cmp", "cmpi", "release", "import-near" };
static const char *const cfn[SIM_NCFG] = { "vars", "garbage", "budget", "limbs", "large" };

#define NV 6
#define CAPS 26                 /* limbs; longer results are not asked for */
#define CAPL 76                 /* the same where the trace wants large numbers */
#define MAXD (2 * CAPL + 8)

typedef struct big { int n; bool neg; uint32_t d[MAXD]; } big;

static big mv[NV];
static bfdev_mpi_t rv[NV];
static int nv, cap, maximp;

static void norm(big *x) { while (x->n && !x->d[x->n - 1]) x->n--; if (!x->n) x->neg = false; }
static int limbs(const big *x) { return (x->n + 1) / 2; }
static void bzero_(big *x) { x->n = 0; x->neg = false; }

static void small(big *x, uint64_t v)
{
    bzero_(x);
    x->d[0] = (uint32_t)v; x->d[1] = (uint32_t)(v >> 32); x->n = 2;
    norm(x);
}
static int mcmp(const big *a, const big *b)
{
    if (a->n != b->n) return a->n < b->n ? -1 : 1;
    for (int i = a->n; i-- > 0;) if (a->d[i] != b->d[i]) return a->d[i] < b->d[i] ? -1 : 1;
    return 0;
}
static int scmp(const big *a, const big *b)
{
    if (a->neg != b->neg) return a->neg ? -1 : 1;
    int c = mcmp(a, b);
    return a->neg ? -c : c;
}
static void madd(big *r, const big *a, const big *b)
{
    uint64_t c = 0;
    int n = a->n > b->n ? a->n : b->n;
    big t; bzero_(&t);
    for (int i = 0; i < n; ++i) {
        c += (uint64_t)(i < a->n ? a->d[i] : 0) + (i < b->n ? b->d[i] : 0);
        t.d[i] = (uint32_t)c; c >>= 32;
    }
    t.d[n] = (uint32_t)c; t.n = n + 1;
    norm(&t); *r = t;
}
static void msub(big *r, const big *a, const big *b)   /* |a| >= |b| */
{
    int64_t c = 0;
    big t; bzero_(&t);
    for (int i = 0; i < a->n; ++i) {
        c += (int64_t)a->d[i] - (i < b->n ? b->d[i] : 0);
        t.d[i] = (uint32_t)c; c >>= 32;
    }
    t.n = a->n;
    norm(&t); *r = t;
}
static void sadd(big *r, const big *a, const big *b, bool flip)
{
    bool bn = b->n ? b->neg != flip : false, an = a->neg;
    big t;
    if (an == bn || !a->n || !b->n) { madd(&t, a, b); t.neg = a->n ? an : bn; }
    else if (mcmp(a, b) >= 0) { msub(&t, a, b); t.neg = an; }
    else { msub(&t, b, a); t.neg = bn; }
    norm(&t); *r = t;
}
static void smul(big *r, const big *a, const big *b)
{
    big t; bzero_(&t);
    memset(t.d, 0, sizeof(t.d));
    for (int i = 0; i < a->n; ++i) {
        uint64_t c = 0;
        for (int j = 0; j < b->n; ++j) {
            c += (uint64_t)a->d[i] * b->d[j] + t.d[i + j];
            t.d[i + j] = (uint32_t)c; c >>= 32;
        }
        t.d[i + b->n] = (uint32_t)c;
    }
    t.n = a->n + b->n; t.neg = a->neg != b->neg;
    norm(&t); *r = t;
}
static void mdiv(big *q, big *r, const big *a, const big *b)   /* magnitudes, b != 0 */
{
    big tq, tr; bzero_(&tq); bzero_(&tr);
    memset(tq.d, 0, sizeof(tq.d));
    tq.n = a->n;
    for (int i = a->n * 32; i-- > 0;) {
        uint32_t c = (a->d[i / 32] >> (i % 32)) & 1;
        for (int k = 0; k < tr.n; ++k) { uint32_t t = tr.d[k]; tr.d[k] = t << 1 | c; c = t >> 31; }
        if (c) tr.d[tr.n++] = c;
        if (mcmp(&tr, b) >= 0) { msub(&tr, &tr, b); tq.d[i / 32] |= 1u << (i % 32); }
    }
    norm(&tq); *q = tq; *r = tr;
}
static void mshl(big *r, const big *a, unsigned s)
{
    big t; bzero_(&t);
    memset(t.d, 0, sizeof(t.d));
    for (int i = 0; i < a->n; ++i) {
        uint64_t v = (uint64_t)a->d[i] << (s % 32);
        t.d[i + s / 32] |= (uint32_t)v; t.d[i + s / 32 + 1] |= (uint32_t)(v >> 32);
    }
    t.n = a->n + (int)(s / 32) + 1; t.neg = a->neg;
    norm(&t); *r = t;
}
static void mshr(big *r, const big *a, unsigned s)
{
    big t; bzero_(&t);
    for (int i = (int)(s / 32); i < a->n; ++i) {
        uint64_t v = a->d[i] | (i + 1 < a->n ? (uint64_t)a->d[i + 1] << 32 : 0);
        t.d[i - (int)(s / 32)] = (uint32_t)(v >> (s % 32)); t.n = i - (int)(s / 32) + 1;
    }
    t.neg = a->neg;
    norm(&t); *r = t;
}
static void mlogic(big *r, const big *a, const big *b, int k)
{
    big t; bzero_(&t);
    t.n = a->n > b->n ? a->n : b->n;
    for (int i = 0; i < t.n; ++i) {
        uint32_t x = i < a->n ? a->d[i] : 0, y = i < b->n ? b->d[i] : 0;
        t.d[i] = k == AND ? x & y : k == OR ? x | y : x ^ y;
    }
    norm(&t); *r = t;
}

/* values at the edges of carries, borrows and quotient guesses */
static uint64_t pat(uint64_t s)
{
    uint64_t x = sim_mix(s, 0x51);
    switch (s % 16) {
    case 0: case 1: return ~0ull;
    case 2: case 3: return 0;
    case 4: return 1;
    case 5: return 1ull << 63;
    case 6: return (1ull << 63) - 1;
    case 7: return (1ull << 63) | 1;
    case 8: return ~0ull - (x % 3);
    case 9: return x % 12;
    case 10: return 1ull << (x % 64);
    case 11: return ~0ull << (x % 64);
    case 12: return (1ull << (x % 63 + 1)) - 1;
    case 13: return 0xffffffffull + (x % 3) - 1;
    default: return sim_mix(x, s);
    }
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 4, tier ? 120 : 48);
    static const int base[NOPS_] = { 14, 4, 5, 12, 12, 10, 14, 8, 6, 8, 6, 6, 4, 4, 4, 4, 6, 6, 3, 4, 2, 3, 3, 2, 6 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == IMPORT) * 4;
    tr->ncfg = 5;
    tr->cfg[0] = sim_range(r, 1, NV);
    tr->cfg[1] = (int64_t)sim_u64(r);
    tr->cfg[2] = faults && sim_chance(r, 1, 4) ? sim_range(r, 256, 2600) : 0;
    tr->cfg[3] = sim_chance(r, 1, 3) ? 12 : sim_range(r, 1, 5);
    if ((tr->cfg[4] = sim_chance(r, 1, 8))) {   /* past what an integer reserves at first */
        tr->cfg[3] = sim_range(r, 10, 40);
        if (tr->cfg[2]) tr->cfg[2] += sim_range(r, 0, 4000);
    }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, i < tr->cfg[0] ? IMPORT : (uint32_t)sim_pickw(r, w, NOPS_));
        for (int k = 0; k < 4; ++k) o->a[k] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        if (i < tr->cfg[0]) o->a[0] = i;
        o->a[4] = (int64_t)sim_u64(r);
        if (o->kind == SHLI || o->kind == SHRI || (o->kind >= BSET && o->kind <= BTEST)) {
            static const int edge[] = { 0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192 };
            o->a[2] = sim_chance(r, 1, 2) ? edge[sim_below(r, 12)] : sim_range(r, 0, sim_chance(r, 1, 5) ? 2000 : 400);
            /* shifts no bitmap could hold: past 32 bits, and up to the end of the type */
            if (o->kind <= SHRI && sim_chance(r, 1, 8)) {
                o->a[2] = (int64_t)(sim_chance(r, 1, 2) ? (uint64_t)o->a[2] + ((uint64_t)sim_range(r, 1, 3) << 32) :
                                    sim_chance(r, 1, 2) ? UINT64_MAX - (uint64_t)o->a[2] : sim_u64(r) | (uint64_t)1 << 40);
            }
        } else if (o->kind == IMPORT || o->kind == NEAR) {
            o->a[2] = sim_range(r, 0, tr->cfg[3]);
            o->a[3] = (int64_t)sim_below(r, 2);
        }
        if (faults) sim_arm(r, o, 1, 3, 3);
    }
}

static void check(void)
{
    for (int i = 0; i < nv; ++i) {
        bool plus = true;
        const BFDEV_MPI_TYPE *p = bfdev_mpi_data(&rv[i], &plus);
        const big *m = &mv[i];
        unsigned long len = bfdev_mpi_length(&rv[i]);
        SIM_CHECK(len == (unsigned long)limbs(m), "mpi:length", "variable %d has %lu limbs, expected %d", i, len, limbs(m));
        SIM_CHECK(p, "mpi:data", "no data");
        SIM_CHECK(len || !*p, "mpi:value", "the value of zero is not zero");
        for (unsigned long k = 0; k < len; ++k) {
            uint64_t v = m->d[2 * k] | ((int)(2 * k + 1) < m->n ? (uint64_t)m->d[2 * k + 1] << 32 : 0);
            SIM_CHECK(p[k] == v, "mpi:value", "variable %d limb %lu of %lu is %#lx, expected %#llx", i, k, len, p[k], (unsigned long long)v);
        }
        if (len) SIM_CHECK(plus == !m->neg, "mpi:sign", "variable %d has the wrong sign", i);
    }
}

static void imp(big *m, const uint64_t *v, int n, bool plus)
{
    bzero_(m);
    for (int k = 0; k < n; ++k) { m->d[2 * k] = (uint32_t)v[k]; m->d[2 * k + 1] = (uint32_t)(v[k] >> 32); }
    m->n = 2 * n; m->neg = !plus;
    norm(m);
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, tr->cfg[2], (uint64_t)tr->cfg[1]);
    nv = (int)tr->cfg[0];
    if (nv < 1 || nv > NV) return;
    cap = tr->cfg[4] ? CAPL : CAPS;
    maximp = tr->cfg[4] ? 48 : 14;
    for (int i = 0; i < nv; ++i) { bzero_(&mv[i]); bfdev_mpi_init(&rv[i], (bfdev_alloc_t *)sim_heap_alloc(h)); }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int x[4], rc = 0, d2 = -1;
        bool refuse = false, nochange = false;
        for (int k = 0; k < 4; ++k) x[k] = (int)((uint64_t)o->a[k] % (uint64_t)nv);
        bfdev_mpi_t *d = &rv[x[0]], *a = &rv[x[1]], *b = &rv[x[2]], *e = &rv[x[3]];
        big *A = &mv[x[1]], *B = &mv[x[2]], res, res2, imm;
        uint64_t vi = pat((uint64_t)o->a[4]), buf[48];
        unsigned s = (unsigned)((uint64_t)o->a[2] % 4096);
        static const char *const alias[] = { "alias_none", "alias_dest_a", "alias_dest_b", "alias_dest_ab" };
        small(&imm, vi);
        bzero_(&res); bzero_(&res2);
        sim_heap_op(h, o);
        switch (o->kind) {
        case IMPORT: case NEAR: {
            int n = (int)((uint64_t)o->a[2] % (uint64_t)maximp);
            for (int k = 0; k < n; ++k) buf[k] = pat(sim_mix((uint64_t)o->a[4], (uint64_t)k));
            if (o->kind == NEAR) {      /* the value of another variable, a few bits changed */
                n = limbs(A) < maximp ? limbs(A) : maximp;
                for (int k = 0; k < n; ++k) buf[k] = A->d[2 * k] | (2 * k + 1 < A->n ? (uint64_t)A->d[2 * k + 1] << 32 : 0);
                if (n && (o->a[4] & 3)) buf[(uint64_t)o->a[4] / 4 % (uint64_t)n] += (uint64_t)((o->a[4] & 3) - 2);
            }
            imp(&res, buf, n, !(o->a[3] & 1));
            rc = bfdev_mpi_import(d, (BFDEV_MPI_TYPE *)buf, (unsigned long)n, !(o->a[3] & 1));
            break;
        }
        case SETI: res = imm; rc = bfdev_mpi_seti(d, vi); break;
        case SET: res = *A; rc = bfdev_mpi_set(d, a); break;
        case ADD: case SUB:
            if (limbs(A) >= cap || limbs(B) >= cap) continue;
            sadd(&res, A, B, o->kind == SUB);
            rc = o->kind == ADD ? bfdev_mpi_add(d, a, b) : bfdev_mpi_sub(d, a, b);
            sim_probe(alias[(x[0] == x[1]) + 2 * (x[0] == x[2])]);
            break;
        case MUL:
            if (limbs(A) + limbs(B) > cap) continue;
            smul(&res, A, B);
            rc = bfdev_mpi_mul(d, a, b);
            break;
        case DIV: case MOD:
            if (!B->n) { refuse = true; }
            else {
                mdiv(&res, &res2, A, B);
                res.neg = A->neg != B->neg; res2.neg = A->neg;
                norm(&res); norm(&res2);
                if (limbs(B) > 1) sim_probe("long_division");
            }
            if (o->kind == DIV) { d2 = x[3]; rc = bfdev_mpi_div(d, e, a, b); }
            else { res = res2; rc = bfdev_mpi_mod(d, a, b); }
            break;
        case ADDI: case SUBI:
            if (limbs(A) >= cap) continue;
            sadd(&res, A, &imm, o->kind == SUBI);
            rc = o->kind == ADDI ? bfdev_mpi_addi(d, a, vi) : bfdev_mpi_subi(d, a, vi);
            break;
        case MULI:
            if (limbs(A) >= cap) continue;
            smul(&res, A, &imm);
            rc = bfdev_mpi_muli(d, a, vi);
            break;
        case DIVI: case MODI:
            if (!vi) refuse = true;
            else {
                mdiv(&res, &res2, A, &imm);
                res.neg = res2.neg = A->neg;
                norm(&res); norm(&res2);
            }
            if (o->kind == DIVI) { d2 = x[3]; rc = bfdev_mpi_divi(d, e, a, vi); }
            else { res = res2; rc = bfdev_mpi_modi(d, a, vi); }
            break;
        case AND: case OR: case XOR:
            mlogic(&res, A, B, (int)o->kind);
            rc = o->kind == AND ? bfdev_mpi_and(d, a, b) : o->kind == OR ? bfdev_mpi_or(d, a, b) : bfdev_mpi_xor(d, a, b);
            break;
        case SHLI:
            if ((uint64_t)o->a[2] >> 32) {      /* zero, or nothing that can be held */
                rc = bfdev_mpi_shli(d, a, (uint64_t)o->a[2]);
                sim_probe("shift_beyond_memory");
                if (A->n) { refuse = true; break; }
                res = *A;
                break;
            }
            if (limbs(A) + (int)(s / 64) + 1 > cap) continue;
            mshl(&res, A, s);
            rc = bfdev_mpi_shli(d, a, s);
            break;
        case SHRI:
            if ((uint64_t)o->a[2] >> 32) {      /* everything goes */
                mshr(&res, A, CAPL * 64 + 64);
                rc = bfdev_mpi_shri(d, a, (uint64_t)o->a[2]);
                sim_probe("shift_beyond_memory");
                break;
            }
            mshr(&res, A, s);
            rc = bfdev_mpi_shri(d, a, s);
            break;
        case BSET:
            if (s >= cap * 64) continue;
            res = mv[x[0]];
            for (; res.n <= (int)(s / 32); res.n++) res.d[res.n] = 0;
            res.d[s / 32] |= 1u << (s % 32);
            rc = bfdev_mpi_bseti(d, s);
            /* zero has no sign of its own: the first bit set in it may bring either */
            if (!mv[x[0]].n && !rc) { bool plus; bfdev_mpi_data(d, &plus); res.neg = !plus; }
            break;
        case BCLR:
            res = mv[x[0]];
            if ((int)(s / 32) < res.n) res.d[s / 32] &= ~(1u << (s % 32));
            norm(&res);
            rc = bfdev_mpi_bclri(d, s);
            break;
        case BTEST: {
            bool want = (int)(s / 32) < mv[x[0]].n && (mv[x[0]].d[s / 32] >> (s % 32) & 1);
            SIM_CHECK(bfdev_mpi_btesti(d, s) == want, "mpi:btest", "bit %u reads wrong", s);
            nochange = true;
            break;
        }
        case CMP: {
            int c = bfdev_mpi_cmp(a, b), want = scmp(A, B);
            SIM_CHECK((c > 0) - (c < 0) == want, "mpi:cmp", "cmp is %d, expected %d", c, want);
            nochange = true;
            break;
        }
        case CMPI: {
            if (o->a[3] & 1) { vi = A->n ? A->d[0] | (A->n > 1 ? (uint64_t)A->d[1] << 32 : 0) : 0; small(&imm, vi); }
            int c = bfdev_mpi_cmpi(a, vi), want = scmp(A, &imm);
            SIM_CHECK((c > 0) - (c < 0) == want, "mpi:cmp", "cmpi is %d, expected %d", c, want);
            nochange = true;
            break;
        }
        case RELEASE:
            bfdev_mpi_release(d);
            bzero_(&mv[x[0]]);
            nochange = true;
            break;
        default: continue;
        }
        sim_log((uint64_t)rc);
        if (refuse) {
            bool shl = o->kind == SHLI;
            SIM_CHECK(rc, shl ? "mpi:shift-refuse" : "mpi:div-zero", shl ? "a shift of 2^32 bits and more was answered" : "division by zero was answered");
            if (!shl) sim_probe("division_by_zero");
        } else if (rc) {
            SIM_CHECK(sim_heap_failed(h), "mpi:spurious-failure", "%s failed (%d) with memory available", opn[o->kind], rc);
            sim_probe("failed_oom");
        } else if (!nochange) {
            if (d2 >= 0 && d2 != x[0]) mv[d2] = res2;
            mv[x[0]] = res;             /* one variable for both: it holds the quotient */
            sim_state(sim_mix(o->kind * 4 + (x[0] == x[1]) + 2 * (x[0] == x[2]), sim_mix((uint64_t)limbs(&res), (uint64_t)res.neg)));
        }
        check();
    }
    /* faults over: (a + b) - b == a, and everything goes back */
    sim_heap_calm(h);
    if (limbs(&mv[0]) < cap && limbs(&mv[nv - 1]) < cap) {
        BFDEV_DEFINE_MPI(t, sim_heap_alloc(h));
        SIM_CHECK(!bfdev_mpi_add(&t, &rv[0], &rv[nv - 1]) && !bfdev_mpi_sub(&t, &t, &rv[nv - 1]), "mpi:recovery", "fails after the faults stopped");
        SIM_CHECK(!bfdev_mpi_cmp(&t, &rv[0]), "mpi:identity", "(a + b) - b is not a");
        bfdev_mpi_release(&t);
    }
    for (int i = 0; i < nv; ++i) bfdev_mpi_release(&rv[i]);
    sim_heap_expect_empty(h, "mpi release");
}

const sim_workload w_mpi = { "M01", "mpi", cfn, opn, gen, exec, 4 };

/* ---- double words: the arithmetic the large integers rest on, in chains over four registers ---- */
enum { D_SET, D_ADD, D_SUB, D_MUL, D_QRNND, D_UDIV, D_UDIVD, D_GENDIV, D_NOPS };
static const char *const dopn[] = { "set", "add", "sub", "mul", "divide-normal", "divide-word", "divide-double", "multiply-back" };
static const char *const dcfn[SIM_NCFG] = { "registers" };
#define NREG 4
typedef unsigned __int128 u128;
static uint64_t dval(sim_rng *r)
{
    static const uint64_t v[] = { 0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffff00000000ull, 0xfffffffffffffffeull, ~0ull };
    switch (sim_below(r, 4)) {
    case 0: return v[sim_below(r, sizeof(v) / sizeof(*v))];
    case 1: return sim_u64(r) >> sim_below(r, 64);
    case 2: return (uint64_t)-(int64_t)sim_below(r, 10) ^ (sim_chance(r, 1, 2) ? 1ull << 63 : 0);
    }
    return sim_u64(r);
}
static void ddgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 8, 3, 3, 3, 4, 4, 8, 4 };
    int n = (int)sim_range(r, 2, tier ? 100 : 40);
    (void)faults;
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 2, NREG);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, D_NOPS));
        for (int k = 0; k < 3; ++k) o->a[k] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        o->a[3] = (int64_t)dval(r); o->a[4] = (int64_t)dval(r);
        if (o->kind != D_SET) o->a[3] = sim_range(r, 0, 3);
    }
}
static void ddexec(const sim_trace *tr)
{
    bfdev_uw_t reg[NREG][2];
    memset(reg, 0, sizeof(reg));
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int d = (int)((uint64_t)o->a[0] % NREG), a = (int)((uint64_t)o->a[1] % NREG), b = (int)((uint64_t)o->a[2] % NREG);
        u128 x = (u128)reg[a][1] << 64 | reg[a][0], y = (u128)reg[b][1] << 64 | reg[b][0], z = 0, zr = 0;
        bfdev_uw_t h = 0, l = 0, q[2] = { 1, 1 }, m[2] = { 1, 1 }, div = reg[b][0];
        int outs = (int)(o->a[3] & 3);
        switch (o->kind) {
        case D_SET: h = (uint64_t)o->a[4]; l = (uint64_t)o->a[3]; z = (u128)h << 64 | l; break;
        case D_ADD: bfdev_dword_addd(h, l, reg[a][1], reg[a][0], reg[b][1], reg[b][0]); z = x + y; break;
        case D_SUB: bfdev_sub_ddmmss(h, l, reg[a][1], reg[a][0], reg[b][1], reg[b][0]); z = x - y; break;
        case D_MUL: bfdev_umul_ppmm(h, l, reg[a][0], reg[b][outs & 1]); z = (u128)reg[a][0] * reg[b][outs & 1]; break;
        case D_QRNND:
            div |= 1ull << 63;
            h = reg[a][1]; if (h >= div) h -= div;
            l = reg[a][0]; x = (u128)h << 64 | l; z = x / div;
            { bfdev_uw_t rem; bfdev_udiv_qrnnd(q[0], rem, h, l, div); SIM_CHECK(rem == (uint64_t)(x % div), "dword:rest", "%llx:%llx by %llx leaves %llx", (unsigned long long)h, (unsigned long long)l, (unsigned long long)div, (unsigned long long)rem); }
            h = 0; l = q[0];
            break;
        case D_UDIV:
            if (!div) continue;
            z = x / div; zr = x % div;
            if (outs == 3) {    /* in place, as the large integers do it */
                memcpy(q, reg[a], sizeof(q));
                bfdev_dword_udiv(q, &m[0], q, div);
            } else
                bfdev_dword_udiv(outs & 1 ? NULL : q, outs & 2 ? NULL : &m[0], reg[a], div);
            SIM_CHECK((outs != 3 && (outs & 2)) ? m[0] == 1 : m[0] == (uint64_t)zr, "dword:rest", "%llx:%llx by %llx leaves %llx", (unsigned long long)reg[a][1], (unsigned long long)reg[a][0], (unsigned long long)div, (unsigned long long)m[0]);
            if (outs == 1 ) { q[0] = (uint64_t)z; q[1] = (uint64_t)(z >> 64); }
            l = q[0]; h = q[1];
            break;
        case D_UDIVD:
            if (!y) continue;
            z = x / y; zr = x % y;
            bfdev_dword_udivd(outs == 1 ? NULL : q, outs == 2 ? NULL : m, reg[a], reg[b]);
            SIM_CHECK(outs == 2 ? m[0] == 1 && m[1] == 1 : m[0] == (uint64_t)zr && m[1] == (uint64_t)(zr >> 64), "dword:rest", "%llx:%llx by %llx:%llx leaves %llx:%llx", (unsigned long long)reg[a][1], (unsigned long long)reg[a][0], (unsigned long long)reg[b][1], (unsigned long long)reg[b][0], (unsigned long long)m[1], (unsigned long long)m[0]);
            if (outs == 1) { q[0] = (uint64_t)z; q[1] = (uint64_t)(z >> 64); }
            l = q[0]; h = q[1];
            if (reg[b][1]) sim_probe(reg[b][1] >> 63 ? "divisor_of_full_width" : "divisor_of_two_words");
            break;
        case D_GENDIV:          /* q * div + r with a rest at or next to its bound: the division has to give both back */
            if (!div) continue;
            q[0] = reg[a][0]; m[0] = reg[a][1] % div; if (outs & 1) m[0] = div - 1; if (outs & 2) m[0] = 0;
            z = (u128)q[0] * div + m[0];
            { bfdev_uw_t src[2] = { (uint64_t)z, (uint64_t)(z >> 64) }, q2[2], r2; bfdev_dword_udiv(q2, &r2, src, div);
              SIM_CHECK(q2[0] == q[0] && !q2[1] && r2 == m[0], "dword:back", "%llx times %llx and %llx, divided again, gives %llx:%llx and %llx", (unsigned long long)q[0], (unsigned long long)div, (unsigned long long)m[0], (unsigned long long)q2[1], (unsigned long long)q2[0], (unsigned long long)r2); }
            l = (uint64_t)z; h = (uint64_t)(z >> 64);
            break;
        default: continue;
        }
        SIM_CHECK(((u128)h << 64 | l) == z, "dword:value", "%s of %llx:%llx and %llx:%llx is %llx:%llx, it should be %llx:%llx", dopn[o->kind], (unsigned long long)reg[a][1], (unsigned long long)reg[a][0], (unsigned long long)reg[b][1], (unsigned long long)reg[b][0], (unsigned long long)h, (unsigned long long)l, (unsigned long long)(z >> 64), (unsigned long long)z);
        reg[d][0] = l; reg[d][1] = h;
        sim_log(sim_mix(h, l));
        sim_state(sim_mix(o->kind, sim_mix((uint64_t)(h ? 64 - __builtin_clzll(h) : 0), (uint64_t)(l ? 64 - __builtin_clzll(l) : 0))));
    }
}
const sim_workload w_dword = { "M01", "double-word", dcfn, dopn, ddgen, ddexec, 1 };
