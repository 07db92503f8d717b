/*
 * Q03: ring buffers, flat and of records: the newest data always fits, the oldest makes
 * way, and what is left comes out in order.  The consumer stalls for long stretches.
 */
#include "sim.h"
#include <bfdev/ringbuf.h>

#define MAXLEN 40
enum { PUT, IN, GET, PEEK, OUT, OUTPEEK, STATE, HOME, RESET, LAP, NOPS_ };
static const char *const opn[] = { "put", "in", "get", "peek", "out", "out_peek", "state", "homing", "reset", "overrun" };
static const char *const cfn[SIM_NCFG] = { "kind", "size", "start", "again", "large" };

typedef struct el12 { uint32_t a, b, c; } el12;
typedef struct rops {
    size_t esize;
    unsigned rec;
    bool dynamic;
    bfdev_ringbuf_t *f;
    int (*alloc)(const bfdev_alloc_t *a, size_t size);
    void (*release)(void);
    unsigned long (*put)(uint64_t pos);
    unsigned long (*in)(const void *b, unsigned long len);
    unsigned long (*get)(void *b);
    unsigned long (*peek)(void *b);
    unsigned long (*out)(void *b, unsigned long len);
    unsigned long (*opeek)(void *b, unsigned long len);
    unsigned long (*len)(void);
    bool (*empty)(void);
    bool (*full)(void);
    unsigned long (*size)(void);
    void (*home)(void);
    void (*reset)(void);
    void (*init)(void);
    unsigned long (*elem)(void);
    unsigned long (*field)(void);
    bool (*ready)(void);
} rops;

static void fill(void *p, size_t es, uint64_t pos)
{
    uint64_t v = sim_mix(pos + 1, 0x51ed), w[4] = { v, sim_mix(v, 1), v, v };
    if (es == 1) w[0] = pos;
    for (size_t at = 0; at < es; at += sizeof(w), w[3] = sim_mix(w[3], at)) memcpy((char *)p + at, w, es - at < sizeof(w) ? es - at : sizeof(w));
}

#define COMMON(N, TYPE) \
static unsigned long N##_put(uint64_t pos) { TYPE v; fill(&v, sizeof(v), pos); return bfdev_ringbuf_put(&N, v); } \
static unsigned long N##_in(const void *b, unsigned long len) { return bfdev_ringbuf_in(&N, b, len); } \
static unsigned long N##_get(void *b) { return bfdev_ringbuf_get(&N, b); } \
static unsigned long N##_peek(void *b) { return bfdev_ringbuf_peek(&N, b); } \
static unsigned long N##_out(void *b, unsigned long len) { return bfdev_ringbuf_out(&N, b, len); } \
static unsigned long N##_opeek(void *b, unsigned long len) { return bfdev_ringbuf_out_peek(&N, b, len); } \
static unsigned long N##_len(void) { return bfdev_ringbuf_len(&N); } \
static bool N##_empty(void) { return bfdev_ringbuf_check_empty(&N); } \
static bool N##_full(void) { return bfdev_ringbuf_check_full(&N); } \
static unsigned long N##_size(void) { return bfdev_ringbuf_size(&N); } \
static void N##_home(void) { bfdev_ringbuf_homing(&N); } \
static void N##_reset(void) { bfdev_ringbuf_reset(&N); } \
static unsigned long N##_elem(void) { return bfdev_ringbuf_esize(&N); } \
static unsigned long N##_field(void) { return bfdev_ringbuf_recsize(&N); } \
static bool N##_ready(void) { return bfdev_ringbuf_initialized(&N); }
#define TABLE(N, TYPE, DYN, ALLOC, RELEASE) static const rops N##_ops = { sizeof(TYPE), sizeof(*N.rectype), DYN, &N.ringbuf, ALLOC, RELEASE, \
    N##_put, N##_in, N##_get, N##_peek, N##_out, N##_opeek, N##_len, N##_empty, N##_full, N##_size, N##_home, N##_reset, N##_init, N##_elem, N##_field, N##_ready };
#define DYNF(N, TYPE, DECL) DECL; COMMON(N, TYPE) \
static int N##_alloc(const bfdev_alloc_t *a, size_t s) { return bfdev_ringbuf_alloc(&N, a, s); } \
static void N##_free(void) { bfdev_ringbuf_free(&N); } \
static void N##_init(void) { memset(&N, 0, sizeof(N)); N = BFDEV_RINGBUF_DYNAMIC_INIT(&N); } \
TABLE(N, TYPE, true, N##_alloc, N##_free)
#define STAF(N, TYPE, DECL) DECL; COMMON(N, TYPE) \
static void N##_init(void) { memset(&N, 0, sizeof(N)); N = BFDEV_RINGBUF_INIT(&N); } \
TABLE(N, TYPE, false, NULL, NULL)

STAF(s8, uint64_t, static BFDEV_DECLARE_RINGBUF(s8, uint64_t, 8))
STAF(s2, uint8_t, static BFDEV_DECLARE_RINGBUF(s2, uint8_t, 2))
STAF(s4, el12, static BFDEV_DECLARE_RINGBUF(s4, el12, 4))
DYNF(d1, uint8_t, static BFDEV_DECLARE_RINGBUF_DYNAMIC(d1, uint8_t))
DYNF(d12, el12, static BFDEV_DECLARE_RINGBUF_DYNAMIC(d12, el12))
STAF(r1, uint8_t, static BFDEV_DECLARE_RINGBUF_RECORD(r1, uint8_t, 32, 1))
STAF(r2, uint8_t, static BFDEV_DECLARE_RINGBUF_RECORD(r2, uint8_t, 64, 2))
STAF(r12, el12, static BFDEV_DECLARE_RINGBUF_RECORD(r12, el12, 16, 1))
DYNF(rd1, uint8_t, static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(rd1, uint8_t, 1))
DYNF(rd3, uint64_t, static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(rd3, uint64_t, 3))
typedef struct el52 { uint8_t b[52]; } el52;
typedef struct el700 { uint16_t b[350]; } el700;
DYNF(d52, el52, static BFDEV_DECLARE_RINGBUF_DYNAMIC(d52, el52))
STAF(s700, el700, static BFDEV_DECLARE_RINGBUF(s700, el700, 16))
DYNF(rd700, el700, static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(rd700, el700, 2))
STAF(r72, el52, static BFDEV_DECLARE_RINGBUF_RECORD(r72, el52, 128, 1))
static const rops *const all[] = { &s8_ops, &s2_ops, &s4_ops, &d1_ops, &d12_ops, &r1_ops, &r2_ops, &r12_ops, &rd1_ops, &rd3_ops, &d52_ops, &s700_ops, &rd700_ops, &r72_ops };
#define NKINDS 14
#define LCAP 140000u                         /* of a large run */

static const rops *F;
static uint64_t size;
#define CAP 1024
static uint64_t *q;                          /* flat: the positions held, oldest first */
static unsigned nq, qhead, qroom;
static struct rec { uint64_t id; unsigned long len; } *rq;  /* records held */
static unsigned nr, rhead;
static uint64_t next, rused;
static unsigned long bound;                  /* of the length of a call */
static unsigned char *ibuf, *obuf;

static void content(unsigned long n, const unsigned char *b, const char *what)
{
    unsigned char want[704];
    for (unsigned long i = 0; i < n; ++i) {
        uint64_t pos = F->rec ? rq[rhead].id * 1000 + i * 7 : q[qhead + i];
        fill(want, F->esize, pos);
        SIM_CHECK(!memcmp(b + i * F->esize, want, F->esize), "ringbuf:content", "%s: element %lu of %lu is not the oldest data in order", what, i, n);
    }
    for (int i = 0; i < 16; ++i)
        SIM_CHECK(b[n * F->esize + i] == 0xa7, "ringbuf:overrun", "%s wrote past what it reported", what);
}
static uint64_t used(void) { return F->rec ? rused : nq; }
static void drop(unsigned n)
{
    if (F->rec) for (; n; --n, ++rhead, --nr) rused -= F->rec + rq[rhead].len;
    else { qhead += n; nq -= n; }
}
static void room(unsigned n)                /* the model's queues slide */
{
    if (F->rec) { if (rhead + nr + n > qroom) { memmove(rq, rq + rhead, nr * sizeof(*rq)); rhead = 0; } }
    else if (qhead + nq + n > qroom) { memmove(q, q + qhead, nq * sizeof(*q)); qhead = 0; }
}
static void audit(void)
{
    SIM_CHECK(F->len() == used(), "ringbuf:len", "length %lu, expected %llu", F->len(), (unsigned long long)used());
    SIM_CHECK(F->empty() == !used(), "ringbuf:empty", "emptiness misreported");
    SIM_CHECK(F->full() == (used() >= size), "ringbuf:full", "fullness misreported");
}

static unsigned long write_some(unsigned long len, bool one)
{
    unsigned long n, expect;
    if (!F->rec) {
        bool was_full = nq == size;
        for (unsigned long i = 0; i < len; ++i) fill(ibuf + i * F->esize, F->esize, next + i);
        n = one ? F->put(next) : F->in(ibuf, len);
        expect = one ? was_full : len < size ? len : size;
        SIM_CHECK(n == expect, "ringbuf:count", "%s of %lu returned %lu, expected %lu", one ? "put" : "in", len, n, expect);
        if (one) expect = 1;
        if (nq + expect > size) { sim_fault("overrun_of_a_slow_reader"); drop((unsigned)(nq + expect - size)); }
        room((unsigned)expect);
        for (unsigned long i = 0; i < expect; ++i) q[qhead + nq++] = next + i;
        next += len;
    } else {
        uint64_t max = F->rec >= 8 ? UINT64_MAX : (1ull << (8 * F->rec)) - 1;
        for (unsigned long i = 0; i < len; ++i) fill(ibuf + i * F->esize, F->esize, next * 1000 + i * 7);
        n = one ? F->put(next * 1000) : F->in(ibuf, len);
        if (F->rec > size) { SIM_CHECK(!n, "ringbuf:count", "a record was accepted by a ring smaller than its header"); return 0; }
        expect = len < size - F->rec ? len : size - F->rec;
        if (expect > max) { expect = max; sim_probe("record_cut_to_its_length_field"); }
        SIM_CHECK(n == expect, "ringbuf:count", "a record of %lu was stored as %lu, expected %lu", len, n, expect);
        while (used() + F->rec + expect > size) { sim_fault("overrun_of_a_slow_reader"); drop(1); }
        room(1);
        rq[rhead + nr].id = next;
        rq[rhead + nr++].len = expect;
        rused += F->rec + expect;
        if (expect > 65535) sim_probe("record_over_65535");
        next++;
    }
    return n;
}
static void read_some(int kind, unsigned long cap)
{
    bool take = kind == GET || kind == OUT, one = kind == GET || kind == PEEK;
    unsigned long n, expect, have = F->rec ? nr ? rq[rhead].len : 0 : nq;
    if (one) cap = 1;
    memset(obuf, 0xa7, cap * F->esize + 16);
    n = kind == GET ? F->get(obuf) : kind == PEEK ? F->peek(obuf) : kind == OUT ? F->out(obuf, cap) : F->opeek(obuf, cap);
    expect = have < cap ? have : cap;
    SIM_CHECK(n == expect, "ringbuf:count", "%s with room for %lu returned %lu, expected %lu", opn[kind], cap, n, expect);
    content(n, obuf, opn[kind]);
    if (!take) return;
    if (F->rec) { if (nr) drop(1); }
    else drop((unsigned)n);
}

static void exec(const sim_trace *tr)
{
    sim_heap *heap = sim_heap_new(100, 0, 0x77);
    int lives = tr->cfg[3] ? 0 : 1;
    F = all[(uint64_t)tr->cfg[0] % NKINDS];
    bool large = tr->cfg[4] && F->esize <= 12;
    bound = large ? 2 * LCAP : CAP + MAXLEN;
    if (large) { sim_slow(60); sim_probe("large_ring"); }
    qroom = large ? 4 * LCAP : 4 * CAP;
    q = sim_tmp(sizeof(*q) * (qroom + 8)); rq = sim_tmp(sizeof(*rq) * (qroom + 8));
    F->init();
again:
    nq = nr = qhead = rhead = 0;
    next = rused = 0;
    ibuf = sim_tmp(bound * F->esize + 64);
    obuf = sim_tmp(bound * F->esize + 64);
    if (F->dynamic) {
        SIM_CHECK(!F->ready(), "ringbuf:ready", "a ring without memory reports itself ready");
        uint64_t ask = (uint64_t)tr->cfg[1] % (large ? LCAP : CAP + 1), p2 = 2;
        int rc;
        if (tr->nops) sim_heap_op(heap, &tr->ops[0]);
        rc = F->alloc(sim_heap_alloc(heap), ask);
        if (sim_heap_failed(heap)) {
            SIM_CHECK(rc, "ringbuf:alloc", "allocation failed but the ring was reported ready");
            SIM_CHECK(!sim_heap_blocks(heap), "ringbuf:leak", "a failed allocation left a block behind");
            sim_heap_calm(heap);
            rc = F->alloc(sim_heap_alloc(heap), ask);
        }
        if (ask < 2) { SIM_CHECK(rc || F->size() >= 2, "ringbuf:alloc", "a ring of %llu was accepted", (unsigned long long)ask); if (rc) return; }
        else SIM_CHECK(!rc, "ringbuf:alloc", "allocation failed with memory available");
        while (p2 < ask) p2 *= 2;
        SIM_CHECK(F->size() == p2, "ringbuf:size", "asked for %llu, got %lu", (unsigned long long)ask, F->size());
        sim_heap_calm(heap);
    }
    size = F->size();
    SIM_CHECK(F->ready(), "ringbuf:ready", "a ring in use does not report itself ready");
    SIM_CHECK(F->elem() == F->esize, "ringbuf:size", "the element size is reported as %lu", F->elem());
    SIM_CHECK(F->field() == F->rec, "ringbuf:size", "the length field is reported as %lu bytes", F->field());
    if (tr->cfg[2]) { F->f->in = F->f->out = (unsigned long)-(uint64_t)tr->cfg[2]; sim_fault("index_wrap"); }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        unsigned long len = (unsigned long)((uint64_t)o->a[0] % bound);
        switch (o->kind) {
        case PUT: write_some(1, true); break;
        case IN: write_some(len, false); break;
        case LAP: for (int k = 0; k < (int)(o->a[0] & 63); ++k) write_some((unsigned long)(1 + k % 5), k % 3 == 0 && (k % 5) == 0); break;
        case GET: case PEEK: case OUT: case OUTPEEK: read_some((int)o->kind, len); break;
        case HOME: F->home(); nq = nr = 0; rused = 0; break;
        case RESET: F->reset(); nq = nr = 0; rused = 0; break;
        }
        audit();
        sim_state(sim_mix(o->kind * 16 + (uint64_t)tr->cfg[0], used() * 64 + (F->f->in & F->f->mask & 63)));
    }
    for (unsigned guard = 0; used(); ++guard) {
        SIM_CHECK(guard <= size + 8, "ringbuf:endless", "the ring never drains");
        read_some(guard % 2 ? OUT : GET, large ? 5000 : 5);
    }
    audit();
    if (F->dynamic) {
        F->release();
        sim_heap_expect_empty(heap, "ringbuf");
        if (!lives++) goto again;           /* the same ring can be given memory again */
    }
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 8, 6, 6, 3, 6, 3, 0, 1, 1, faults ? 2 : 0 }, n = (int)sim_range(r, 4, tier ? 200 : 60), big = sim_chance(r, 1, 8);
    int large = sim_chance(r, 1, 200);
    tr->ncfg = 5;
    tr->cfg[4] = large;
    if (large) n = (int)sim_range(r, 2, 12);
    tr->cfg[3] = sim_chance(r, 1, 6);
    tr->cfg[0] = large ? sim_chance(r, 1, 2) ? sim_range(r, 3, 4) : sim_range(r, 8, 9) : sim_range(r, 0, NKINDS - 1);
    tr->cfg[1] = sim_chance(r, 1, 40) ? sim_range(r, 0, 1) : big ? sim_range(r, 200, CAP) : sim_range(r, 2, sim_chance(r, 1, 2) ? 8 : 33);
    if (large) tr->cfg[1] = sim_range(r, 30000, LCAP - 1);
    tr->cfg[2] = !faults || sim_chance(r, 1, 2) ? 0 : sim_range(r, 1, 60);
    for (int i = 0; i < NOPS_; ++i) w[i] *= (int)sim_range(r, 0, 3);
    w[IN] += 2; w[OUT] += 2;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, big && sim_chance(r, 1, 2) ? CAP + 8 : sim_chance(r, 1, 4) ? MAXLEN : 6);
        if (large) o->a[0] = sim_chance(r, 1, 2) ? sim_range(r, 60000, 180000) : sim_range(r, 0, sim_chance(r, 1, 2) ? 300 : 70000);
        if (!i && faults && sim_chance(r, 1, 4)) { o->fskip = 0; o->fcount = 1; }
    }
}
const sim_workload w_ringbuf = { "Q03", "ringbuf", cfn, opn, gen, exec, 1 };
