/*
 * Q01: one-producer one-consumer FIFO without a lock, Q02: the same for a FIFO of records.
 * The producer's stream is a function of the position, so the consumer can tell a lost,
 * repeated, reordered, torn or unpublished element by looking at it.  How much a call
 * may move is bounded by what the other side had surely done when it began and can
 * have done when it ended.
 */
#include "conc.h"
#include <bfdev/fifo.h>

#define LIMIT 2000000
#define MAXLEN 20
#define BULKLEN 700
enum { PUT = CONC_OPS, IN, GET, PEEK, OUT, OUTPEEK, STATE, HOME, NOPS_ };
static const char *const opn[] = { CONC_OPNAMES, "put", "in", "get", "peek", "out", "out_peek", "state", "homing" };
static const char *const cfn[SIM_NCFG] = { "kind", "size", "start", "kind-of-index", "large", "filled", "arithmetic" };

typedef struct el12 { uint32_t a, b, c; } el12;

/* one set of calls per element type; the objects are globals of this file */
typedef struct fops {
    const char *name;
    size_t esize;
    bool dynamic;
    bfdev_fifo_t *f;
    int (*alloc)(const bfdev_alloc_t *a, size_t size);
    void (*release)(void);
    unsigned long (*put)(uint64_t pos);
    unsigned long (*in)(const void *b, unsigned long len);
    unsigned long (*get)(void *b);
    unsigned long (*peek)(void *b);
    unsigned long (*out)(void *b, unsigned long len);
    unsigned long (*opeek)(void *b, unsigned long len);
    unsigned long (*len)(void);
    bool (*empty)(void);
    bool (*full)(void);
    unsigned long (*size)(void);
    void (*home)(void);
    void (*init)(void);
    unsigned long (*elem)(void);
    unsigned long (*field)(void);
    bool (*ready)(void);
    void (*reset)(void);
} fops;

static uint64_t mixpos(uint64_t pos) { return sim_mix(pos + 1, 0x51ed); }
static void fill(void *p, size_t es, uint64_t pos)
{
    uint64_t v = mixpos(pos), w[4] = { v, sim_mix(v, 1), v, v };
    if (es == 1) w[0] = pos;            /* neighbouring positions differ for sure */
    if (es > sizeof(w)) es = sizeof(w);
    __builtin_memcpy(p, w, es);
}

#define COMMON(N, TYPE) \
static unsigned long N##_put(uint64_t pos) { TYPE v; unsigned long r = 0; fill(&v, sizeof(v), pos); LIB(r = bfdev_fifo_put(&N, v)); return r; } \
static unsigned long N##_in(const void *b, unsigned long len) { unsigned long r = 0; LIB(r = bfdev_fifo_in(&N, b, len)); return r; } \
static unsigned long N##_get(void *b) { unsigned long r = 0; LIB(r = bfdev_fifo_get(&N, b)); return r; } \
static unsigned long N##_peek(void *b) { unsigned long r = 0; LIB(r = bfdev_fifo_peek(&N, b)); return r; } \
static unsigned long N##_out(void *b, unsigned long len) { unsigned long r = 0; LIB(r = bfdev_fifo_out(&N, b, len)); return r; } \
static unsigned long N##_opeek(void *b, unsigned long len) { unsigned long r = 0; LIB(r = bfdev_fifo_out_peek(&N, b, len)); return r; } \
static unsigned long N##_len(void) { unsigned long r = 0; LIB(r = bfdev_fifo_len(&N)); return r; } \
static bool N##_empty(void) { bool r = false; LIB(r = bfdev_fifo_check_empty(&N)); return r; } \
static bool N##_full(void) { bool r = false; LIB(r = bfdev_fifo_check_full(&N)); return r; } \
static unsigned long N##_size(void) { return bfdev_fifo_size(&N); } \
static void N##_home(void) { LIB(bfdev_fifo_homing(&N)); } \
static unsigned long N##_elem(void) { return bfdev_fifo_esize(&N); } \
static unsigned long N##_field(void) { return bfdev_fifo_recsize(&N); } \
static bool N##_ready(void) { return bfdev_fifo_initialized(&N); } \
static void N##_reset(void) { bfdev_fifo_reset(&N); }
#define TABLE(N, TYPE, DYN, ALLOC, RELEASE) static const fops N##_ops = { #N, sizeof(TYPE), DYN, &N.fifo, ALLOC, RELEASE, \
    N##_put, N##_in, N##_get, N##_peek, N##_out, N##_opeek, N##_len, N##_empty, N##_full, N##_size, N##_home, N##_init, N##_elem, N##_field, N##_ready, N##_reset };
#define DYNF(N, TYPE, DECL, INIT) DECL; COMMON(N, TYPE) \
static int N##_alloc(const bfdev_alloc_t *a, size_t s) { return bfdev_fifo_alloc(&N, a, s); } \
static void N##_free(void) { bfdev_fifo_free(&N); } \
static void N##_init(void) { INIT; } \
TABLE(N, TYPE, true, N##_alloc, N##_free)
#define STAF(N, TYPE, DECL, INIT) DECL; COMMON(N, TYPE) \
static void N##_init(void) { INIT; } \
TABLE(N, TYPE, false, NULL, NULL)
#define REINIT_S(N) memset(&N, 0, sizeof(N)); N = BFDEV_FIFO_INIT(&N)
#define REINIT_D(N) memset(&N, 0, sizeof(N)); N = BFDEV_FIFO_DYNAMIC_INIT(&N)

STAF(s8, uint64_t, static BFDEV_DECLARE_FIFO(s8, uint64_t, 8), REINIT_S(s8))
STAF(s2, uint8_t, static BFDEV_DECLARE_FIFO(s2, uint8_t, 2), REINIT_S(s2))
STAF(s4, el12, static BFDEV_DECLARE_FIFO(s4, el12, 4), REINIT_S(s4))
DYNF(d1, uint8_t, static BFDEV_DECLARE_FIFO_DYNAMIC(d1, uint8_t), REINIT_D(d1))
DYNF(d8, uint64_t, static BFDEV_DECLARE_FIFO_DYNAMIC(d8, uint64_t), REINIT_D(d8))
DYNF(d12, el12, static BFDEV_DECLARE_FIFO_DYNAMIC(d12, el12), REINIT_D(d12))
static const fops *const flat[] = { &s8_ops, &s2_ops, &s4_ops, &d1_ops, &d8_ops, &d12_ops };

STAF(r1, uint8_t, static BFDEV_DECLARE_FIFO_RECORD(r1, uint8_t, 32, 1), REINIT_S(r1))
STAF(r2, uint8_t, static BFDEV_DECLARE_FIFO_RECORD(r2, uint8_t, 64, 2), REINIT_S(r2))
STAF(r12, el12, static BFDEV_DECLARE_FIFO_RECORD(r12, el12, 16, 1), REINIT_S(r12))
DYNF(rd1, uint8_t, static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(rd1, uint8_t, 1), REINIT_D(rd1))
DYNF(rd3, uint64_t, static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(rd3, uint64_t, 3), REINIT_D(rd3))
static const fops *const records[] = { &r1_ops, &r2_ops, &r12_ops, &rd1_ops, &rd3_ops };
static const unsigned recsz[] = { 1, 2, 1, 1, 3 };

static const fops *F;
static const sim_trace *T;
static uint64_t size, recs;
static unsigned char obuf[1200 * 16 + 64], ibuf[1200 * 16];


/*
 * What each side has done, in positions of the stream: completed calls, and as far as
 * the pending call can reach.  A range instead of a position is only left behind by a
 * call that did not return (its thread was ended) or by homing.
 */
static uint64_t prod, prod_max, cons, cons_max;
static uint64_t minus(uint64_t a, uint64_t b) { return a > b ? a - b : 0; }

static int64_t find_el(const unsigned char *b, uint64_t lo, uint64_t hi)
{
    unsigned char want[32];
    for (uint64_t p = lo; p <= hi; ++p) {
        fill(want, F->esize, p);
        if (!memcmp(b, want, F->esize)) return (int64_t)p;
    }
    return -1;
}
static void check_stream(const unsigned char *b, unsigned long n, uint64_t pos, const char *what)
{
    unsigned char want[32];
    for (unsigned long i = 0; i < n; ++i) {
        fill(want, F->esize, pos + i);
        if (memcmp(b + i * F->esize, want, F->esize))
            sim_fail("fifo:stream", "%s: element %llu of the stream reads as element %lld (%llu put, %llu taken)", what,
                     (unsigned long long)(pos + i), (long long)find_el(b + i * F->esize, 0, prod_max + 4),
                     (unsigned long long)prod, (unsigned long long)cons);
    }
}
#define GUARD 0xa7
static void arm_guard(unsigned char *b, unsigned long n) { memset(b, GUARD, n * F->esize + 32); }
static void check_guard(const unsigned char *b, unsigned long n, const char *what)
{
    for (int i = 0; i < 32; ++i)
        SIM_CHECK(b[n * F->esize + i] == GUARD, "fifo:overrun", "%s wrote past what it reported", what);
}

/* lower bound from what was complete at the call, upper from what may have happened by its end */
static void bound(unsigned long got, unsigned long want, uint64_t lo, uint64_t hi, const char *what)
{
    uint64_t l = lo < want ? lo : want, h = hi < want ? hi : want;
    SIM_CHECK(got >= l && got <= h, "fifo:count", "%s moved %lu, possible are %llu to %llu (size %llu, %llu put, %llu taken)", what, got,
              (unsigned long long)l, (unsigned long long)h, (unsigned long long)size, (unsigned long long)prod, (unsigned long long)cons);
}

static void producer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops; ++i) {
        const sim_op *o = &T->ops[i];
        unsigned long n, want;
        uint64_t lo;
        if (o->kind == PUT || o->kind == IN) {
            want = o->kind == PUT ? 1 : (unsigned long)((uint64_t)o->a[0] % (BULKLEN + 1));
            for (unsigned long k = 0; k < want; ++k) fill(ibuf + k * F->esize, F->esize, prod + k);
            lo = minus(size, minus(prod, cons));
            prod_max = prod + want;
            n = o->kind == PUT ? F->put(prod) : F->in(ibuf, want);
            bound(n, want, lo, minus(size, minus(prod, cons_max)), o->kind == PUT ? "put" : "in");
            if (n < want) sim_probe("producer_saw_a_full_queue");
            prod = prod_max = prod + n;
            sim_log(n);
            sim_state(sim_mix((uint64_t)o->kind * 64 + n, (prod - cons) * 64 + (prod & F->f->mask)) + (cons != cons_max));
        } else if (o->kind == STATE && !(o->a[0] & 1)) {
            uint64_t l, was = cons;
            bool full;
            l = F->len();
            SIM_CHECK(l <= minus(prod, was) && l >= minus(prod, cons_max) && l <= size, "fifo:len", "the producer reads length %llu (%llu put, %llu taken)",
                      (unsigned long long)l, (unsigned long long)prod, (unsigned long long)cons);
            was = cons;
            full = F->full();
            if (full) SIM_CHECK(minus(prod, was) >= size, "fifo:full", "a queue with room reads as full to its producer");
            else SIM_CHECK(minus(prod, cons_max) < size, "fifo:full", "a full queue reads as having room to its producer");
        }
    }
}

/* takes or peeks; the position may have to be found out first */
static void read_some(const sim_op *o)
{
    bool take = o->kind == GET || o->kind == OUT, one = o->kind == GET || o->kind == PEEK;
    unsigned long n, want = one ? 1 : (unsigned long)((uint64_t)o->a[0] % (BULKLEN + 1));
    uint64_t lo = prod > cons_max ? prod - cons_max : 0, c0 = cons, c1 = cons_max;
    const char *what = opn[o->kind];
    arm_guard(obuf, want);
    if (take) cons_max += want;
    n = o->kind == GET ? F->get(obuf) : o->kind == PEEK ? F->peek(obuf) : o->kind == OUT ? F->out(obuf, want) : F->opeek(obuf, want);
    bound(n, want, lo, prod_max - c0, what);
    if (n && c0 != c1) {
        int64_t at = find_el(obuf, c0, c1);
        if (at < 0) check_stream(obuf, 1, c0, what);
        c0 = c1 = (uint64_t)at;
    }
    check_stream(obuf, n, c0, what);
    check_guard(obuf, n, what);
    if (n < want) sim_probe("consumer_saw_an_empty_queue");
    cons = take ? c0 + n : c0;
    cons_max = take ? c1 + n : c1;
    sim_log(n);
    sim_state(sim_mix((uint64_t)o->kind * 64 + n, (prod - cons) * 64 + (cons & F->f->mask)) + 2 * (prod != prod_max));
}
static void consumer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops; ++i) {
        const sim_op *o = &T->ops[i];
        uint64_t lo;
        switch (o->kind) {
        case GET: case OUT: case PEEK: case OUTPEEK:
            read_some(o);
            break;
        case STATE: {
            uint64_t l;
            bool e;
            if (!(o->a[0] & 1)) break;
            lo = prod > cons_max ? prod - cons_max : 0;
            l = F->len();
            SIM_CHECK(l >= lo && l <= prod_max - cons && l <= size, "fifo:len", "the consumer reads length %llu", (unsigned long long)l);
            lo = prod > cons_max ? prod - cons_max : 0;
            e = F->empty();
            if (e) SIM_CHECK(!lo, "fifo:empty", "a queue with elements reads as empty to its consumer");
            else SIM_CHECK(prod_max > cons, "fifo:empty", "an empty queue reads as having elements");
            break;
        }
        case HOME:
            lo = prod;
            cons_max = prod_max + 4 * size + 64;        /* while it runs: anywhere */
            F->home();
            cons = lo > cons ? lo : cons;
            cons_max = prod_max > cons ? prod_max : cons;
            sim_probe("homing");
            break;
        }
    }
}

static bool boot(const sim_trace *tr, sim_heap *heap, const fops *f)
{
    uint64_t ask = (uint64_t)tr->cfg[1] % 1025, p2 = 2;
    F = f;
    F->init();
    if (F->dynamic) {
        const bfdev_alloc_t *a = sim_heap_alloc(heap);
        int rc;
        SIM_CHECK(!F->ready(), "fifo:ready", "a queue without memory reports itself ready");
        if (tr->nops && tr->ops[0].fskip >= 0) sim_heap_op(heap, &tr->ops[0]);
        rc = F->alloc(a, ask);
        if (sim_heap_failed(heap)) {
            SIM_CHECK(rc, "fifo:alloc", "allocation failed but the queue was reported ready");
            SIM_CHECK(!sim_heap_blocks(heap), "fifo:leak", "a failed allocation left a block behind");
            sim_heap_calm(heap);
            rc = F->alloc(a, ask);
        }
        if (ask < 2) { SIM_CHECK(rc || F->size() >= 2, "fifo:alloc", "a queue of %llu elements was accepted", (unsigned long long)ask); if (rc) return false; }
        else SIM_CHECK(!rc, "fifo:alloc", "allocating %llu elements failed with memory available", (unsigned long long)ask);
        while (p2 < ask) p2 *= 2;
        SIM_CHECK(F->size() == p2, "fifo:size", "asked for %llu elements, got %lu", (unsigned long long)ask, F->size());
    }
    size = F->size();
    SIM_CHECK(F->ready(), "fifo:ready", "a queue in use does not report itself ready");
    SIM_CHECK(F->elem() == F->esize, "fifo:size", "the element size is reported as %lu", F->elem());
    if (tr->cfg[2]) {           /* a queue that has been in use for a long time */
        F->f->in = F->f->out = (unsigned long)-(uint64_t)tr->cfg[2];
        sim_fault("index_wrap");
    }
    T = tr;
    prod = prod_max = cons = cons_max = 0;
    return true;
}
static void shutdown_(sim_heap *heap)
{
    while (F->put(1));
    F->reset();
    SIM_CHECK(F->empty() && !F->len(), "fifo:len", "a queue that was reset is not empty");
    if (!F->dynamic) return;
    F->release();
    sim_heap_expect_empty(heap, "fifo");
    SIM_CHECK(!F->ready(), "fifo:ready", "a released queue reports itself ready");
    /* the same queue, or memory that never was one, can be set up again and works */
    memset(F->f, 0x5a, sizeof(*F->f));
    SIM_CHECK(!F->alloc(sim_heap_alloc(heap), 4), "fifo:alloc", "a released queue cannot be set up again");
    SIM_CHECK(F->ready() && F->size() == 4 && F->empty() && !F->len(), "fifo:size", "a queue set up again has %lu slots and length %lu", F->size(), F->len());
    for (uint64_t round = 0; round < 3; ++round) {
        uint64_t n = 4 / (1 + F->field());
        unsigned char got[16], want[32];
        for (uint64_t i = 0; i < n; ++i) SIM_CHECK(F->put(round * 8 + i), "fifo:count", "a queue set up again refuses element %llu", (unsigned long long)i);
        SIM_CHECK(!F->put(99), "fifo:count", "a full queue accepts an element");
        for (uint64_t i = 0; i < n; ++i) {
            fill(want, F->esize, round * 8 + i);
            SIM_CHECK(F->get(got) && !memcmp(got, want, F->esize), "fifo:stream", "a queue set up again returns something else than was put");
        }
        SIM_CHECK(!F->get(got) && F->empty(), "fifo:count", "an empty queue has an element");
    }
    F->release();
    sim_heap_expect_empty(heap, "fifo");
}

static void fexec(const sim_trace *tr)
{
    sim_heap *heap = sim_heap_new(100, 0, 0x77);
    uint64_t left = 0, limit;
    sim_op o = { .kind = GET, .fskip = -1 };
    if (!boot(tr, heap, flat[(uint64_t)tr->cfg[0] % 6])) return;
    conc_spawn(producer, NULL);
    conc_spawn(consumer, NULL);
    conc_run(tr, LIMIT);
    /* whoever is left, or a successor of the one that ended, finds the rest */
    limit = prod_max > cons ? prod_max - cons : 0;
    while (!F->empty()) {
        uint64_t before = cons_max;
        o.a[0] = 7;
        o.kind = left % 3 ? OUT : GET;
        read_some(&o);
        (void)before;
        SIM_CHECK(++left <= limit + 1, "fifo:endless", "more elements than were put");
    }
    SIM_CHECK(cons_max >= prod, "fifo:lost", "%llu elements were put, the stream ends at %llu", (unsigned long long)prod, (unsigned long long)cons_max);
    SIM_CHECK(F->len() == 0, "fifo:len", "an empty queue has length %lu", F->len());
    /* and it still works */
    SIM_CHECK(F->put(prod_max), "fifo:count", "an empty queue refuses an element");
    prod = cons = cons_max = prod_max;
    prod_max++; prod++;
    o.kind = GET;
    read_some(&o);
    shutdown_(heap);
}
static void sched(sim_rng *r, sim_trace *tr, int faults, int nops, int cost)
{
    conc_gen(r, tr, 2, (nops / 2 + 1) * cost, faults);
}
static void common_gen(sim_rng *r, sim_trace *tr, int kinds, int faults)
{
    tr->ncfg = 4;
    tr->cfg[0] = sim_range(r, 0, kinds - 1);
    tr->cfg[1] = sim_chance(r, 1, 40) ? sim_range(r, 0, 1) : sim_range(r, 2, sim_chance(r, 1, 2) ? 8 : 33);
    tr->cfg[2] = sim_chance(r, 1, 2) ? 0 : sim_range(r, 1, 40);
    tr->cfg[3] = 0;
    (void)faults;
}
static void fgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 0, 0, 0, 8, 4, 8, 2, 4, 2, 3, sim_chance(r, 1, 4) }, n = (int)sim_range(r, 4, tier ? 120 : 40);
    common_gen(r, tr, 6, faults);
    bool big = sim_chance(r, 1, 80);
    if (big) { tr->cfg[0] = sim_range(r, 4, 5);       /* elements that tell their position */ tr->cfg[1] = sim_range(r, 200, 1024); }
    for (int i = CONC_OPS; i < HOME; ++i) w[i] *= (int)sim_range(r, 0, 3);
    w[PUT] += 2; w[GET] += 2;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, big && sim_chance(r, 1, 2) ? BULKLEN : sim_chance(r, 1, 3) ? MAXLEN : 5);
        if (!i && faults && sim_chance(r, 1, 4)) { o->fskip = 0; o->fcount = 1; }
    }
    sched(r, tr, faults, n, 12);
}
const sim_workload w_fifo = { "Q01", "fifo", cfn, opn, fgen, fexec, 1 };

/* ================= records ================= */

#define MAXREC 512
#define BIG 700
static struct { uint32_t len, id; uint64_t end; } rec[MAXREC];    /* end: stream elements up to and with this one */
static uint64_t nrec_done, nrec_max, taken, taken_max;
static uint64_t upto(uint64_t k) { return k ? rec[k - 1].end : 0; }
static void rfill(unsigned char *b, uint64_t id, unsigned long len)
{
    for (unsigned long k = 0; k < len; ++k) fill(b + k * F->esize, F->esize, id * 1000 + k * 7);
}
static uint64_t fieldmax(void) { return recs >= 8 ? UINT64_MAX : (1ull << (8 * recs)) - 1; }

static void rproducer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops && nrec_done < MAXREC - 1; ++i) {
        const sim_op *o = &T->ops[i];
        unsigned long n, len;
        uint64_t need, free_lo, free_hi;
        if (o->kind != PUT && o->kind != IN) continue;
        len = o->kind == PUT ? 1 : 1 + (unsigned long)((uint64_t)o->a[0] % BIG);
        need = len + recs;
        rec[nrec_done].len = (uint32_t)len;
        rec[nrec_done].end = upto(nrec_done) + need;
        free_lo = minus(size, minus(upto(nrec_done), upto(taken)));
        nrec_max = nrec_done + 1;
        if (o->kind == PUT) {
            fill(ibuf, F->esize, nrec_done * 1000);
            n = F->put(nrec_done * 1000);
        } else {
            rfill(ibuf, nrec_done, len);
            n = F->in(ibuf, len);
        }
        free_hi = minus(size, minus(upto(nrec_done), upto(taken_max < nrec_done ? taken_max : nrec_done)));
        SIM_CHECK(n == len || n == 0, "record:partial", "a record of %lu was accepted as %lu", len, n);
        if (n) {
            SIM_CHECK(len <= fieldmax(), "record:length", "a record of %lu was accepted with a length field of %llu bytes", len, (unsigned long long)recs);
            SIM_CHECK(need <= free_hi, "record:count", "a record of %lu was accepted with %llu elements free", len, (unsigned long long)free_hi);
            nrec_done++;
        } else {
            sim_probe("record_refused");
            SIM_CHECK(need > free_lo || len > fieldmax(), "record:count", "a record of %lu was refused with %llu elements free", len, (unsigned long long)free_lo);
        }
        nrec_max = nrec_done;
        sim_log(n);
        sim_state(sim_mix(n, (upto(nrec_done) - upto(taken)) * 64 + (upto(nrec_done) & F->f->mask)) + (taken != taken_max));
    }
}
static void rread(const sim_op *o)
{
    bool take = o->kind == GET || o->kind == OUT, one = o->kind == GET || o->kind == PEEK;
    unsigned long n, cap = one ? 1 : 1 + (unsigned long)((uint64_t)o->a[0] % BIG), full;
    uint64_t lo = nrec_done, c0 = taken, c1 = taken_max, id;
    const char *what = opn[o->kind];
    static unsigned char want[BIG * 16 + 64];
    arm_guard(obuf, cap);
    if (take) taken_max++;
    n = o->kind == GET ? F->get(obuf) : o->kind == PEEK ? F->peek(obuf) : o->kind == OUT ? F->out(obuf, cap) : F->opeek(obuf, cap);
    sim_log(n);
    taken_max = c1;
    if (!n) {
        SIM_CHECK(c1 >= lo, "record:lost", "%s found nothing, %llu records were put and %llu taken", what, (unsigned long long)lo, (unsigned long long)c1);
        return;
    }
    /* a reader that replaces one which ended may find either the record or its successor */
    for (id = c0; id <= c1; ++id) {
        if (id >= nrec_max) sim_fail("record:invented", "%s found a record, %llu were put and %llu taken", what, (unsigned long long)nrec_max, (unsigned long long)c0);
        full = rec[id].len < cap ? rec[id].len : cap;
        rfill(want, id, full);
        if (n == full && !memcmp(obuf, want, n * F->esize)) break;
    }
    if (id > c1)
        sim_fail("record:content", "%s with room for %lu found %lu elements that are not record %llu (length %u)", what, cap, n,
                 (unsigned long long)c0, rec[c0].len);
    check_guard(obuf, n, what);
    if (n < rec[id].len) sim_probe("record_cut_to_the_callers_buffer");
    taken = taken_max = take ? id + 1 : id;
    sim_state(sim_mix((uint64_t)o->kind * 64 + n, (upto(nrec_done) - upto(taken)) * 64 + (upto(taken) & F->f->mask)) + 2 * (nrec_done != nrec_max));
}
static void rconsumer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops; ++i) {
        const sim_op *o = &T->ops[i];
        if (o->kind == GET || o->kind == OUT || o->kind == PEEK || o->kind == OUTPEEK) rread(o);
    }
}
static void rexec(const sim_trace *tr)
{
    sim_heap *heap = sim_heap_new(100, 0, 0x77);
    uint64_t left = 0, limit;
    int k = (int)((uint64_t)tr->cfg[0] % 5);
    sim_op o = { .kind = OUT, .fskip = -1 };
    if (!boot(tr, heap, records[k])) return;
    recs = recsz[k];
    SIM_CHECK(F->field() == recs, "record:field", "the length field is reported as %lu bytes", F->field());
    nrec_done = nrec_max = taken = taken_max = 0;
    conc_spawn(rproducer, NULL);
    conc_spawn(rconsumer, NULL);
    conc_run(tr, LIMIT);
    limit = nrec_max;
    while (!F->empty()) {
        o.a[0] = (int64_t)(left * 5);
        rread(&o);
        SIM_CHECK(++left <= limit + 1, "record:endless", "more records than were put");
    }
    SIM_CHECK(taken_max >= nrec_done, "record:lost", "%llu records were put, %llu came out", (unsigned long long)nrec_done, (unsigned long long)taken_max);
    shutdown_(heap);
}
static void rgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 0, 0, 0, 4, 8, 4, 2, 8, 2, 0, 0 }, n = (int)sim_range(r, 4, tier ? 100 : 36), big = sim_chance(r, 1, 6);
    common_gen(r, tr, 5, faults);
    for (int i = CONC_OPS; i < STATE; ++i) w[i] *= (int)sim_range(r, 0, 3);
    w[IN] += 3; w[OUT] += 2;
    if (big) tr->cfg[1] = sim_range(r, 200, 1024);
    else if (tr->cfg[1] < 6) tr->cfg[1] += 6;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, sim_chance(r, 1, big ? 2 : 20) ? BIG - 1 : sim_chance(r, 1, 4) ? 20 : 6);
        if (!i && faults && sim_chance(r, 1, 4)) { o->fskip = 0; o->fcount = 1; }
    }
    sched(r, tr, faults, n, 14);
}
const sim_workload w_fiforec = { "Q02", "fiforec", cfn, opn, rgen, rexec, 1 };

/* ================= Q04: circular buffer arithmetic ================= */

#include <bfdev/circle.h>

#define CMAX (1ul << 18)
static uint64_t cslots[CMAX + 2];
static bfdev_circle_t circ;
static unsigned long csize;

/* the documented use: the producer owns head, the consumer owns tail, each reads the other's */
static void cproducer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops; ++i) {
        const sim_op *o = &T->ops[i];
        unsigned long want, space = 0, run = 0, head, tail = 0, n;
        uint64_t lo, hi, *slots = circ.buffer;
        if (o->kind != PUT && o->kind != IN) continue;
        lo = minus(csize - 1, minus(prod, cons));
        LIB(tail = *(volatile unsigned long *)&circ.tail);
        head = circ.head;
        space = BFDEV_CIRCLE_SPACE(head, tail, csize);
        run = BFDEV_CIRCLE_SPACE_END(head, tail, csize);
        hi = minus(csize - 1, minus(prod, cons_max));
        SIM_CHECK(space >= lo && space <= hi, "circle:space", "space %lu reported, %llu to %llu possible", space, (unsigned long long)lo, (unsigned long long)hi);
        SIM_CHECK(run <= space && head + run <= csize, "circle:space-end", "%lu of %lu free reported contiguous at %lu of %lu", run, space, head, csize);
        SIM_CHECK(run == (space < csize - head ? space : csize - head), "circle:space-end", "%lu contiguous reported, %lu free at %lu of %lu", run, space, head, csize);
        want = o->kind == PUT ? 1 : (unsigned long)((uint64_t)o->a[0] % (MAXLEN + 1));
        n = want < run ? want : run;
        prod_max = prod + n;
        for (unsigned long k = 0; k < n; ++k) { LIB(*(volatile uint64_t *)&slots[head + k] = mixpos(prod + k)); }
        LIB(*(volatile unsigned long *)&circ.head = (head + n) & (csize - 1));
        prod = prod_max;
        if (!n && want) sim_probe("producer_saw_a_full_queue");
        sim_state(sim_mix(head * 128 + tail, csize));
    }
}
static void cread(const sim_op *o)
{
    unsigned long want, cnt = 0, run = 0, head = 0, tail, n;
    uint64_t lo = minus(prod, cons), *slots = circ.buffer;
    LIB(head = *(volatile unsigned long *)&circ.head);
    tail = circ.tail;
    cnt = BFDEV_CIRCLE_CNT(head, tail, csize);
    run = BFDEV_CIRCLE_CNT_END(head, tail, csize);
    SIM_CHECK(cnt >= lo && cnt <= prod_max - cons, "circle:count", "%lu reported, %llu to %llu possible", cnt, (unsigned long long)lo, (unsigned long long)(prod_max - cons));
    SIM_CHECK(run == (cnt < csize - tail ? cnt : csize - tail), "circle:count-end", "%lu contiguous reported, %lu held at %lu of %lu", run, cnt, tail, csize);
    want = o->kind == GET ? 1 : (unsigned long)((uint64_t)o->a[0] % (MAXLEN + 1));
    n = want < run ? want : run;
    for (unsigned long k = 0; k < n; ++k) {
        uint64_t v = 0;
        LIB(v = *(volatile uint64_t *)&slots[tail + k]);
        SIM_CHECK(v == mixpos(cons + k), "circle:stream", "element %llu is not what was put there", (unsigned long long)(cons + k));
    }
    cons_max = cons + n;
    LIB(*(volatile unsigned long *)&circ.tail = (tail + n) & (csize - 1));
    cons = cons_max;
    sim_log(n);
}
static void cconsumer(int tid, void *arg)
{
    (void)tid; (void)arg;
    for (int i = 0; i < T->nops; ++i)
        if (T->ops[i].kind == GET || T->ops[i].kind == OUT) cread(&T->ops[i]);
}
/* the arithmetic alone, for buffers of any size a machine can address; arguments are any expression */
static void carith(uint64_t seed)
{
    sim_rng r;
    sim_seed(&r, seed);
    for (int i = 0; i < 6; ++i) {
        unsigned long s = 1ul << sim_range(&r, 1, 62), h = sim_u64(&r) & (s - 1), t = sim_u64(&r) & (s - 1), got, want;
        if (sim_chance(&r, 1, 3)) t = (h + (unsigned long)sim_range(&r, -2, 2)) & (s - 1);
        if (sim_chance(&r, 1, 4)) h = sim_chance(&r, 1, 2) ? 0 : s - 1;
        unsigned long held = h >= t ? h - t : s - t + h, room = s - 1 - held, z = 0;
        got = BFDEV_CIRCLE_CNT(h | z, t | z, s | z);
        SIM_CHECK(got == held, "circle:count", "%lu reported, %lu held (head %lu tail %lu size %lu)", got, held, h, t, s);
        got = BFDEV_CIRCLE_SPACE(h | z, t | z, s | z);
        SIM_CHECK(got == room, "circle:space", "%lu reported, %lu free (head %lu tail %lu size %lu)", got, room, h, t, s);
        got = BFDEV_CIRCLE_CNT_END(h | z, t | z, s | z); want = held < s - t ? held : s - t;
        SIM_CHECK(got == want, "circle:count-end", "%lu contiguous reported, expected %lu (head %lu tail %lu size %lu)", got, want, h, t, s);
        got = BFDEV_CIRCLE_SPACE_END(h | z, t | z, s | z); want = room < s - h ? room : s - h;
        SIM_CHECK(got == want, "circle:space-end", "%lu contiguous reported, expected %lu (head %lu tail %lu size %lu)", got, want, h, t, s);
    }
}
static void cexec(const sim_trace *tr)
{
    uint64_t *slots;
    sim_op o = { .kind = OUT, .a = { MAXLEN } };
    csize = 1ul << (tr->cfg[4] ? (uint64_t)tr->cfg[4] % 19 : 1 + (uint64_t)tr->cfg[1] % 6);
    circ = BFDEV_CIRCLE_INIT(cslots + 1);
    slots = circ.buffer;
    circ.head = circ.tail = (unsigned long)tr->cfg[2] & (csize - 1);
    cslots[0] = cslots[csize + 1] = 0x1234;
    T = tr;
    prod = prod_max = cons = cons_max = 0;
    carith((uint64_t)tr->cfg[6]);
    /* elements that were there before */
    for (uint64_t k = (uint64_t)tr->cfg[5] & (csize - 1); k; --k) {
        slots[circ.head] = mixpos(prod++);
        circ.head = (circ.head + 1) & (csize - 1);
    }
    prod_max = prod;
    conc_spawn(cproducer, NULL);
    conc_spawn(cconsumer, NULL);
    conc_run(tr, LIMIT);
    if (conc_killed(0) || conc_killed(1)) return;       /* the surviving side was checked on the way */
    for (int k = 0; BFDEV_CIRCLE_CNT(circ.head, circ.tail, csize); ++k) {
        SIM_CHECK(k <= (int)csize, "circle:endless", "the buffer never drains");
        cread(&o);
    }
    SIM_CHECK(cons == prod, "circle:lost", "%llu put, %llu taken", (unsigned long long)prod, (unsigned long long)cons);
    SIM_CHECK(cslots[0] == 0x1234 && cslots[csize + 1] == 0x1234, "circle:overrun", "memory beside the buffer changed");
}
static void cgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 0, 0, 0, 4, 6, 4, 0, 6 }, n = (int)sim_range(r, 4, tier ? 100 : 40);
    common_gen(r, tr, 1, 0);
    tr->ncfg = 7;
    tr->cfg[4] = tr->cfg[5] = 0;
    tr->cfg[6] = (int64_t)(sim_u64(r) >> 1);
    if (sim_chance(r, 1, 100)) {        /* a large buffer, filled to some point */
        tr->cfg[4] = sim_range(r, 7, sim_chance(r, 1, 30) ? 18 : 11);
        tr->cfg[2] = sim_range(r, 0, (1ll << tr->cfg[4]) - 1);
        if (sim_chance(r, 1, 3)) tr->cfg[2] = (1ll << tr->cfg[4]) - sim_range(r, 1, 30);
        tr->cfg[5] = sim_chance(r, 1, 2) ? sim_range(r, 0, 300) : (1ll << tr->cfg[4]) - sim_range(r, 1, 300);
        if (tr->cfg[5] < 0) tr->cfg[5] = 0;
    }
    for (int i = CONC_OPS; i < NOPS_; ++i) w[i] *= (int)sim_range(r, 0, 3);
    w[IN] += 2; w[OUT] += 2;
    for (int i = 0; i < n; ++i) sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_))->a[0] = sim_range(r, 0, sim_chance(r, 1, 3) ? MAXLEN : 5);
    sched(r, tr, faults, n, 8);
}
const sim_workload w_circle = { "Q04", "circle", cfn, opn, cgen, cexec, 1 };
