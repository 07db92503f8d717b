/* S01: text search over a stream delivered in blocks, with stalls and retries. */
#include "sim.h"
#include <bfdev/textsearch.h>
#include <bfdev/errno.h>
#include <limits.h>

enum { FIND, NEXT, LINEAR, MORE, RESET, CREATE, REGISTRY, NOPS_ };
static const char *const opn[] = { "find", "next", "linear", "more", "reset", "create", "registry" };
static const char *const cfn[SIM_NCFG] = { "algo", "patlen", "icase", "alphabet", "textlen", "blockmode", "avail0", "textseed", "garbage", "plant" };

#define NCUR 3
#define MAXT 1024            /* of a usual run */
#define MAXP 400
#define LARGET 300000        /* of a large one */
#define LARGEP 70000
static const char *const names[] = { "kmp", "bm", "sunday" };

typedef struct cursor {
    bfdev_ts_state_t tss;
    unsigned avail;             /* how much of the stream has arrived */
    unsigned from;              /* where the model's search goes on */
    bool started;
    bool linear;
    bfdev_ts_linear_t lin;
    char *lindata;
    unsigned blocks;
} cursor;

static unsigned char text[LARGET], pat[LARGEP], upat[LARGEP];
static unsigned textlen, patlen;
static bool icase;
static unsigned bend[LARGET + 1];         /* end of the block that holds byte i */
static cursor cur[NCUR];
static void *handed;                    /* the block the library may still read */
static bfdev_ts_context_t *want_tsc;

static unsigned char up(unsigned char c) { return c >= 'a' && c <= 'z' ? (unsigned char)(c - 32) : c; }

static unsigned next_block(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss, unsigned consumed, const void **dest)
{
    cursor *c = tss->pdata;
    SIM_CHECK(tsc == want_tsc, "search:block-context", "next_block got a different search configuration");
    SIM_CHECK(c >= cur && c < cur + NCUR && tss == &c->tss, "search:block-state", "next_block got a different search state");
    SIM_CHECK(consumed <= textlen, "search:block-offset", "next_block asked for offset %u of %u", consumed, textlen);
    free(handed); handed = NULL;        /* the previous block is gone */
    SIM_CHECK(++c->blocks < 4 * MAXT + 4 * textlen, "search:endless", "a search asked for more blocks than the stream has bytes");
    sim_nest();
    if (consumed >= c->avail) return 0;
    unsigned end = bend[consumed];
    if (end > c->avail) end = c->avail;
    unsigned n = end - consumed;
    handed = malloc(n);
    if (!handed) abort();
    memcpy(handed, text + consumed, n);
    *dest = handed;
    sim_log(sim_mix(consumed, n));
    if (n < patlen) sim_fault("short_block");
    return n;
}

/* where the pattern occurs, told by its own prefixes (Z algorithm) */
static unsigned char hitat[LARGET + 1];
static void mark_hits(void)
{
    static unsigned z[LARGEP];
    unsigned l = 0, r = 0;
#define UP(c) (icase ? up(c) : (c))
    z[0] = patlen;
    for (unsigned i = 1; i < patlen; ++i) {
        unsigned k = i < r ? z[i - l] < r - i ? z[i - l] : r - i : 0;
        while (i + k < patlen && upat[k] == upat[i + k]) k++;
        if (i + k > r) { l = i; r = i + k; }
        z[i] = k;
    }
    for (unsigned i = l = r = 0; i < textlen; ++i) {
        unsigned k = i < r ? z[i - l] < r - i ? z[i - l] : r - i : 0;
        while (k < patlen && i + k < textlen && upat[k] == UP(text[i + k])) k++;
        if (i + k > r) { l = i; r = i + k; }
        hitat[i] = k == patlen;
    }
    hitat[textlen] = 0;
}
static bool hit(unsigned p) { return hitat[p]; }

/* is the occurrence at p inside one block as this cursor gets it from offset from? */
static bool whole(const cursor *c, unsigned from, unsigned p)
{
    (void)from;
    if (c->linear) return true;
    unsigned e = bend[p];
    return p + patlen <= (e < c->avail ? e : c->avail);
}

static void judge(cursor *c, int algo, unsigned got)
{
    unsigned first = UINT_MAX, firstwhole = UINT_MAX;
    for (unsigned p = c->from; p + patlen <= c->avail; ++p) {
        if (!hit(p)) continue;
        if (first == UINT_MAX) first = p;
        if (whole(c, c->from, p)) { firstwhole = p; break; }
    }
    if (algo == 0) firstwhole = first;  /* kmp keeps its place across blocks */
    else if (first != firstwhole) sim_probe("straddling_occurrence");
    if (got == UINT_MAX) {
        SIM_CHECK(firstwhole == UINT_MAX, "search:missed", "%s reports no match from offset %u of %u, but the pattern (length %u) occurs at %u", names[algo], c->from, c->avail, patlen, firstwhole);
        sim_probe("no_match");
        return;
    }
    SIM_CHECK(got <= c->avail && got + patlen <= c->avail && got + patlen >= got, "search:range", "%s reports a match at %u beyond the %u bytes that arrived", names[algo], got, c->avail);
    SIM_CHECK(got >= c->from, "search:repeated", "%s reports a match at %u again: the search was already at %u", names[algo], got, c->from);
    SIM_CHECK(hit(got), "search:bogus", "%s reports a match at %u, where the pattern does not occur", names[algo], got);
    SIM_CHECK(got <= firstwhole, "search:skipped", "%s reports a match at %u but skipped the one at %u", names[algo], got, firstwhole);
    if (c->from) sim_probe("later_match");
    c->from = got + patlen;
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 5, 20, 3, 4, 1, 2, 1 };
    int n = (int)sim_range(r, 3, tier ? 120 : 40);
    tr->ncfg = 10;
    tr->cfg[0] = sim_range(r, 0, 2);
    tr->cfg[1] = sim_chance(r, 2, 3) ? sim_range(r, 1, 6) : sim_range(r, 1, sim_chance(r, 1, 10) ? MAXP : 40);
    tr->cfg[2] = sim_chance(r, 1, 3);
    tr->cfg[3] = sim_chance(r, 2, 3) ? sim_range(r, 1, 3) : sim_range(r, 4, 256);
    tr->cfg[4] = sim_chance(r, 1, 2) ? sim_range(r, 0, 60) : sim_range(r, 0, MAXT);
    if (tr->cfg[1] > 40) tr->cfg[4] = sim_range(r, tr->cfg[1], MAXT);
    tr->cfg[5] = faults ? sim_range(r, 1, 6) : 0;
    tr->cfg[6] = faults && sim_chance(r, 1, 2) ? sim_range(r, 0, tr->cfg[4]) : tr->cfg[4];
    tr->cfg[7] = (int64_t)(sim_u64(r) >> 1);
    tr->cfg[8] = (int64_t)sim_u64(r);
    tr->cfg[9] = sim_range(r, 0, 6);
    if (sim_chance(r, 1, 250)) {            /* a long stream, and a long pattern */
        n = (int)sim_range(r, 2, 8);
        tr->cfg[1] = sim_chance(r, 1, 3) ? sim_range(r, 1, 40) : sim_range(r, 40, 1500);
        if (tr->cfg[0] != 1 && sim_chance(r, 1, 4)) tr->cfg[1] = sim_range(r, 65000, LARGEP);
        tr->cfg[4] = sim_range(r, tr->cfg[1], LARGET);
        tr->cfg[6] = faults && sim_chance(r, 1, 2) ? sim_range(r, 0, tr->cfg[4]) : tr->cfg[4];
        tr->cfg[9] = sim_range(r, 0, 40);
        if (tr->cfg[5] && tr->cfg[5] < 3 && sim_chance(r, 3, 4)) tr->cfg[5] = 3;
    }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, NCUR - 1);
        o->a[1] = sim_range(r, 0, tr->cfg[4] > MAXT ? tr->cfg[4] : 200);
        o->a[2] = sim_range(r, 0, 1 << 20);
        if (faults && o->kind == CREATE) sim_arm(r, o, 1, 2, 1);
    }
}

/* --- a client's own algorithm for the registry ------------------------- */
typedef struct own { bfdev_ts_context_t tsc; unsigned char p[MAXP]; unsigned len; } own;
static unsigned own_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
{
    const void *b; own *o = (own *)tsc; (void)o;
    unsigned n = tsc->next_block(tsc, tss, tss->offset, &b);
    return n ? tss->offset : UINT_MAX;
}
static bfdev_ts_context_t *own_prepare(const bfdev_alloc_t *alloc, const void *p, size_t len, unsigned long flags)
{
    own *o = bfdev_malloc(alloc, sizeof(*o));
    if (!o) return NULL;
    o->tsc.flags = flags; o->len = (unsigned)len; memcpy(o->p, p, len < MAXP ? len : MAXP);
    return &o->tsc;
}
static void own_destroy(bfdev_ts_context_t *tsc) { bfdev_free(tsc->alloc, tsc); }
static const void *own_get(bfdev_ts_context_t *tsc) { return ((own *)tsc)->p; }
static unsigned own_len(bfdev_ts_context_t *tsc) { return ((own *)tsc)->len; }
static bfdev_ts_algorithm_t own_algo = { .name = "own", .find = own_find, .prepare = own_prepare, .destroy = own_destroy, .pattern_get = own_get, .pattern_len = own_len };

static void registry(sim_heap *h, int64_t what, bfdev_ts_context_t *live)
{
    const bfdev_alloc_t *al = sim_heap_alloc(h);
    bfdev_ts_algorithm_t bad = own_algo, dup = own_algo;
    bfdev_ts_context_t *t;
    switch (what % 5) {
    case 0:                             /* incomplete algorithms are refused */
        switch ((what / 5) % 6) {
        case 0: bad.name = NULL; break;
        case 1: bad.find = NULL; break;
        case 2: bad.prepare = NULL; break;
        case 3: bad.destroy = NULL; break;
        case 4: bad.pattern_get = NULL; break;
        default: bad.pattern_len = NULL; break;
        }
        sim_fault("client_bad_registration");
        SIM_CHECK(bfdev_textsearch_register(&bad) == -BFDEV_EINVAL, "search:register", "an incomplete algorithm was not refused");
        SIM_CHECK(bfdev_textsearch_unregister(&bad) == -BFDEV_ENOENT, "search:register", "a refused algorithm can be unregistered");
        SIM_CHECK(!bfdev_textsearch_create(al, "own", pat, patlen, 0), "search:register", "a refused algorithm can be used");
        break;
    case 1:                             /* a client's algorithm comes and goes */
        SIM_CHECK(bfdev_textsearch_unregister(&own_algo) == -BFDEV_ENOENT, "search:register", "an unknown algorithm was unregistered");
        SIM_CHECK(bfdev_textsearch_register(&own_algo) == 0, "search:register", "registering a new algorithm failed");
        SIM_CHECK(bfdev_textsearch_register(&own_algo) != 0, "search:register", "the same algorithm registered twice");
        SIM_CHECK(bfdev_textsearch_register(&dup) != 0, "search:register", "two algorithms share a name");
        SIM_CHECK(bfdev_textsearch_unregister(&dup) == -BFDEV_ENOENT, "search:register", "a refused namesake was unregistered");
        t = bfdev_textsearch_create(al, "own", pat, patlen, BFDEV_TS_IGCASE);
        SIM_CHECK(t, "search:create", "creating a search with a client algorithm failed");
        SIM_CHECK(t->algo == &own_algo && t->alloc == al, "search:create", "the context names a different algorithm or allocator");
        SIM_CHECK(textsearch_pattern_get(t) == ((own *)t)->p && bfdev_textsearch_pattern_len(t) == patlen, "search:create", "the client algorithm's answers are not passed on");
        SIM_CHECK(bfdev_textsearch_unregister(&own_algo) == 0, "search:register", "unregistering failed");
        SIM_CHECK(!bfdev_textsearch_create(al, "own", pat, patlen, 0), "search:register", "an unregistered algorithm can still be used");
        bfdev_textsearch_destroy(t);
        break;
    case 2:
        SIM_CHECK(!bfdev_textsearch_create(al, "km", pat, patlen, 0) && !bfdev_textsearch_create(al, "kmpp", pat, patlen, 0) && !bfdev_textsearch_create(al, "", pat, patlen, 0), "search:create", "an unknown name yields a search");
        break;
    case 3: {                           /* a built-in goes while searches use it */
        bfdev_ts_algorithm_t *a = live->algo;
        SIM_CHECK(bfdev_textsearch_unregister(a) == 0, "search:register", "unregistering %s failed", a->name);
        SIM_CHECK(!bfdev_textsearch_create(al, a->name, pat, patlen, 0), "search:register", "an unregistered algorithm can still be used");
        SIM_CHECK(bfdev_textsearch_unregister(a) == -BFDEV_ENOENT, "search:register", "an algorithm was unregistered twice");
        SIM_CHECK(bfdev_textsearch_register(a) == 0, "search:register", "registering %s again failed", a->name);
        break; }
    default:                            /* the others are unaffected */
        for (int i = 0; i < 3; ++i) {
            t = bfdev_textsearch_create(al, names[i], pat, patlen, 0);
            SIM_CHECK(t, "search:create", "%s is not available", names[i]);
            bfdev_textsearch_destroy(t);
        }
    }
}

static void check_ctx(bfdev_ts_context_t *t)
{
    SIM_CHECK(bfdev_textsearch_pattern_len(t) == patlen, "search:pattern", "the search reports pattern length %u, not %u", bfdev_textsearch_pattern_len(t), patlen);
    SIM_CHECK(!memcmp(textsearch_pattern_get(t), upat, patlen), "search:pattern", "the search reports a different pattern");
    SIM_CHECK(bfdev_ts_igcase_test(t) == icase, "search:pattern", "the case flag changed");
}

static bfdev_ts_context_t *create(sim_heap *h, int algo)
{
    /* the caller's pattern buffer goes away after create */
    void *p = malloc(patlen);
    if (!p) abort();
    memcpy(p, pat, patlen);
    bfdev_ts_context_t *t = bfdev_textsearch_create(sim_heap_alloc(h), names[algo], p, patlen, icase ? BFDEV_TS_IGCASE : 0);
    memset(p, 0xee, patlen); free(p);
    SIM_CHECK(t || sim_heap_failed(h), "search:create", "create failed with memory available");
    if (!t) { sim_probe("create_failed_oom"); return NULL; }
    t->next_block = next_block;
    check_ctx(t);
    return t;
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(0, 0, (uint64_t)tr->cfg[8]);
    sim_rng rr;
    int algo = (int)tr->cfg[0], alpha = (int)tr->cfg[3], mode = (int)tr->cfg[5];
    patlen = (unsigned)tr->cfg[1]; textlen = (unsigned)tr->cfg[4]; icase = tr->cfg[2] & 1;
    if (algo < 0 || algo > 2 || patlen < 1 || patlen > LARGEP || textlen > LARGET || alpha < 1 || alpha > 256 || mode < 0 || tr->cfg[6] < 0 || tr->cfg[6] > textlen) return;
    sim_seed(&rr, (uint64_t)tr->cfg[7]);
    /* letters first, so that small alphabets mix cases; then every byte value */
    static const char low[] = "aAbBzZ";
    bool high = sim_chance(&rr, 1, 3);
#define LETTER() (alpha <= 6 ? (high && alpha <= 3 ? (unsigned char)(255 - sim_below(&rr, (uint64_t)alpha)) : (unsigned char)low[sim_below(&rr, (uint64_t)alpha)]) : (unsigned char)sim_below(&rr, (uint64_t)alpha))
    /* a pattern that repeats itself: with flaws everywhere, with one flaw, or without */
    unsigned period = (unsigned)sim_range(&rr, 1, patlen), flaws = (unsigned)sim_below(&rr, 3), flaw = (unsigned)sim_below(&rr, patlen);
    if (patlen > 40 && sim_chance(&rr, 1, 2)) period = (unsigned)sim_range(&rr, 1, 40);
    if (patlen > (algo == 1 ? 700 : 1500) && algo) { period = patlen; if (alpha < 20) alpha = 20; }
    if (sim_chance(&rr, 1, 2)) flaw = patlen - 1 - flaw % (patlen < 8 ? patlen : 8);
    for (unsigned i = 0; i < patlen; ++i)
        pat[i] = i >= period && (!flaws ? sim_chance(&rr, 7, 8) : flaws == 2 || i != flaw) ? pat[i - period] : LETTER();
    if (patlen > 300 && flaws && period < patlen / 2) sim_probe("long_repeating_pattern");
    for (unsigned i = 0; i < patlen; ++i) upat[i] = icase ? up(pat[i]) : pat[i];
    for (unsigned i = 0; i < textlen; ++i) text[i] = LETTER();
    unsigned last = 0;
    for (int64_t k = 0; k < tr->cfg[9] && textlen >= patlen; ++k) {         /* occurrences and near misses */
        unsigned at = (unsigned)sim_below(&rr, textlen - patlen + 1), from = 0, to = patlen;
        /* one that begins within the last, a period later */
        if (k && sim_chance(&rr, 1, 3)) { unsigned step = period * (unsigned)sim_range(&rr, 1, patlen / period); if (last + step + patlen <= textlen) at = last + step; sim_probe("overlapping_occurrences"); }
        last = at;
        if (sim_chance(&rr, 1, 3)) from = (unsigned)sim_below(&rr, patlen);
        else if (sim_chance(&rr, 1, 3)) to = (unsigned)sim_below(&rr, patlen) + 1;
        for (unsigned i = from; i < to; ++i) {
            text[at + i] = pat[i];
            if (icase && sim_chance(&rr, 1, 2) && ((pat[i] >= 'a' && pat[i] <= 'z') || (pat[i] >= 'A' && pat[i] <= 'Z'))) text[at + i] ^= 32;
        }
    }
    mark_hits();
    if (textlen > MAXT) { sim_slow(60); sim_probe(textlen > 65535 ? "stream_over_65535" : "long_stream"); if (patlen > 65535) sim_probe("pattern_over_65535"); }
    for (unsigned i = 0; i < textlen; ) {
        unsigned n;
        switch (mode) {
        case 0: n = textlen; break;
        case 1: n = 1; break;
        case 2: n = (unsigned)sim_range(&rr, 1, 4); break;
        case 3: n = (unsigned)sim_range(&rr, 1, 2 * patlen); break;
        case 4: n = patlen; break;
        case 5: n = (unsigned)sim_range(&rr, patlen, 4 * patlen); break;
        default: n = (unsigned)sim_range(&rr, 1, 100); break;
        }
        unsigned e = i + n < textlen ? i + n : textlen;
        while (i < e) bend[i++] = e;
    }
    memset(cur, 0, sizeof(cur));
    for (int i = 0; i < NCUR; ++i) { cur[i].avail = (unsigned)tr->cfg[6]; cur[i].tss.pdata = &cur[i]; }
    bfdev_ts_context_t *t = create(h, algo);
    SIM_CHECK(t, "search:create", "create failed");

    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        cursor *c = &cur[(uint64_t)o->a[0] % NCUR];
        unsigned got, old;
        sim_heap_op(h, o);
        unsigned req = sim_heap_requests(h);
        want_tsc = t; c->blocks = 0;
        t->next_block = next_block;
        switch (o->kind) {
        case FIND:
            c->linear = false; c->from = 0; c->started = true;
            got = bfdev_textsearch_find(t, &c->tss);
            sim_log(got);
            judge(c, algo, got);
            break;
        case NEXT:
            if (!c->started) break;
            if (c->linear) {
                /* other searches ran in between: the source of this one is linear data */
                unsigned avail = c->avail; bfdev_ts_linear_t dummy; void *d = malloc(1);
                if (!d) abort();
                /* arm the linear source again without disturbing c */
                (void)bfdev_textsearch_linear(t, &dummy, d, 0);
                got = bfdev_textsearch_next(t, &c->lin.tss);
                free(d);
                c->avail = c->lin.len;
                judge(c, algo, got);
                c->avail = avail;
            } else {
                got = bfdev_textsearch_next(t, &c->tss);
                judge(c, algo, got);
            }
            sim_log(got);
            break;
        case LINEAR:
            c->linear = true; c->from = 0; c->started = true;
            free(c->lindata);
            old = c->avail;
            c->avail = (unsigned)((uint64_t)o->a[2] % (textlen + 1));
            c->lindata = malloc(c->avail ? c->avail : 1);
            if (!c->lindata) abort();
            memcpy(c->lindata, text, c->avail);
            got = bfdev_textsearch_linear(t, &c->lin, c->lindata, c->avail);
            sim_log(got);
            judge(c, algo, got);
            c->avail = old;
            break;
        case MORE:                      /* the stalled stream goes on */
            old = c->avail;
            c->avail += (unsigned)((uint64_t)o->a[1] % (textlen + 1));
            if (c->avail > textlen) c->avail = textlen;
            if (c->avail != old && c->started) sim_fault("stream_stalled_then_resumed");
            break;
        case RESET: c->started = false; c->avail = (unsigned)tr->cfg[6]; c->linear = false; break;
        case CREATE: {
            bfdev_ts_context_t *n = create(h, algo);
            if (!n) break;
            check_ctx(t);
            bfdev_textsearch_destroy(t);        /* cursors outlive the configuration */
            t = n;
            break; }
        case REGISTRY: sim_heap_arm(h, -1, 0); registry(h, o->a[2], t); break;
        }
        if (o->kind <= LINEAR) SIM_CHECK(sim_heap_requests(h) == req, "search:allocates", "a search allocates memory");
        free(handed); handed = NULL;
        sim_state(sim_mix(sim_mix((uint64_t)algo * 8 + (uint64_t)mode, patlen), sim_mix(c->from, c->avail)));
    }
    /* once the stream is complete every search comes to an end */
    sim_heap_arm(h, -1, 0);
    for (int i = 0; i < NCUR; ++i) {
        cursor *c = &cur[i];
        want_tsc = t; t->next_block = next_block;
        if (c->started && !c->linear) {
            c->avail = textlen;
            unsigned found = 0, got;
            do {
                c->blocks = 0;
                got = bfdev_textsearch_next(t, &c->tss);
                judge(c, algo, got);
                SIM_CHECK(++found <= textlen + 1, "search:endless", "more matches than bytes");
            } while (got != UINT_MAX);
            c->blocks = 0;
            SIM_CHECK(bfdev_textsearch_next(t, &c->tss) == UINT_MAX, "search:end", "a finished search finds another match");
        }
        free(handed); handed = NULL;
        free(c->lindata); c->lindata = NULL;
    }
    check_ctx(t);
    bfdev_textsearch_destroy(t);
    sim_heap_expect_empty(h, "search destroy");
}

/* another search, from inside the source of blocks */
static void nest(void)
{
    for (int i = 0; i < 3; ++i) {
        bfdev_ts_context_t *t = bfdev_textsearch_create(NULL, names[i], "abcab", 5, 0);
        bfdev_ts_linear_t l;
        SIM_CHECK(t, "search:nested", "another search cannot be created from inside the source of blocks");
        unsigned p = bfdev_textsearch_linear(t, &l, "xababcababxxabcab", 17);
        unsigned q = bfdev_textsearch_next(t, &l.tss);
        SIM_CHECK(p == 3 && q == 12 && bfdev_textsearch_next(t, &l.tss) == UINT_MAX, "search:nested", "another search with %s from inside the source of blocks finds %u and %u", names[i], p, q);
        bfdev_textsearch_destroy(t);
    }
}

const sim_workload w_search = { "S01", "search", cfn, opn, gen, exec, 1, nest };
