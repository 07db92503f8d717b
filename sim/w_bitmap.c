/* B01: bitmaps against plain arrays of bits: any length, alignment, shared
 * operands, stale bits past the end, lengths known or unknown to the compiler. */
#include "sim.h"
#include <bfdev/bitmap.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/errno.h>

enum { ALLOC, SET, CLR, LOGIC, NOT, REPLACE, SHL, SHR, ZERO, FILL, COPY, ASK, FIND, BIT, WALK, JUNK, NOPS_ };
static const char *const opn[] = { "alloc", "set", "clr", "logic", "complement", "replace", "shl", "shr", "zero", "fill", "copy", "ask", "find", "bit", "walk", "junk-tail" };
static const char *const cfn[SIM_NCFG] = { "bits", "garbage", "slack" };

#define NB 4
#define MAXB (65600 * 64)
static uint8_t mv[NB][MAXB + 64], res[MAXB];
static unsigned long *bm[NB];
static unsigned nbits, words;
static int cbits;               /* tell the compiler the length */

static const unsigned sizes[] = { 1, 7, 8, 13, 32, 40, 63, 64, 65, 72, 100, 127, 128, 129, 192, 200, 256, 320, 333 };

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 4, tier ? 140 : 60);
    static const int base[NOPS_] = { 3, 12, 12, 12, 4, 3, 10, 10, 2, 3, 4, 8, 10, 12, 6, 5 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == SET);
    tr->ncfg = 3;
    tr->cfg[0] = sim_chance(r, 2, 3) ? sizes[sim_below(r, sizeof(sizes) / sizeof(*sizes))] : sim_range(r, 1, sim_chance(r, 1, 4) ? sim_chance(r, 1, 8) ? 2176 : 640 : 140);
    if (sim_chance(r, 1, 150)) {         /* more words than a byte, or than two, can count */
        int big = sim_chance(r, 1, 16);
        tr->cfg[0] = big ? 65536 * 64 + sim_range(r, -70, 3000) : sim_range(r, 16300, 17500);
        n = (int)sim_range(r, 3, big ? 14 : 20);
    }
    tr->cfg[1] = (int64_t)sim_u64(r);
    tr->cfg[2] = sim_chance(r, 1, 3);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        for (int k = 0; k < 3; ++k) o->a[k] = (int64_t)sim_below(r, NB);
        o->a[3] = sim_range(r, 0, tr->cfg[0]);
        if (sim_chance(r, 1, 3)) o->a[3] = o->a[3] / 64 * 64 + sim_range(r, -1, 1);
        if (tr->cfg[0] > 16000 && sim_chance(r, 1, 4)) o->a[3] = tr->cfg[0] - sim_range(r, 0, 300);
        if (o->a[3] < 0) o->a[3] = 0;
        o->a[4] = (int64_t)sim_u64(r);
        if (faults && o->kind == ALLOC) sim_arm(r, o, 1, 2, 0);
    }
}

static bool get(int i, unsigned b) { return bm[i][b / 64] >> (b % 64) & 1; }

static void check(void)
{
    for (int i = 0; i < NB; ++i) {
        if (!bm[i]) continue;
        for (unsigned b = 0; b < nbits; ++b)
            if (get(i, b) != mv[i][b]) SIM_CHECK(get(i, b) == mv[i][b], "bitmap:value", "bit %u of %u of bitmap %d is %d, expected %d", b, nbits, i, get(i, b), mv[i][b]);
    }
}

/* run STMT with N the length, as a literal where the trace asks for one */
#define C(n, STMT) case n: { enum { N = n }; STMT; } break;
#define DISP(STMT) do { \
    switch (cbits ? nbits : 0) { \
    C(1, STMT) C(7, STMT) C(8, STMT) C(13, STMT) C(32, STMT) C(40, STMT) C(63, STMT) C(64, STMT) C(65, STMT) \
    C(72, STMT) C(100, STMT) C(128, STMT) C(192, STMT) C(256, STMT) \
    default: { unsigned N = nbits; STMT; } break; } \
} while (0)

static unsigned ref(int i, int j, unsigned from, int dir, bool want)
{
    for (unsigned b = from; b < nbits; b += (unsigned)dir)
        if ((mv[i][b] && (j < 0 || mv[j][b])) == want) return b;
    return nbits;
}

static void __attribute__((flatten)) logic(int k, int d, int a, int b, bool *ret, bool *hasret)
{
    *hasret = k < 2;
    switch (k) {
    case 0: DISP(*ret = bfdev_bitmap_and(bm[d], bm[a], bm[b], N)); break;
    case 1: DISP(*ret = bfdev_bitmap_andnot(bm[d], bm[a], bm[b], N)); break;
    case 2: DISP(bfdev_bitmap_or(bm[d], bm[a], bm[b], N)); break;
    default: DISP(bfdev_bitmap_xor(bm[d], bm[a], bm[b], N)); break;
    }
}
static void __attribute__((flatten)) unary(int k, int d, int a, unsigned s)
{
    switch (k) {
    case SHL: DISP(bfdev_bitmap_shl(bm[d], bm[a], s, N)); break;
    case SHR: DISP(bfdev_bitmap_shr(bm[d], bm[a], s, N)); break;
    case NOT: DISP(bfdev_bitmap_complement(bm[d], bm[a], N)); break;
    case COPY: DISP(bfdev_bitmap_copy(bm[d], bm[a], N)); break;
    case ZERO: DISP(bfdev_bitmap_zero(bm[d], N)); break;
    case FILL: DISP(bfdev_bitmap_fill(bm[d], N)); break;
    case SET: DISP(bfdev_bitmap_set(bm[d], 0, N)); break;
    case CLR: DISP(bfdev_bitmap_clr(bm[d], 0, N)); break;
    }
}
static bool __attribute__((flatten)) ask(int k, int d, int a, int b)
{
    bool r = false;
    switch (k) {
    case 0: DISP(r = bfdev_bitmap_empty(bm[d], N)); break;
    case 1: DISP(r = bfdev_bitmap_full(bm[d], N)); break;
    case 2: DISP(r = bfdev_bitmap_equal(bm[d], bm[a], N)); break;
    case 3: DISP(r = bfdev_bitmap_or_equal(bm[d], bm[a], bm[b], N)); break;
    default: DISP(r = bfdev_bitmap_intersects(bm[d], bm[a], N)); break;
    }
    return r;
}
static unsigned __attribute__((flatten)) find(int k, int d, int a, unsigned s)
{
    unsigned r = 0;
    switch (k) {
    case 0: DISP(r = bfdev_find_first_bit(bm[d], N)); break;
    case 1: DISP(r = bfdev_find_last_bit(bm[d], N)); break;
    case 2: DISP(r = bfdev_find_first_zero(bm[d], N)); break;
    case 3: DISP(r = bfdev_find_last_zero(bm[d], N)); break;
    case 4: DISP(r = bfdev_find_next_bit(bm[d], N, s)); break;
    case 5: DISP(r = bfdev_find_prev_bit(bm[d], N, s)); break;
    case 6: DISP(r = bfdev_find_next_zero(bm[d], N, s)); break;
    case 7: DISP(r = bfdev_find_prev_zero(bm[d], N, s)); break;
    case 8: DISP(r = bfdev_find_next_and_bit(bm[d], bm[a], N, s)); break;
    default: DISP(r = bfdev_find_prev_and_bit(bm[d], bm[a], N, s)); break;
    }
    return r;
}

/* a machine with a megabyte to give */
#define SMALL (1u << 20)
static void *s_alloc(size_t n, void *p) { return n > SMALL ? NULL : malloc(n); }
static void *s_zalloc(size_t n, void *p) { return n > SMALL ? NULL : calloc(1, n); }
static void *s_realloc(void *b, size_t n, void *p) { return n > SMALL ? NULL : realloc(b, n); }
static void s_free(void *b, void *p) { free(b); }
static const bfdev_alloc_ops_t s_ops = { .alloc = s_alloc, .zalloc = s_zalloc, .realloc = s_realloc, .free = s_free };
static const bfdev_alloc_t s_mem = { .ops = &s_ops };

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, 0, (uint64_t)tr->cfg[1]);
    const bfdev_alloc_t *al = sim_heap_alloc(h);
    nbits = (unsigned)tr->cfg[0];
    if (nbits < 1 || nbits > MAXB) return;
    words = (nbits + 63) / 64;
    for (int i = 0; i < NB; ++i) memset(mv[i], 0, nbits + 64);
    for (int i = 0; i < NB; ++i) {
        bm[i] = bfdev_bitmap_zalloc(al, nbits);
        SIM_CHECK(bm[i], "bitmap:spurious-failure", "allocation failed with memory available");
    }
    check();
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int d = (int)((uint64_t)o->a[0] % NB), a = (int)((uint64_t)o->a[1] % NB), b = (int)((uint64_t)o->a[2] % NB);
        unsigned s = (unsigned)((uint64_t)o->a[3] % (MAXB + 64)), len;
        uint64_t x = (uint64_t)o->a[4];
        cbits = x >> 60 & 1;
        memcpy(res, mv[d], nbits);
        sim_heap_op(h, o);
        switch (o->kind) {
        case ALLOC: {
            if (!(x >> 1 & 7)) {        /* more bits than there is memory for: refused, never a block too small */
                unsigned huge = UINT32_MAX - (x >> 4 & 1 ? (unsigned)(x >> 8) % 130 : (unsigned)(x >> 8) >> 1);
                unsigned long *q = x & 1 ? bfdev_bitmap_alloc(&s_mem, huge) : bfdev_bitmap_zalloc(&s_mem, huge);
                SIM_CHECK(!q, "bitmap:alloc-huge", "a bitmap of %u bits came out of a megabyte", huge);
                sim_fault("size_beyond_memory");
            }
            unsigned long *p = x & 1 ? bfdev_bitmap_alloc(al, nbits) : bfdev_bitmap_zalloc(al, nbits);
            if (!p) { SIM_CHECK(sim_heap_failed(h), "bitmap:spurious-failure", "allocation failed with memory available"); sim_probe("alloc_failed_oom"); break; }
            SIM_CHECK(sim_heap_owns(h, p, words * sizeof(long)), "bitmap:alloc", "the block cannot hold %u bits", nbits);
            bfdev_bitmap_free(al, bm[d]);
            bm[d] = p;
            memset(res, 0, nbits);
            if (x & 1) unary(ZERO, d, d, 0);
            break;
        }
        case SET: case CLR:
            s %= nbits;
            len = (unsigned)(x >> 8) % (nbits - s + 1);
            if (x & 2) len = (x & 4) && nbits - s > 66 ? 64 + (unsigned)(x >> 8) % 3 : len % 5;
            if (len > nbits - s) len = nbits - s;
            if (cbits) { s = 0; len = nbits; unary((int)o->kind, d, 0, 0); }
            else if (o->kind == SET) bfdev_bitmap_set(bm[d], s, len);
            else bfdev_bitmap_clr(bm[d], s, len);
            memset(res + s, o->kind == SET, len);
            sim_probe(len == 0 ? "empty_range" : s / 64 == (s + len - 1) / 64 ? "range_in_word" : "range_across_words");
            break;
        case LOGIC: {
            bool ret = false, has, want = false;
            int k = x & 3;
            logic(k, d, a, b, &ret, &has);
            for (unsigned j = 0; j < nbits; ++j) {
                bool u = mv[a][j], v = mv[b][j];
                res[j] = k == 0 ? u && v : k == 1 ? u && !v : k == 2 ? u || v : u != v;
                want |= res[j];
            }
            if (has) SIM_CHECK(ret == want, "bitmap:logic-result", "%s said the result is %s", k ? "andnot" : "and", ret ? "not empty" : "empty");
            break;
        }
        case NOT: unary(NOT, d, a, 0); for (unsigned j = 0; j < nbits; ++j) res[j] = !mv[a][j]; break;
        case REPLACE:
            bfdev_bitmap_comp_replace(bm[d], bm[a], bm[b], bm[x & 3], nbits);
            for (unsigned j = 0; j < nbits; ++j) res[j] = mv[x & 3][j] ? mv[b][j] : mv[a][j];
            break;
        case SHL: case SHR:
            if (x & 8) s %= 70;
            if (cbits) s %= 64;
            for (unsigned j = 0; j < nbits; ++j)
                res[j] = o->kind == SHL ? (j >= s ? mv[a][j - s] : 0) : j + s < nbits ? mv[a][j + s] : 0;
            unary((int)o->kind, d, a, s);
            if (d == a) sim_probe("shift_in_place");
            break;
        case ZERO: case FILL: unary((int)o->kind, d, d, 0); memset(res, o->kind == FILL, nbits); break;
        case COPY: if (a == d) break; unary(COPY, d, a, 0); memcpy(res, mv[a], nbits); break;
        case ASK: {
            int k = (int)(x % 5);
            bool all = true, any = false, eq = true, oreq = true, meet = false;
            if (x & 64) { memcpy(mv[a], mv[d], nbits); memcpy(bm[a], bm[d], words * 8); if (x & 128) { bfdev_bit_flip(bm[a], s % nbits); mv[a][s % nbits] ^= 1; } memcpy(res, mv[d], nbits); }
            for (unsigned j = 0; j < nbits; ++j) {
                all &= mv[d][j]; any |= mv[d][j]; eq &= mv[d][j] == mv[a][j];
                oreq &= (mv[d][j] | mv[a][j]) == mv[b][j]; meet |= mv[d][j] & mv[a][j];
            }
            bool want = k == 0 ? !any : k == 1 ? all : k == 2 ? eq : k == 3 ? oreq : meet, got = ask(k, d, a, b);
            static const char *const qn[] = { "empty", "full", "equal", "or-equal", "intersects" };
            SIM_CHECK(got == want, "bitmap:query", "%s of %u bits answers %d (length %s)", qn[k], nbits, got, cbits ? "constant" : "variable");
            sim_log(got);
            break;
        }
        case FIND: {
            int k = (int)(x % 12);
            unsigned want, got;
            if (k >= 10) {      /* the same through words of the other byte order */
                bool inv = x & 1024, sw = x & 2048;
                want = nbits;
                s %= nbits;
                for (unsigned j = k == 10 ? 0 : nbits - 1; j < nbits; j += k == 10 ? 1u : -1u) {
                    unsigned long v = sw ? __builtin_bswap64(bm[d][j / 64]) : bm[d][j / 64];
                    if (((v >> (j % 64) & 1) ^ inv) && ((x & 4096) || (k == 10 ? j >= s : j <= s))) { want = j; break; }
                }
                if (x & 4096) got = k == 10 ? bfdev_comp_find_first_bit(bm[d], nbits, inv ? ~0ul : 0, sw) : bfdev_comp_find_last_bit(bm[d], nbits, inv ? ~0ul : 0, sw);
                else got = k == 10 ? bfdev_comp_find_next_bit(bm[d], NULL, nbits, s, inv ? ~0ul : 0, sw) : bfdev_comp_find_prev_bit(bm[d], NULL, nbits, s, inv ? ~0ul : 0, sw);
                SIM_CHECK(got == want, "bitmap:find-swapped", "%s of %u bits (from %u) is %u, expected %u (swap %d, zeros %d)", k == 10 ? "forward" : "backward", nbits, s, got, want, sw, inv);
                break;
            }
            static const char *const fn[] = { "first-bit", "last-bit", "first-zero", "last-zero", "next-bit", "prev-bit", "next-zero", "prev-zero", "next-and", "prev-and" };
            if (s > nbits + 2) s = nbits;
            want = k == 0 ? ref(d, -1, 0, 1, true) : k == 1 ? ref(d, -1, nbits - 1, -1, true) : k == 2 ? ref(d, -1, 0, 1, false) : k == 3 ? ref(d, -1, nbits - 1, -1, false)
                : s >= nbits ? nbits : ref(d, k >= 8 ? a : -1, s, k & 1 ? -1 : 1, k < 6 || k >= 8);
            got = find(k, d, a, s);
            SIM_CHECK(got == want, "bitmap:find", "%s from %u of %u bits is %u, expected %u (length %s)", fn[k], s, nbits, got, want, cbits ? "constant" : "variable");
            sim_log(got);
            break;
        }
        case BIT: {
            unsigned p = s % nbits;
            bool v = x & 16, r = mv[d][p];
            switch (x % 12) {
            case 9: case 10: case 11: {
                /* byte-order variants address a byte string, most significant byte first or last */
                unsigned q = p ^ (x & 32 ? 56 : 0);
                unsigned char *by = (unsigned char *)bm[d] + (x & 32 ? 7 - p / 8 % 8 + p / 64 * 8 : p / 8);
                bool was = *by >> (p % 8) & 1, now = x % 12 == 9 ? true : x % 12 == 10 ? false : !was;
                if (x & 64) {
                    /* the plain forms answer nothing: asked before */
                    r = x & 32 ? bfdev_bit_test_be(bm[d], p) : bfdev_bit_test_le(bm[d], p);
                    if (x & 128) { if (x & 32) bfdev_bit_change_be(bm[d], p, now); else bfdev_bit_change_le(bm[d], p, now); }
                    else if (x % 12 == 9) { if (x & 32) bfdev_bit_set_be(bm[d], p); else bfdev_bit_set_le(bm[d], p); }
                    else if (x % 12 == 10) { if (x & 32) bfdev_bit_clr_be(bm[d], p); else bfdev_bit_clr_le(bm[d], p); }
                    else { if (x & 32) bfdev_bit_flip_be(bm[d], p); else bfdev_bit_flip_le(bm[d], p); }
                } else if (x & 32 && x & 128) r = bfdev_bit_test_change_be(bm[d], p, now);
                else if (x & 32) r = x % 12 == 9 ? bfdev_bit_test_set_be(bm[d], p) : x % 12 == 10 ? bfdev_bit_test_clr_be(bm[d], p) : bfdev_bit_test_flip_be(bm[d], p);
                else r = x % 12 == 9 ? bfdev_bit_test_set_le(bm[d], p) : x % 12 == 10 ? bfdev_bit_test_clr_le(bm[d], p) : bfdev_bit_test_flip_le(bm[d], p);
                SIM_CHECK(r == was && (*by >> (p % 8) & 1) == now, "bitmap:endian", "the %s-endian bit %u went wrong", x & 32 ? "big" : "little", p);
                if (q < nbits) { SIM_CHECK(mv[d][q] == was, "bitmap:endian", "bit %u read as %d", q, r); res[q] = now; }
                r = mv[d][p];
                break;
            }
            case 0: bfdev_bit_set(bm[d], p); res[p] = 1; break;
            case 1: bfdev_bit_clr(bm[d], p); res[p] = 0; break;
            case 2: bfdev_bit_flip(bm[d], p); res[p] ^= 1; break;
            case 3: bfdev_bit_change(bm[d], p, v); res[p] = v; break;
            case 4: r = bfdev_bit_test(bm[d], p); break;
            case 5: r = bfdev_bit_test_set(bm[d], p); res[p] = 1; break;
            case 6: r = bfdev_bit_test_clr(bm[d], p); res[p] = 0; break;
            case 7: r = bfdev_bit_test_flip(bm[d], p); res[p] ^= 1; break;
            case 8: r = bfdev_bit_test_change(bm[d], p, v); res[p] = v; break;
            }
            SIM_CHECK(r == mv[d][p], "bitmap:test", "bit %u read as %d", p, r);
            break;
        }
        case WALK: {
            unsigned idx, at = 0, steps = 0, p = (unsigned)(x >> 20) % nbits;
            /* from: the position itself is visited, whatever it holds; continue: what lies behind it */
#define WALKS(loop, dir, val, from) { \
                if (from == 0) at = dir > 0 ? ref(d, -1, 0, 1, val) : ref(d, -1, nbits - 1, -1, val); \
                else if (from == 1) at = idx = p; \
                else { idx = p; at = dir > 0 ? p + 1 < nbits ? ref(d, -1, p + 1, 1, val) : nbits : p ? ref(d, -1, p - 1, -1, val) : nbits; } \
                loop(idx, bm[d], nbits) { \
                    SIM_CHECK(idx == at, "bitmap:walk", #loop " visits %u, expected %u", idx, at); \
                    at = dir > 0 ? at + 1 < nbits ? ref(d, -1, at + 1, 1, val) : nbits : at ? ref(d, -1, at - 1, -1, val) : nbits; \
                    if (++steps > nbits) break; \
                } \
                break; }
            switch (x % 12) {
            case 0: WALKS(bfdev_for_each_bit, 1, true, 0)
            case 1: WALKS(bfdev_for_each_zero, 1, false, 0)
            case 2: WALKS(bfdev_for_each_bit_reverse, -1, true, 0)
            case 3: WALKS(bfdev_for_each_zero_reverse, -1, false, 0)
            case 4: WALKS(bfdev_for_each_bit_form, 1, true, 1)
            case 5: WALKS(bfdev_for_each_zero_form, 1, false, 1)
            case 6: WALKS(bfdev_for_each_bit_reverse_form, -1, true, 1)
            case 7: WALKS(bfdev_for_each_zero_reverse_form, -1, false, 1)
            case 8: WALKS(bfdev_for_each_bit_continue, 1, true, 2)
            case 9: WALKS(bfdev_for_each_zero_continue, 1, false, 2)
            case 10: WALKS(bfdev_for_each_bit_reverse_continue, -1, true, 2)
            case 11: WALKS(bfdev_for_each_zero_reverse_continue, -1, false, 2)
            }
            SIM_CHECK(at >= nbits && steps <= nbits, "bitmap:walk", "the walk stopped before %u", at);
            sim_log(steps);
            break;
        }
        case JUNK:
            /* bits past the end belong to nobody */
            if (nbits % 64) bm[d][words - 1] = (bm[d][words - 1] & ~(~0ul << nbits % 64)) | (x << nbits % 64);
            sim_fault("junk_past_the_end");
            break;
        default: continue;
        }
        memcpy(mv[d], res, nbits);
        check();
        sim_state(sim_mix(o->kind * 8 + (unsigned)((d == a) + 2 * (d == b) + 4 * cbits), sim_mix(nbits, s)));
    }
    sim_heap_calm(h);
    for (int i = 0; i < NB; ++i) bfdev_bitmap_free(al, bm[i]);
    sim_heap_expect_empty(h, "bitmap free");
}

const sim_workload w_bitmap = { "B01", "bitmap", cfn, opn, gen, exec, 1 };
