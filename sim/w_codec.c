/* W01: text encodings over a channel that damages the text.  Buffers are
 * exactly as large as the length helpers say, so a byte too many is caught. */
#include "sim.h"
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>
#include <bfdev/errno.h>

enum { SEND, NOPS_ };
static const char *const opn[] = { "send" };
static const char *const cfn[SIM_NCFG] = { "style" };
enum { B64, B32, A85, NCODEC };
enum { D_NONE, D_FLIP, D_TRUNC, D_APPEND, D_SWAP, D_DUP, D_PAD, D_DROP, ND };
#define MAXLEN 70000

static const char alpha64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char alpha32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

/* reference: bits of the message, most significant first, in groups of `bits` */
static size_t ref_base(uint8_t *out, const uint8_t *in, size_t n, unsigned bits, const char *alpha, unsigned block)
{
    size_t k = 0, total = n * 8;
    for (size_t b = 0; b < total; b += bits) {
        unsigned v = 0;
        for (unsigned j = 0; j < bits; ++j) v = v << 1 | (b + j < total ? in[(b + j) / 8] >> (7 - (b + j) % 8) & 1 : 0);
        out[k++] = (uint8_t)alpha[v];
    }
    while (k % block) out[k++] = '=';
    return k;
}
/* returns the number of whole bytes, or -1 for a foreign character */
static long ref_unbase(uint8_t *out, const uint8_t *in, size_t n, unsigned bits, const char *alpha)
{
    uint32_t acc = 0;
    unsigned have = 0;
    long k = 0;
    for (size_t i = 0; i < n && in[i] != '='; ++i) {
        const char *p = in[i] ? strchr(alpha, in[i]) : NULL;
        if (!p) return -1;
        acc = (acc << bits | (uint32_t)(p - alpha)) & 0xffffff;
        have += bits;
        if (have >= 8) { have -= 8; out[k++] = (uint8_t)(acc >> have); }
    }
    return k;
}
static size_t ref_85(uint8_t *out, const uint8_t *in, size_t n)
{
    size_t k = 0;
    for (size_t i = 0; i < n; i += 4) {
        uint32_t v = 0;
        for (size_t j = 0; j < 4; ++j) v = v << 8 | (i + j < n ? in[i + j] : 0);
        if (!v) { out[k++] = 'z'; continue; }
        for (int j = 4; j >= 0; --j) { out[k + (size_t)j] = (uint8_t)('!' + v % 85); v /= 85; }
        k += 5;
    }
    return k;
}
/* *over: a group names a number beyond 2^32, whose value is not specified */
static long ref_un85(uint8_t *out, const uint8_t *in, size_t n, bool *over)
{
    long k = 0;
    for (size_t i = 0; i < n; k += 4) {
        uint64_t v = 0;
        if (in[i] == 'z') { memset(out + k, 0, 4); i++; continue; }
        if (n - i < 5) return -1;
        for (int j = 0; j < 5; ++j, ++i) {
            if (in[i] < '!' || in[i] > 'u') return -1;
            v = v * 85 + in[i] - '!';
        }
        if (v >> 32) *over = true;
        for (int j = 0; j < 4; ++j) out[k + j] = (uint8_t)(v >> (24 - 8 * j));
    }
    return k;
}

static void content(uint8_t *m, size_t n, int64_t style, uint64_t seed)
{
    sim_rng r;
    sim_seed(&r, seed);
    for (size_t i = 0; i < n; ++i)
        m[i] = style == 0 ? (uint8_t)sim_u64(&r) : style == 1 ? (sim_chance(&r, 1, 12) ? (uint8_t)sim_u64(&r) : 0)
             : style == 2 ? 0xff - (uint8_t)sim_below(&r, 3) : style == 3 ? (uint8_t)(1u << sim_below(&r, 8)) : (uint8_t)i;
    if (style == 1) for (size_t i = 0; i + 4 <= n; i += 4) if (sim_chance(&r, 2, 3)) memset(m + i, 0, 4);
}

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int n = (int)sim_range(r, 1, 8);
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 0, 5);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, SEND);
        o->a[0] = sim_range(r, 0, NCODEC - 1);
        o->a[1] = sim_chance(r, 1, 2) ? sim_range(r, 0, 12) : sim_chance(r, 1, 8) ? sim_range(r, 0, sim_chance(r, 1, 100) ? MAXLEN : 700) : sim_range(r, 0, 60);
        o->a[2] = (int64_t)(sim_u64(r) >> 1);
        o->a[3] = faults && sim_chance(r, 2, 3) ? sim_range(r, 1, ND - 1) + 16 * sim_range(r, 0, 2) : D_NONE;
    }
}

static void exec(const sim_trace *tr)
{
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int codec = (int)((uint64_t)o->a[0] % NCODEC);
        size_t n = (size_t)o->a[1] % (MAXLEN + 1);
        int64_t style = tr->cfg[0] >= 5 ? o->a[2] % 5 : tr->cfg[0];
        static const char *const cn[] = { "base64", "base32", "ascii85" };
        uint8_t *ref = sim_tmp(8 * n + 64), *chan = sim_tmp(16 * n + 128), *want = sim_tmp(64 * n + 512), *keep;
        sim_rng r;

        /* encode: exact buffers, misaligned by the seed */
        uint8_t *msg = malloc(n ? n : 1);
        content(msg, n, style, (uint64_t)o->a[2]);
        keep = sim_tmp(n + 1); memcpy(keep, msg, n);
        size_t cap = codec == B64 ? bfdev_base64_encode_length(n) : codec == B32 ? bfdev_base32_encode_length(n) : bfdev_ascii85_encode_length(n);
        size_t rl = codec == B64 ? ref_base(ref, msg, n, 6, alpha64, 4) : codec == B32 ? ref_base(ref, msg, n, 5, alpha32, 8) : ref_85(ref, msg, n);
        SIM_CHECK(cap >= rl && cap <= rl + (codec == A85 ? 4 * n + 5 : 0), "codec:encode-length", "%s: %zu bytes said for a text of %zu", cn[codec], cap, rl);
        uint8_t *txt = malloc(cap ? cap : 1);
        size_t got = ~(size_t)0;
        if (codec == B64) bfdev_base64_encode(txt, msg, n), got = cap;
        else if (codec == B32) bfdev_base32_encode(txt, msg, n), got = cap;
        else bfdev_ascii85_encode(txt, msg, &got, n);
        SIM_CHECK(got == rl && !memcmp(txt, ref, rl), "codec:encode", "%s: a message of %zu bytes is encoded wrongly", cn[codec], n);
        SIM_CHECK(!memcmp(msg, keep, n), "codec:input", "%s: encoding changed its input", cn[codec]);
        sim_logbuf(txt, rl);
        free(txt);

        /* the channel */
        size_t len = rl;
        memcpy(chan, ref, rl);
        sim_seed(&r, (uint64_t)o->a[2] ^ 0x5eed);
        int kind = (int)(o->a[3] & 15), times = kind ? 1 + (int)(o->a[3] >> 4 & 3) : 0;
        for (int t = 0; t < times; ++t) {
            size_t at = len ? sim_below(&r, len) : 0;
            switch (kind) {
            case D_FLIP: if (len) { chan[at] ^= (uint8_t)(1u << sim_below(&r, 8)); sim_fault("channel_bit_flip"); } break;
            case D_TRUNC: if (len) { len = at; sim_fault("channel_truncation"); } break;
            case D_APPEND: { size_t k = 1 + sim_below(&r, 7); while (k--) chan[len++] = (uint8_t)sim_u64(&r); sim_fault("channel_garbage_appended"); break; }
            case D_SWAP: if (len) { size_t b = sim_below(&r, len); uint8_t c = chan[at]; chan[at] = chan[b]; chan[b] = c; sim_fault("channel_reorder"); } break;
            case D_DUP: if (len && len < 8 * n) { memmove(chan + at + 1, chan + at, len - at); len++; sim_fault("channel_duplicate"); } break;
            case D_PAD: if (len) { chan[at] = codec == A85 ? 'z' : '='; sim_fault("channel_early_end"); } break;
            case D_DROP: if (len) { memmove(chan + at, chan + at + 1, len - at - 1); len--; sim_fault("channel_loss"); } break;
            }
        }

        /* decode from a text and into a buffer that end where they must */
        bool over = false;
        long wl = codec == B64 ? ref_unbase(want, chan, len, 6, alpha64) : codec == B32 ? ref_unbase(want, chan, len, 5, alpha32) : ref_un85(want, chan, len, &over);
        size_t room = codec == B64 ? bfdev_base64_decode_length(len) : codec == B32 ? bfdev_base32_decode_length(len) : bfdev_ascii85_decode_length(len);
        bool zeros = codec == A85 && memchr(chan, 'z', len);
        if (!zeros || o->a[4] == 85)    /* listed finding: the helper forgets zero groups */
            SIM_CHECK((long)room >= wl, "codec:decode-length", "%s: %zu bytes said for %ld", cn[codec], room, wl);
        if (zeros && room < len * 4) room = len * 4;
        uint8_t *src = malloc(len ? len : 1), *dst = malloc(room ? room : 1);
        memcpy(src, chan, len);
        size_t dl = ~(size_t)0;
        int rc = codec == B64 ? bfdev_base64_decode(dst, src, len) : codec == B32 ? bfdev_base32_decode(dst, src, len)
               : bfdev_ascii85_decode(dst, src, &dl, len);
        sim_log((uint64_t)rc);
        SIM_CHECK(!memcmp(src, chan, len), "codec:input", "%s: decoding changed its input", cn[codec]);
        if (wl < 0) {
            SIM_CHECK(rc < 0, "codec:accepted", "%s: a text of %zu with damage outside the alphabet is accepted", cn[codec], len);
            sim_probe("damage_refused");
        } else if (!over) {
            SIM_CHECK(!rc, "codec:refused", "%s: a well-formed text of %zu is refused (%d)", cn[codec], len, rc);
            if (codec == A85) SIM_CHECK((long)dl == wl, "codec:decoded-length", "ascii85: decoded to %zu bytes, not %ld", dl, wl);
            SIM_CHECK(!memcmp(dst, want, (size_t)wl), "codec:decode", "%s: a text of %zu is decoded wrongly", cn[codec], len);
            sim_probe(times ? "damage_decoded_as_written" : "round_trip");
        }
        if (!times) SIM_CHECK(wl >= (long)n && !memcmp(dst, msg, n), "codec:round-trip", "%s: %zu bytes do not come back", cn[codec], n);
        sim_state(sim_mix(sim_mix((uint64_t)codec, n % 60), (uint64_t)kind * 2 + (wl < 0)));
        free(src); free(dst); free(msg);
    }
}

const sim_workload w_codec = { "W01", "codec", cfn, opn, gen, exec, 1 };
