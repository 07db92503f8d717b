/*
 * S02 digests, S03 checksums, S04 stream cipher: what a stream yields depends on
 * its bytes alone, not on how it was delivered: chunking, alignment, interleaving
 * with other streams, and being suspended, moved or restarted from a checkpoint.
 */
#define _GNU_SOURCE
#include "sim.h"
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <bfdev/crc.h>
#include <bfdev/arc4.h>
#include <sys/mman.h>
#include <unistd.h>

#define NST 3
#define MAXLEN 4096

/* ---- reference digests, written from the standards --------------------- */
static uint32_t rol(uint32_t v, unsigned n) { return v << n | v >> (32 - n); }
static uint32_t ror(uint32_t v, unsigned n) { return v >> n | v << (32 - n); }
static uint32_t be32(const unsigned char *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static uint32_t le32(const unsigned char *p) { return (uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]; }

static const unsigned char md5_s[64] = {
    7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22, 5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,
    4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23, 6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21 };
static const uint32_t md5_k[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,
    0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,
    0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,
    0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,
    0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const uint32_t sha2_k[64] = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
    0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
    0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
    0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
    0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };

static void ref_block(int alg, uint32_t *h, const unsigned char *b)
{
    uint32_t w[80], a = h[0], bb = h[1], c = h[2], d = h[3], e, f, g, hh, t;
    if (alg == 0) {
        for (int i = 0; i < 64; ++i) {
            uint32_t F; int k;
            if (i < 16) { F = (bb & c) | (~bb & d); k = i; }
            else if (i < 32) { F = (d & bb) | (~d & c); k = (5 * i + 1) & 15; }
            else if (i < 48) { F = bb ^ c ^ d; k = (3 * i + 5) & 15; }
            else { F = c ^ (bb | ~d); k = (7 * i) & 15; }
            t = d; d = c; c = bb;
            bb = bb + rol(a + F + md5_k[i] + le32(b + 4 * k), md5_s[i]);
            a = t;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d;
        return;
    }
    for (int i = 0; i < 16; ++i) w[i] = be32(b + 4 * i);
    e = h[4];
    if (alg == 1) {
        for (int i = 16; i < 80; ++i) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        for (int i = 0; i < 80; ++i) {
            uint32_t F, K;
            if (i < 20) { F = (bb & c) | (~bb & d); K = 0x5a827999; }
            else if (i < 40) { F = bb ^ c ^ d; K = 0x6ed9eba1; }
            else if (i < 60) { F = (bb & c) | (bb & d) | (c & d); K = 0x8f1bbcdc; }
            else { F = bb ^ c ^ d; K = 0xca62c1d6; }
            t = rol(a, 5) + F + e + K + w[i];
            e = d; d = c; c = rol(bb, 30); bb = a; a = t;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e;
        return;
    }
    f = h[5]; g = h[6]; hh = h[7];
    for (int i = 16; i < 64; ++i)
        w[i] = w[i-16] + w[i-7] + (ror(w[i-15], 7) ^ ror(w[i-15], 18) ^ w[i-15] >> 3) + (ror(w[i-2], 17) ^ ror(w[i-2], 19) ^ w[i-2] >> 10);
    for (int i = 0; i < 64; ++i) {
        uint32_t t1 = hh + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & g)) + sha2_k[i] + w[i];
        uint32_t t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & bb) ^ (a & c) ^ (bb & c));
        hh = g; g = f; f = e; e = d + t1; d = c; c = bb; bb = a; a = t1 + t2;
    }
    h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}

static const char *const dnames[] = { "md5", "sha1", "sha224", "sha256" };
static const unsigned dsize[] = { 16, 20, 28, 32 };

static void ref_digest(int alg, const unsigned char *m, size_t n, unsigned char *out)
{
    static const uint32_t iv[4][8] = {
        { 0x67452301,0xefcdab89,0x98badcfe,0x10325476 },
        { 0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0 },
        { 0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4 },
        { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 } };
    uint32_t h[8];
    unsigned char b[128] = { 0 };
    size_t i = 0, r;
    memcpy(h, iv[alg], sizeof(h));
    for (; i + 64 <= n; i += 64) ref_block(alg, h, m + i);
    r = n - i;
    memcpy(b, m + i, r);
    b[r] = 0x80;
    size_t tot = r + 9 <= 64 ? 64 : 128;
    for (int k = 0; k < 8; ++k) {
        uint64_t bits = (uint64_t)n * 8;
        b[alg ? tot - 1 - (size_t)k : tot - 8 + (size_t)k] = (unsigned char)(bits >> (8 * k));
    }
    ref_block(alg, h, b);
    if (tot == 128) ref_block(alg, h, b + 64);
    for (unsigned k = 0; k < dsize[alg]; ++k)
        out[k] = (unsigned char)(alg ? h[k / 4] >> (24 - 8 * (k & 3)) : h[k / 4] >> (8 * (k & 3)));
}

typedef union dctx { bfdev_md5_ctx_t md5; bfdev_sha1_ctx_t sha1; bfdev_sha2_ctx_t sha2; } dctx;

static void d_init(int a, dctx *c)
{
    switch (a) { case 0: bfdev_md5_init(&c->md5); break; case 1: bfdev_sha1_init(&c->sha1); break; case 2: bfdev_sha224_init(&c->sha2); break; default: bfdev_sha256_init(&c->sha2); }
}
static void d_update(int a, dctx *c, const void *p, size_t n)
{
    switch (a) { case 0: bfdev_md5_update(&c->md5, p, n); break; case 1: bfdev_sha1_update(&c->sha1, p, n); break; default: bfdev_sha2_update(&c->sha2, p, n); }
}
static void d_finish(int a, dctx *c, void *out)
{
    switch (a) { case 0: bfdev_md5_finish(&c->md5, out); break; case 1: bfdev_sha1_finish(&c->sha1, out); break; case 2: bfdev_sha224_finish(&c->sha2, out); break; default: bfdev_sha256_finish(&c->sha2, out); }
}

/* ---- delivery: exact-size, misaligned, short-lived chunks -------------- */
static unsigned char *chunk_get(const unsigned char *src, size_t n, unsigned mis, void **base)
{
    *base = malloc(n + mis ? n + mis : 1);
    if (!*base) abort();
    memcpy((unsigned char *)*base + mis, src, n);
    return (unsigned char *)*base + mis;
}
static void chunk_put(void *base, size_t n) { memset(base, 0xa5, n); free(base); }

enum { CHUNK, SAVE, RESTART, MOVE, SPLIT, FINISH, LONG_, NOPS_ };
static const char *const opn[] = { "chunk", "save", "restart", "move", "split", "finish", "long" };
static const char *const cfn[SIM_NCFG] = { "kind", "seed", "chunkmode", "garbage" };

static unsigned char msg[NST][MAXLEN];

static void gen_common(sim_rng *r, sim_trace *tr, int faults, int tier, int kinds)
{
    static const int w[] = { 30, 3, 3, 3, 2, 4, 0 }, wf[] = { 30, 0, 0, 0, 2, 4, 0 };
    int n = (int)sim_range(r, 2, tier ? 120 : 40);
    tr->ncfg = 4;
    tr->cfg[0] = sim_range(r, 0, kinds - 1);
    tr->cfg[1] = (int64_t)(sim_u64(r) >> 1);
    tr->cfg[2] = sim_range(r, 0, 5);
    tr->cfg[3] = (int64_t)sim_u64(r);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, faults ? w : wf, NOPS_));
        o->a[0] = sim_range(r, 0, NST - 1);
        switch (tr->cfg[2]) {
        case 0: o->a[1] = sim_range(r, 0, 3); break;
        case 1: o->a[1] = sim_range(r, 0, 64); break;
        case 2: o->a[1] = sim_chance(r, 1, 2) ? 64 : sim_range(r, 0, 200); break;
        case 3: o->a[1] = sim_range(r, 50, 70); break;
        case 4: o->a[1] = sim_range(r, 0, 1000); break;
        default: o->a[1] = sim_chance(r, 1, 3) ? sim_range(r, 0, 2) : sim_chance(r, 1, 2) ? 8 * sim_range(r, 0, 16) : sim_range(r, 60, 130); break;
        }
        o->a[2] = sim_range(r, 0, 7);
        o->a[3] = sim_range(r, 0, 1 << 20);
    }
}

static void fill(const sim_trace *tr)
{
    sim_rng rr;
    sim_seed(&rr, (uint64_t)tr->cfg[1]);
    for (int s = 0; s < NST; ++s) {
        int style = (int)sim_range(&rr, 0, 3);
        for (int i = 0; i < MAXLEN; ++i)
            msg[s][i] = style == 0 ? 0 : style == 1 ? 0xff : (unsigned char)sim_u64(&rr);
    }
}

/* ---- S02 ---------------------------------------------------------------- */
static void dgen(sim_rng *r, sim_trace *tr, int faults, int tier) { gen_common(r, tr, faults, tier, 4); }

static void dexec(const sim_trace *tr)
{
    int alg = (int)tr->cfg[0];
    dctx *c[NST], saved[NST];
    size_t pos[NST], spos[NST];
    bool has[NST] = { 0 };
    if (alg < 0 || alg > 3) return;
    fill(tr);
    for (int s = 0; s < NST; ++s) {
        c[s] = malloc(sizeof(dctx)); if (!c[s]) abort();
        memset(c[s], (int)(tr->cfg[3] & 0xff), sizeof(dctx));   /* init must not rely on zeroed memory */
        d_init(alg, c[s]); pos[s] = 0;
    }
    for (int i = 0; i <= tr->nops + NST - 1; ++i) {
        static const sim_op last = { .kind = FINISH };
        const sim_op *o = i < tr->nops ? &tr->ops[i] : &last;
        int s = i < tr->nops ? (int)((uint64_t)o->a[0] % NST) : i - tr->nops;
        size_t n = (size_t)o->a[1];
        unsigned mis = (unsigned)o->a[2] & 7;
        void *base; unsigned char *p;
        switch (o->kind) {
        case CHUNK:
            if (pos[s] + n > MAXLEN) break;
            if (!n) sim_fault("empty_delivery");
            if (n && n < 64) sim_fault("short_delivery");
            p = chunk_get(msg[s] + pos[s], n, mis, &base);
            d_update(alg, c[s], p, n);
            SIM_CHECK(!memcmp(p, msg[s] + pos[s], n), "digest:input", "%s changed the data it was given", dnames[alg]);
            chunk_put(base, n + mis);
            pos[s] += n;
            break;
        case SAVE: saved[s] = *c[s]; spos[s] = pos[s]; has[s] = true; break;
        case RESTART:                   /* crash: only the checkpoint survives */
            if (!has[s]) break;
            memset(c[s], 0xdd, sizeof(dctx)); *c[s] = saved[s]; pos[s] = spos[s];
            sim_fault("crash_restart_from_checkpoint");
            break;
        case MOVE: {                    /* the context moves to other memory */
            dctx *m = malloc(sizeof(dctx)); if (!m) abort();
            *m = *c[s]; memset(c[s], 0xdd, sizeof(dctx)); free(c[s]); c[s] = m;
            sim_fault("context_moved");
            break; }
        case SPLIT:                     /* one delivery, cut in two at every possible place */
        case FINISH: {
            unsigned char want[32], *out;
            ref_digest(alg, msg[s], pos[s], want);
            if (o->kind == SPLIT) {
                size_t cut = pos[s] ? (size_t)((uint64_t)o->a[3] % (pos[s] + 1)) : 0;
                dctx t; memset(&t, 0x77, sizeof(t));
                d_init(alg, &t);
                d_update(alg, &t, msg[s], cut); d_update(alg, &t, msg[s] + cut, pos[s] - cut);
                p = chunk_get(want, dsize[alg], mis, &base);
                memset(p, 0, dsize[alg]);
                d_finish(alg, &t, p);
                SIM_CHECK(!memcmp(p, want, dsize[alg]), "digest:wrong", "%s of %zu bytes delivered as %zu+%zu differs from the standard", dnames[alg], pos[s], cut, pos[s] - cut);
                chunk_put(base, dsize[alg] + mis);
                break;
            }
            out = chunk_get(want, dsize[alg], mis, &base);
            memset(out, 0, dsize[alg]);
            d_finish(alg, c[s], out);
            SIM_CHECK(!memcmp(out, want, dsize[alg]), "digest:wrong", "%s of %zu bytes delivered in pieces differs from the standard", dnames[alg], pos[s]);
            sim_logbuf(out, dsize[alg]);
            chunk_put(base, dsize[alg] + mis);
            if (pos[s] % 64 >= 56) sim_probe("padding_needs_second_block");
            d_init(alg, c[s]); pos[s] = 0; has[s] = false;
            break; }
        }
        sim_state(sim_mix(sim_mix((uint64_t)alg, o->kind), pos[s]));
    }
    for (int s = 0; s < NST; ++s) free(c[s]);
}

/* ---- S02, long streams: the length outgrows 32 bits --------------------- */
#include "longdigest.h"
static const char *const lopn[] = { "chunk" };
static const char *const lcfn[SIM_NCFG] = { "case", "whole" };
static unsigned char period[1 << 16];

/* a stream of any length in one piece of memory: one megabyte, mapped over and over */
#define RING (1ul << 20)
static void fill_period(void)
{
    for (unsigned j = 0; j < sizeof(period); ++j) period[j] = (unsigned char)((j * 167u + (j >> 8) * 13u) >> 1);
}
static unsigned char *ring_map(uint64_t len, bool filled, int *fdp)
{
    uint64_t size = (len + RING - 1) / RING * RING;
    int fd = memfd_create("ring", 0);
    unsigned char *p = mmap(NULL, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (fd < 0 || p == MAP_FAILED || ftruncate(fd, (off_t)RING)) abort();
    for (uint64_t o = 0; o < size; o += RING)
        if (mmap(p + o, RING, PROT_READ | (filled && o ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    if (filled) {
        for (uint64_t o = 0; o < RING; o += sizeof(period)) memcpy(p + o, period, sizeof(period));
        if (mprotect(p, RING, PROT_READ)) abort();
    }
    *fdp = fd;
    return p;
}
static void ring_unmap(unsigned char *p, uint64_t len, int fd)
{
    munmap(p, (len + RING - 1) / RING * RING + 4096);
    close(fd);
}

static void lgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    (void)faults;
    tr->ncfg = 2;
    /* most runs are a few megabytes at most; a few cross 2^29 and, when there is time, 2^32 bytes */
    tr->cfg[0] = sim_range(r, 0, 3) * LONG_LENS + (sim_chance(r, 1, tier ? 40 : 10) ? (tier && sim_chance(r, 1, 3) ? LONG_LENS - 1 : sim_range(r, LONG_SHORT, LONG_LENS - 2)) : sim_range(r, 0, LONG_SHORT - 1));
    int n = (int)sim_range(r, 1, 8);
    /* all that is left in one delivery, longer than 16 bits count, now and then than 32 do */
    tr->cfg[1] = sim_chance(r, 1, 3);
    if (sim_chance(r, 1, 30)) { tr->cfg[1] = 1; tr->cfg[0] = sim_range(r, 0, 3) * LONG_LENS + LONG_LENS - 1; }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, 0);
        o->a[0] = sim_chance(r, 1, 3) ? sim_range(r, 1, 1000) : sim_range(r, 4000, 65536);
        o->a[1] = sim_range(r, 1, 2000);
    }
    /* ... and then so that its low 32 bits alone are less than a block */
    if (tr->cfg[1] && tr->cfg[0] % LONG_LENS == LONG_LENS - 1 && sim_chance(r, 3, 4)) {
        int64_t first = (int64_t)(long_len[LONG_LENS - 1] & 0xffffffffu) - sim_range(r, 0, 61);
        for (tr->nops = 0; first > 0; ) {
            sim_op *o = sim_add(tr, 0);
            o->a[0] = first < 500 ? first : sim_range(r, 300, 500);
            o->a[1] = 1;
            first -= o->a[0];
        }
        sim_add(tr, 0)->a[1] = 1;       /* from here on */
    }
}

static void lexec(const sim_trace *tr)
{
    int alg = (int)(tr->cfg[0] / LONG_LENS), k = (int)(tr->cfg[0] % LONG_LENS), i = 0;
    uint64_t left, off = 0, step = 0;
    unsigned char out[32];
    dctx c;
    if (tr->cfg[0] < 0 || alg > 3) return;
    fill_period();
    memset(&c, 0x55, sizeof(c));
    d_init(alg, &c);
    if (long_len[k] >> 28) sim_slow(180);
    /* the operations say how the first part is delivered; the rest comes in 64 KiB pieces */
    for (left = long_len[k]; left; ) {
        uint64_t n = sizeof(period) - off;
        if (i < tr->nops && tr->ops[i].a[0] > 0 && (uint64_t)tr->ops[i].a[0] < n) n = (uint64_t)tr->ops[i].a[0];
        if (i < tr->nops && tr->cfg[1] & 1) n = n > 500 ? n % 500 : n;
        if (i < tr->nops && (++step >= (uint64_t)tr->ops[i].a[1] || tr->cfg[1] & 1)) { i++; step = 0; }
        if (n > left) n = left;
        if (i >= tr->nops && tr->cfg[1] & 1) {
            int fd;
            unsigned char *ring = ring_map(off + left, true, &fd);
            d_update(alg, &c, ring + off, left);
            ring_unmap(ring, off + left, fd);
            sim_fault("long_delivery");
            if (left >> 32) sim_probe("delivery_of_more_than_2^32_bytes");
            break;
        }
        d_update(alg, &c, period + off, n);
        off = (off + n) % sizeof(period); left -= n;
    }
    d_finish(alg, &c, out);
    SIM_CHECK(!memcmp(out, long_digest[alg][k], dsize[alg]), "digest:long", "%s of %llu bytes differs from the standard", dnames[alg], (unsigned long long)long_len[k]);
    if (long_len[k] >> 29) sim_probe(alg == 0 ? "md5_of_more_than_2^32_bits" : alg == 1 ? "sha1_of_more_than_2^32_bits" : alg == 2 ? "sha224_of_more_than_2^32_bits" : "sha256_of_more_than_2^32_bits");
    if (long_len[k] >> 32) sim_probe("more_than_2^32_bytes");
    sim_logbuf(out, dsize[alg]);
}

/* ---- S03 ---------------------------------------------------------------- */
static const struct crcdef { const char *name; int bits; int refl; uint64_t poly; } crcs[] = {
    { "crc7", 7, 0, 0x09 }, { "crc8", 8, 0, 0x07 },
    { "crc16", 16, 1, 0xa001 }, { "crc_ccitt", 16, 1, 0x8408 },
    { "crc_itut", 16, 0, 0x1021 }, { "crc_t10dif", 16, 0, 0x8bb7 },
    { "crc32", 32, 1, 0xedb88320 },
    { "crc64", 64, 0, 0x42f0e1eba9ea3693ull }, { "crc_rocksoft", 64, 1, 0x9a6c9329ac4bc9b5ull },
    { "crc4", 4, 0, 0x7 },
};
#define NCRC 10

/* one bit at a time; crc7 is kept in the upper seven bits of its byte */
static uint64_t ref_crc(int k, uint64_t crc, const unsigned char *p, size_t n)
{
    int bits = k == 0 ? 8 : crcs[k].bits;
    uint64_t poly = k == 0 ? crcs[k].poly << 1 : crcs[k].poly, mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    while (n--) {
        for (int b = 0; b < 8; ++b) {
            if (crcs[k].refl) {
                uint64_t bit = (crc ^ (uint64_t)(*p >> b)) & 1;
                crc = (crc >> 1) ^ (bit ? poly : 0);
            } else {
                uint64_t bit = (crc >> (bits - 1) ^ (uint64_t)(*p >> (7 - b))) & 1;
                crc = ((crc << 1) & mask) ^ (bit ? poly : 0);
            }
        }
        p++;
    }
    return crc & mask;
}

static uint64_t lib_crc(int k, uint64_t crc, const void *p, size_t n)
{
    switch (k) {
    case 0: return bfdev_crc7(p, n, (uint8_t)crc);
    case 1: return bfdev_crc8(p, n, (uint8_t)crc);
    case 2: return bfdev_crc16(p, n, (uint16_t)crc);
    case 3: return bfdev_crc_ccitt(p, n, (uint16_t)crc);
    case 4: return bfdev_crc_itut(p, n, (uint16_t)crc);
    case 5: return bfdev_crc_t10dif(p, n, (uint16_t)crc);
    case 6: return bfdev_crc32(p, n, (uint32_t)crc);
    case 7: return bfdev_crc64(p, n, crc);
    case 8: return bfdev_crc_rocksoft(p, n, crc);
    default: return bfdev_crc4(p, n * 8, (uint8_t)crc);
    }
}

static void cgen(sim_rng *r, sim_trace *tr, int faults, int tier) { gen_common(r, tr, faults, tier, NCRC); }

static void cexec(const sim_trace *tr)
{
    int k = (int)tr->cfg[0];
    uint64_t crc[NST], saved[NST], model[NST], init[NST];
    size_t pos[NST], spos[NST], mpos[NST];
    bool has[NST] = { 0 };
    sim_rng rr;
    if (k < 0 || k >= NCRC) return;
    fill(tr);
    sim_seed(&rr, sim_mix((uint64_t)tr->cfg[1], 5));
    for (int s = 0; s < NST; ++s) {
        uint64_t v = sim_chance(&rr, 1, 2) ? sim_chance(&rr, 1, 2) ? 0 : ~0ull : sim_u64(&rr);
        if (crcs[k].bits == 7) v &= 0xfe;
        else if (crcs[k].bits < 64) v &= (1ull << crcs[k].bits) - 1;
        init[s] = crc[s] = model[s] = v; pos[s] = mpos[s] = 0;
    }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int s = (int)((uint64_t)o->a[0] % NST);
        size_t n = (size_t)o->a[1];
        unsigned mis = (unsigned)o->a[2] & 7;
        void *base; unsigned char *p;
        switch (o->kind) {
        case CHUNK:
            if (pos[s] + n > MAXLEN) break;
            if (!n) sim_fault("empty_delivery");
            if (n && n < 8) sim_fault("short_delivery");
            if (mis) sim_fault("misaligned_delivery");
            p = chunk_get(msg[s] + pos[s], n, mis, &base);
            crc[s] = lib_crc(k, crc[s], p, n);
            SIM_CHECK(!memcmp(p, msg[s] + pos[s], n), "crc:input", "%s changed the data it was given", crcs[k].name);
            chunk_put(base, n + mis);
            pos[s] += n;
            if (mpos[s] > pos[s]) { mpos[s] = 0; model[s] = init[s]; }
            model[s] = ref_crc(k, model[s], msg[s] + mpos[s], pos[s] - mpos[s]);
            mpos[s] = pos[s];
            SIM_CHECK(crc[s] == model[s], "crc:wrong", "%s after %zu bytes is %llx, bit by bit it is %llx", crcs[k].name, pos[s], (unsigned long long)crc[s], (unsigned long long)model[s]);
            sim_log(crc[s]);
            break;
        case SAVE: saved[s] = crc[s]; spos[s] = pos[s]; has[s] = true; break;
        case RESTART:
            if (!has[s]) break;
            crc[s] = saved[s]; pos[s] = spos[s];
            mpos[s] = 0; model[s] = ref_crc(k, init[s], msg[s], pos[s]); mpos[s] = pos[s];
            sim_fault("crash_restart_from_checkpoint");
            break;
        case MOVE: break;
        case SPLIT: case FINISH: {
            /* the whole stream at once, from differently aligned memory, in one and in two pieces */
            size_t cut = (size_t)((uint64_t)o->a[3] % (pos[s] + 1));
            p = chunk_get(msg[s], pos[s], mis, &base);
            uint64_t one = lib_crc(k, init[s], p, pos[s]);
            uint64_t two = lib_crc(k, lib_crc(k, init[s], p, cut), p + cut, pos[s] - cut);
            chunk_put(base, pos[s] + mis);
            SIM_CHECK(one == model[s] || mpos[s] != pos[s], "crc:wrong", "%s of %zu bytes at once is %llx, bit by bit it is %llx", crcs[k].name, pos[s], (unsigned long long)one, (unsigned long long)model[s]);
            SIM_CHECK(two == one, "crc:split", "%s of %zu bytes is %llx, but %llx when cut at %zu", crcs[k].name, pos[s], (unsigned long long)one, (unsigned long long)two, cut);
            if (k == 9 && pos[s]) {
                /* a last byte given in part: its low bits count, what is above them does not */
                unsigned part = (unsigned)(o->a[3] % 7) + 1;
                unsigned char low;
                p = chunk_get(msg[s], pos[s], mis, &base);
                low = p[pos[s] - 1] & ((1u << part) - 1);
                one = bfdev_crc4(p, (pos[s] - 1) * 8 + part, (uint8_t)init[s]);
                chunk_put(base, pos[s] + mis);
                two = ref_crc(k, ref_crc(k, init[s], msg[s], pos[s] - 1), &low, 1);
                SIM_CHECK(one == two, "crc:partial", "crc4 of %zu bits is %llx, by definition it is %llx", (pos[s] - 1) * 8 + part, (unsigned long long)one, (unsigned long long)two);
                sim_probe("partial_last_byte");
            }
            if (o->kind == FINISH) { crc[s] = model[s] = init[s]; pos[s] = mpos[s] = 0; has[s] = false; }
            break; }
        }
        sim_state(sim_mix(sim_mix((uint64_t)k, o->kind), sim_mix(n, mis)));
    }
}

/* one delivery longer than 16 or 32 bits count; the definition is affine in the sum, so the
 * reference takes a period at a time by repeated squaring */
static const uint64_t huge_len[] = { 70001, (1 << 20) + 3, (1 << 24) + 5, (1ul << 32) + 4099 };
#define NHUGE 4
static int huge_pick(sim_rng *r) { return sim_chance(r, 1, 20) ? 3 : (int)sim_range(r, 0, 2); }
static uint64_t mat_mul(const uint64_t *m, uint64_t v) { uint64_t o = 0; for (int i = 0; v; ++i, v >>= 1) if (v & 1) o ^= m[i]; return o; }
static void hcgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    (void)faults; (void)tier;
    tr->ncfg = 3;
    tr->cfg[0] = sim_range(r, 0, NCRC - 1);
    tr->cfg[1] = huge_pick(r);
    tr->cfg[2] = (int64_t)sim_u64(r);
}
static void hcexec(const sim_trace *tr)
{
    static const unsigned char zero[sizeof(period)];
    int k = (int)tr->cfg[0], fd;
    if (k < 0 || k >= NCRC || tr->cfg[1] < 0 || tr->cfg[1] >= NHUGE) return;
    uint64_t len = huge_len[tr->cfg[1]], init = (uint64_t)tr->cfg[2], want, got, skip = init >> 56 & 63;
    uint64_t m[64] = { 0 }, c, q = len / sizeof(period);
    int bits = k == 0 ? 8 : crcs[k].bits;
    init &= bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (k == 0) init &= 0xfe;
    if (len >> 28) sim_slow(180);
    fill_period();
    for (int i = k == 0; i < bits; ++i) m[i] = ref_crc(k, 1ull << i, zero, sizeof(zero));
    c = ref_crc(k, 0, period, sizeof(period));
    for (want = init; q; q >>= 1) {
        uint64_t m2[64];
        if (q & 1) want = mat_mul(m, want) ^ c;
        c = mat_mul(m, c) ^ c;
        for (int i = 0; i < 64; ++i) m2[i] = mat_mul(m, m[i]);
        memcpy(m, m2, sizeof(m));
    }
    want = ref_crc(k, want, period, len % sizeof(period));
    unsigned char *ring = ring_map(len, true, &fd);
    got = lib_crc(k, lib_crc(k, init, ring, skip), ring + skip, len - skip);
    ring_unmap(ring, len, fd);
    sim_fault("long_delivery");
    if ((len - skip) >> 32) sim_probe("delivery_of_more_than_2^32_bytes");
    SIM_CHECK(got == want, "crc:long", "%s of %llu bytes at once is %llx, by definition it is %llx", crcs[k].name, (unsigned long long)len, (unsigned long long)got, (unsigned long long)want);
    sim_log(got);
}

/* ---- S04 ---------------------------------------------------------------- */
typedef struct rc4 { unsigned char s[256]; unsigned char i, j; } rc4;
static void rc4_key(rc4 *c, const unsigned char *k, unsigned n)
{
    for (int i = 0; i < 256; ++i) c->s[i] = (unsigned char)i;
    for (int i = 0, j = 0; i < 256; ++i) { j = (j + c->s[i] + k[(unsigned)i % n]) & 255; unsigned char t = c->s[i]; c->s[i] = c->s[j]; c->s[j] = t; }
    c->i = c->j = 0;
}
static unsigned char rc4_next(rc4 *c)
{
    c->i++; c->j = (unsigned char)(c->j + c->s[c->i]);
    unsigned char t = c->s[c->i]; c->s[c->i] = c->s[c->j]; c->s[c->j] = t;
    return c->s[(unsigned char)(c->s[c->i] + c->s[c->j])];
}

static void agen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    gen_common(r, tr, faults, tier, 256);
    tr->cfg[0] = sim_chance(r, 1, 2) ? sim_range(r, 1, 32) : sim_range(r, 1, 256);
}

static void aexec(const sim_trace *tr)
{
    static unsigned char ct[NST][MAXLEN], key[NST][256];
    unsigned klen = (unsigned)tr->cfg[0];
    bfdev_arc4_ctx_t *c[NST], saved[NST];
    size_t pos[NST], spos[NST];
    bool has[NST] = { 0 };
    sim_rng rr;
    if (tr->cfg[0] < 1 || tr->cfg[0] > 256) return;
    fill(tr);
    sim_seed(&rr, sim_mix((uint64_t)tr->cfg[1], 9));
    for (int s = 0; s < NST; ++s) {
        rc4 m; void *base;
        for (unsigned i = 0; i < klen; ++i) key[s][i] = (unsigned char)sim_u64(&rr);
        rc4_key(&m, key[s], klen);
        for (int i = 0; i < MAXLEN; ++i) ct[s][i] = msg[s][i] ^ rc4_next(&m);
        c[s] = malloc(sizeof(*c[s])); if (!c[s]) abort();
        memset(c[s], (int)(tr->cfg[3] & 0xff), sizeof(*c[s]));
        unsigned char *p = chunk_get(key[s], klen, 0, &base);
        bfdev_arc4_setkey(c[s], p, klen);
        chunk_put(base, klen);
        pos[s] = 0;
    }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int s = (int)((uint64_t)o->a[0] % NST);
        size_t n = (size_t)o->a[1];
        unsigned mis = (unsigned)o->a[2] & 7;
        void *base, *obase; unsigned char *p, *q;
        switch (o->kind) {
        case CHUNK:
            if (pos[s] + n > MAXLEN) break;
            if (!n) sim_fault("empty_delivery");
            if (n == 1) sim_fault("short_delivery");
            /* each stream alternates between its two directions: deciphering is ciphering */
            const unsigned char *src = (o->a[3] & 1 ? ct : msg)[s] + pos[s], *want = (o->a[3] & 1 ? msg : ct)[s] + pos[s];
            p = chunk_get(src, n, mis, &base);
            if (o->a[3] & 2) { q = p; obase = NULL; sim_probe("in_place"); }
            else { q = chunk_get(src, n, (unsigned)(o->a[3] >> 2) & 7, &obase); memset(q, 0, n); }
            bfdev_arc4_trans(c[s], q, p, n);
            SIM_CHECK(!memcmp(q, want, n), "arc4:wrong", "the %zu bytes from %zu on of a stream with a %u-byte key come out wrong", n, pos[s], klen);
            if (obase) { SIM_CHECK(!memcmp(p, src, n), "arc4:input", "the input was changed"); free(obase); }
            chunk_put(base, n + mis);
            pos[s] += n;
            break;
        case SAVE: saved[s] = *c[s]; spos[s] = pos[s]; has[s] = true; break;
        case RESTART:
            if (!has[s]) break;
            *c[s] = saved[s]; pos[s] = spos[s];
            sim_fault("crash_restart_from_checkpoint");
            break;
        case MOVE: {
            bfdev_arc4_ctx_t *m = malloc(sizeof(*m)); if (!m) abort();
            *m = *c[s]; memset(c[s], 0xdd, sizeof(*m)); free(c[s]); c[s] = m;
            sim_fault("context_moved");
            break; }
        case SPLIT: case FINISH:        /* same key again */
            bfdev_arc4_setkey(c[s], key[s], 0);         /* no key: no effect */
            if (o->kind == FINISH) { bfdev_arc4_setkey(c[s], key[s], klen); pos[s] = 0; has[s] = false; }
            break;
        }
        sim_state(sim_mix(sim_mix(klen, o->kind), sim_mix(pos[s], n)));
    }
    for (int s = 0; s < NST; ++s) free(c[s]);
}

/* one piece longer than 16 or 32 bits count */
static void hagen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    (void)faults; (void)tier;
    tr->ncfg = 3;
    tr->cfg[0] = sim_range(r, 1, 256);
    tr->cfg[1] = huge_pick(r);
    tr->cfg[2] = (int64_t)sim_u64(r);
}
static void haexec(const sim_trace *tr)
{
    static unsigned char key[256];
    unsigned klen = (unsigned)tr->cfg[0];
    int fd, fo;
    rc4 m;
    sim_rng rr;
    bfdev_arc4_ctx_t c;
    if (tr->cfg[0] < 1 || tr->cfg[0] > 256 || tr->cfg[1] < 0 || tr->cfg[1] >= NHUGE) return;
    uint64_t len = huge_len[tr->cfg[1]], i, tail = len < RING ? len : RING;
    if (len >> 28) sim_slow(180);
    sim_seed(&rr, (uint64_t)tr->cfg[2]);
    for (i = 0; i < klen; ++i) key[i] = (unsigned char)sim_u64(&rr);
    fill_period();
    unsigned char *in = ring_map(len, true, &fd), *out = ring_map(len, false, &fo), tmp[16];
    bfdev_arc4_setkey(&c, key, klen);
    bfdev_arc4_trans(&c, out, in, len);
    rc4_key(&m, key, klen);
    for (i = 0; i < len - tail; ++i) rc4_next(&m);
    for (; i < len; ++i)
        SIM_CHECK(out[i] == (period[i % sizeof(period)] ^ rc4_next(&m)), "arc4:long", "a piece of %llu bytes comes out wrong at %llu", (unsigned long long)len, (unsigned long long)i);
    bfdev_arc4_trans(&c, tmp, in, sizeof(tmp));
    for (i = 0; i < sizeof(tmp); ++i) SIM_CHECK(tmp[i] == (period[i] ^ rc4_next(&m)), "arc4:long", "the stream goes on wrong after a piece of %llu bytes", (unsigned long long)len);
    ring_unmap(in, len, fd); ring_unmap(out, len, fo);
    sim_fault("long_delivery");
    if (len >> 32) sim_probe("delivery_of_more_than_2^32_bytes");
    sim_logbuf(tmp, sizeof(tmp));
}
static const char *const hopn[] = { "none" };
static const char *const hcfn[SIM_NCFG] = { "kind", "case", "seed" };

const sim_workload w_digest = { "S02", "digest", cfn, opn, dgen, dexec, 500 };
const sim_workload w_digest_long = { "S02", "digest_long", lcfn, lopn, lgen, lexec, 1 };
const sim_workload w_crc = { "S03", "crc", cfn, opn, cgen, cexec, 1000 };
const sim_workload w_crc_huge = { "S03", "crc_huge", hcfn, hopn, hcgen, hcexec, 1 };
const sim_workload w_arc4 = { "S04", "arc4", cfn, opn, agen, aexec, 1000 };
const sim_workload w_arc4_huge = { "S04", "arc4_huge", hcfn, hopn, hagen, haexec, 1 };
