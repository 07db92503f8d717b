/*
 * T01: rate limiter, T02: token bucket, under a simulated clock that runs, stalls,
 * jumps forwards and backwards, starts at zero or below it.
 */
#include "sim.h"
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>

enum { REQ, ADVANCE, EDGE, JUMP, BACK, STALL, RESET, UPDATE, NOPS_ };
static const char *const opn[] = { "request", "advance", "to-the-edge", "jump", "step-back", "burst", "reset", "update" };
static const char *const cfn[SIM_NCFG] = { "interval", "burst", "start" };

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_] = { 20, 12, 6, faults ? 2 : 0, faults ? 3 : 0, 2, 1, 1 };
    int n = (int)sim_range(r, 5, tier ? 400 : 120);
    for (int i = 0; i < NOPS_; ++i) w[i] *= (int)sim_range(r, 0, 3);
    w[REQ] += 5;
    tr->ncfg = 3;
    tr->cfg[0] = sim_chance(r, 1, 20) ? 0 : sim_chance(r, 1, 2) ? sim_range(r, 1, 20) : sim_chance(r, 1, 2) ? sim_range(r, 1, 5000) : (int64_t)1 << sim_range(r, 20, 40);
    tr->cfg[1] = sim_chance(r, 1, 10) ? 0 : sim_chance(r, 1, 8) ? UINT32_MAX - sim_range(r, 0, 2) : sim_range(r, 1, 12);
    tr->cfg[2] = sim_chance(r, 1, 3) ? 0 : sim_chance(r, 1, 3) ? -sim_range(r, 0, tr->cfg[0] * 4) : sim_range(r, 0, (int64_t)1 << 50);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        int64_t iv = tr->cfg[0] ? tr->cfg[0] : 10;
        switch (o->kind) {
        case ADVANCE: o->a[0] = sim_range(r, 0, sim_chance(r, 1, 2) ? iv / 4 + 1 : iv * 3); break;
        case EDGE: o->a[0] = sim_range(r, -1, 1); o->a[1] = sim_range(r, 1, sim_chance(r, 1, 3) ? 15 : 1); break;
        case JUMP: o->a[0] = (int64_t)1 << sim_range(r, 0, 55); break;
        case BACK: o->a[0] = sim_chance(r, 1, 2) ? sim_range(r, 1, iv * 3) : (int64_t)1 << sim_range(r, 0, 50); break;
        case STALL: o->a[0] = sim_range(r, 1, 30); break;
        case UPDATE: o->a[0] = sim_range(r, -3, 3); break;
        }
    }
}

static bfdev_time_t now;
static void move(const sim_op *o, bfdev_time_t mark, bfdev_time_t iv)
{
    bfdev_time_t t = now;
    switch (o->kind) {
    case ADVANCE: t += o->a[0]; break;
    case EDGE: t = mark + iv * (o->a[1] > 0 && o->a[1] < 100 ? o->a[1] : 1) + o->a[0]; if (t < now) t = now; break;
    case JUMP: t += o->a[0]; sim_fault("clock_jump_forward"); break;
    case BACK: t -= o->a[0]; sim_fault("clock_step_back"); break;
    default: return;
    }
    if (t > (bfdev_time_t)1 << 60 || t < -((bfdev_time_t)1 << 60)) return;
    if (t > now) sim_time((uint64_t)(t - now));
    now = t;
}
static bool sane(const sim_trace *tr)
{
    return tr->cfg[0] >= 0 && tr->cfg[0] <= (int64_t)1 << 40 && tr->cfg[1] >= 0 && tr->cfg[1] <= UINT32_MAX &&
           tr->cfg[2] < (int64_t)1 << 59 && tr->cfg[2] > -((int64_t)1 << 59);
}

/* window of the first request through first + interval; at most burst grants in each */
static void exec1(const sim_trace *tr)
{
    bfdev_ratelimit_t l;
    if (!sane(tr)) return;
    bfdev_time_t iv = tr->cfg[0], w0 = 0;
    unsigned burst = (unsigned)tr->cfg[1], got = 0, missed = 0;
    bool open = false;
    now = tr->cfg[2];
    bfdev_ratelimit_init(&l, iv, burst);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int reps = o->kind == REQ ? 1 : o->kind == STALL ? (int)(o->a[0] % 64) : 0;
        if (o->kind == RESET) { bfdev_ratelimit_reset(&l); open = false; got = missed = 0; }
        else move(o, w0, iv);
        for (int k = 0; k < reps; ++k) {
            bool r = bfdev_ratelimit(&l, now);
            sim_log(r);
            if (!iv) { SIM_CHECK(r, "ratelimit:off", "a request was refused without an interval"); continue; }
            if (!open || now > w0 + iv) { if (open) sim_probe("window_renewed"); open = true; w0 = now; got = 0; }
            if (got < burst) {
                SIM_CHECK(r, "ratelimit:refused", "request at %lld was refused, %u of %u grants used in the window that began at %lld", (long long)now, got, burst, (long long)w0);
                got++;
            } else {
                SIM_CHECK(!r, "ratelimit:excess", "request at %lld was granted, all %u grants of the window that began at %lld are used", (long long)now, burst, (long long)w0);
                missed++;
            }
            SIM_CHECK(l.missed == missed, "ratelimit:missed", "%u refusals counted, expected %u", l.missed, missed);
            SIM_CHECK(l.passed == got, "ratelimit:passed", "%u grants counted, expected %u", l.passed, got);
        }
        sim_state(sim_mix(sim_mix(got, (uint64_t)(now > w0 + iv) * 2 + (now < w0)), o->kind));
    }
}
const sim_workload w_ratelimit = { "T01", "ratelimit", cfn, opn, gen, exec1, 1 };

static void exec2(const sim_trace *tr)
{
    bfdev_tokenbucket_t b;
    if (!sane(tr)) return;
    bfdev_time_t iv = tr->cfg[0], last = 0;
    unsigned cap = (unsigned)tr->cfg[1], passed = 0, missed = 0;
    unsigned long long tok = 0;
    bool started = false;
    now = tr->cfg[2];
    bfdev_tokenbucket_init(&b, iv, cap);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int reps = o->kind == REQ ? 1 : o->kind == STALL ? (int)(o->a[0] % 64) : 0;
        if (o->kind == RESET) { bfdev_tokenbucket_reset(&b); started = false; passed = missed = 0; }
        else if (o->kind == UPDATE) {
            /* the owner moves the reference point of a running bucket */
            if (!started) continue;
            last = now + o->a[0];
            bfdev_tokenbucket_update(&b, last);
        } else move(o, last, iv);
        for (int k = 0; k < reps; ++k) {
            bool r = bfdev_tokenbucket(&b, now);
            sim_log(r);
            if (!iv) { SIM_CHECK(r, "tokenbucket:off", "a request was refused without an interval"); continue; }
            if (!started) { started = true; tok = cap; last = now; }
            if (now < last) last = now;
            unsigned long long g = (unsigned long long)((now - last) / iv);
            last += (bfdev_time_t)g * iv;
            tok = tok + g > cap ? cap : tok + g;
            if (g > UINT32_MAX) sim_probe("long_idle");
            if (tok) {
                SIM_CHECK(r, "tokenbucket:refused", "request at %lld was refused with %llu tokens", (long long)now, tok);
                tok--; passed++;
            } else {
                SIM_CHECK(!r, "tokenbucket:excess", "request at %lld was granted from an empty bucket", (long long)now);
                missed++;
            }
            SIM_CHECK(b.passed == passed && b.missed == missed, "tokenbucket:counters", "%u/%u requests counted as passed/missed, expected %u/%u", b.passed, b.missed, passed, missed);
        }
        sim_state(sim_mix(sim_mix(tok > 64 ? 64 : tok, (uint64_t)(now < last)), o->kind));
    }
}
const sim_workload w_tokenbucket = { "T02", "tokenbucket", cfn, opn, gen, exec2, 1 };
