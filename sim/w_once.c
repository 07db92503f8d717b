/*
 * E05: do-once blocks, warnings and stored actions.  The faults are the callbacks':
 * a block left by a jump, entered again from inside itself, an action that replaces,
 * clears or calls itself while it runs.
 * S05: seeded generators, several interleaved, saved, restored and moved.
 */
#include "sim.h"
#include <setjmp.h>
#include <signal.h>
#include <bfdev/once.h>
#include <bfdev/bug.h>
#include <bfdev/action.h>
#include <bfdev/callback.h>
#include <bfdev/prandom.h>
#include <bfdev/errno.h>

/* ---------------------------------------------------------------- E05 once */
/* What a do-once block remembers is a function-local static that outlives the run: it is
 * collected in one section, so that every run can start from the image the program came with. */
#define ONCE_SECTION __attribute__((section("simonce")))
extern char __start_simonce[], __stop_simonce[];
static ONCE_SECTION int once_anchor = 1;

enum { O_DONE, O_ON, O_ALWAYS, O_LOOP, O_WARN, O_NOPS };
static const char *const oopn[] = { "done", "on", "always", "loop", "warn" };
static const char *const ocfn[SIM_NCFG] = { "sites" };
enum { CB_PLAIN, CB_SELF, CB_OTHER, CB_JUMP, CB_SELF_JUMP, CB_NMODES };
#define NSITE 6
static int o_fired, o_conds, o_argev, o_mode, o_kind, o_site, o_depth, o_ran[3][NSITE], o_want[3][NSITE];
static uint64_t o_cond, o_arg;
static jmp_buf o_jump;
static bool o_mayjump;

static uint64_t cond_eval(void) { o_conds++; return o_cond; }
static int arg_eval(void) { o_argev++; return (int)o_arg; }
static bool reach(int kind, int site);

static void on_once(int kind, int site, int arg)
{
    SIM_CHECK(arg == (int)o_arg, "once:argument", "a block ran with another argument");
    o_ran[kind][site]++;
    o_fired++;
    SIM_CHECK(o_ran[kind][site] == 1, "once:twice", "a do-once block ran %d times", o_ran[kind][site]);
    if (o_depth > 1) return;
    switch (o_mode) {
    case CB_SELF: case CB_SELF_JUMP:
        sim_fault("block_reached_from_inside");
        (void)reach(kind, site);
        if (o_mode == CB_SELF) break;
        /* fallthrough */
    case CB_JUMP:
        if (o_mayjump) { sim_fault("block_left_by_a_jump"); longjmp(o_jump, 1); }
        break;
    case CB_OTHER: {
        int k = o_kind == O_ON ? O_ALWAYS : O_ON, s = (site + 1) % NSITE;
        bool want = (k == O_ALWAYS || o_cond) && !o_want[k][s];
        if (want) o_want[k][s] = 1;
        sim_fault("other_block_reached_from_inside");
        (void)reach(k, s);
        break; }
    }
}
static void once_2(int kind, int site, int arg) { on_once(kind, site, arg); }
static void once_void(void) { on_once(O_ALWAYS, 0, (int)o_arg); }

/* the block's memory has to land in the section */
#define static static ONCE_SECTION
#define SITE(n) \
    __attribute__((noinline)) static_fn bool done_##n(void) { return BFDEV_DO_ONCE_DONE(cond_eval()); } \
    __attribute__((noinline)) static_fn bool on_##n(void) { return BFDEV_DO_ONCE_ON(cond_eval(), once_2, O_ON, n, arg_eval()); } \
    __attribute__((noinline)) static_fn bool always_##n(void) { return BFDEV_DO_ONCE(once_2, O_ALWAYS, n, arg_eval()); }
#define static_fn
#pragma GCC diagnostic ignored "-Wmissing-prototypes"
SITE(1) SITE(2) SITE(3) SITE(4) SITE(5)
__attribute__((noinline)) bool done_0(void) { if (BFDEV_DO_ONCE_DONE(cond_eval())) return true; return false; }
__attribute__((noinline)) bool on_0(void) { return BFDEV_DO_ONCE_ON(cond_eval(), once_2, O_ON, 0, arg_eval()); }
__attribute__((noinline)) bool always_0(void) { return BFDEV_DO_ONCE(once_void); }
/* the same place reached many times in a loop, two blocks side by side */
__attribute__((noinline)) void loop_sites(int rounds, int first, int *a, int *b)
{
    for (int i = 0; i < rounds; ++i) {
        if (BFDEV_DO_ONCE_DONE(i >= first)) ++*a;
        if (BFDEV_DO_ONCE_DONE(true)) ++*b;
    }
}
#undef static

static bool (*const sites[3][NSITE])(void) = {
    { done_0, done_1, done_2, done_3, done_4, done_5 },
    { on_0, on_1, on_2, on_3, on_4, on_5 },
    { always_0, always_1, always_2, always_3, always_4, always_5 },
};

static bool reach(int kind, int site)
{
    bool r;
    o_depth++;
    r = sites[kind][site]();
    o_depth--;
    return r;
}

/* reach a block; a jump out of it may end the call */
static __attribute__((noinline)) bool enter(int kind, int site, bool *jumped)
{
    *jumped = true;
    o_mayjump = true;
    if (setjmp(o_jump)) { o_mayjump = false; return false; }
    bool got = reach(kind, site);
    o_mayjump = false;
    *jumped = false;
    return got;
}

/* a bug stops the program: the simulator takes the place of the process */
static sigjmp_buf stop_jump;
static volatile int stopped;
static void on_stop(int sig) { (void)sig; stopped++; siglongjmp(stop_jump, 1); }
static __attribute__((noinline)) bool bug_on(void)
{
    struct sigaction act = { .sa_handler = on_stop, .sa_flags = SA_NODEFER }, was;
    volatile bool got = true;
    stopped = 0;
    sigaction(SIGABRT, &act, &was);
    if (!sigsetjmp(stop_jump, 1)) got = BFDEV_BUG_ON(cond_eval());
    sigaction(SIGABRT, &was, NULL);
    return got;
}

static uint64_t draw_cond(sim_rng *r)
{
    static const uint64_t v[] = { 1, 2, 0x100, 0x10000, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0xfffffffeull };
    return sim_chance(r, 1, 2) ? 0 : sim_chance(r, 1, 2) ? 1 : v[sim_below(r, sizeof(v) / sizeof(*v))];
}

static void ogen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 6, 6, 4, 1, 2 };
    int n = (int)sim_range(r, 1, tier ? 80 : 30);
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 1, NSITE);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, O_NOPS));
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        o->a[1] = (int64_t)draw_cond(r);
        o->a[2] = faults ? (int64_t)sim_below(r, CB_NMODES) : CB_PLAIN;
        o->a[3] = (int64_t)(sim_u64(r) >> 1);
        o->a[4] = sim_range(r, 0, 20);
    }
}

static void oexec(const sim_trace *tr)
{
    static char *image;
    size_t bytes = (size_t)(__stop_simonce - __start_simonce);
    bool loop_a = false, loop_b = false;
    if (!image) { image = malloc(bytes); if (!image) abort(); memcpy(image, __start_simonce, bytes); }
    memcpy(__start_simonce, image, bytes);
    once_anchor = 1;
    memset(o_ran, 0, sizeof(o_ran)); memset(o_want, 0, sizeof(o_want));
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int s = (int)((uint64_t)o->a[0] % NSITE);
        bool got = false, jumped = false;
        bool want;
        o_kind = (int)o->kind; o_site = s; o_cond = (uint64_t)o->a[1]; o_mode = (int)o->a[2]; o_arg = (uint64_t)o->a[3];
        o_conds = o_argev = o_fired = o_depth = 0;
        switch (o->kind) {
        case O_DONE: case O_ON: case O_ALWAYS: {
            bool was = o_want[o->kind][s];
            want = (o->kind == O_ALWAYS || o_cond) && !was;
            if (want) o_want[o->kind][s] = 1;
            got = enter((int)o->kind, s, &jumped);
            if (o->kind == O_DONE) {
                SIM_CHECK(got == want, "once:done", "place %d with condition %llx, %s, says %d", s, (unsigned long long)o_cond, was ? "done before" : "never done", got);
                SIM_CHECK(o_conds == 1, "once:condition", "the condition was evaluated %d times", o_conds);
                if (got) o_ran[O_DONE][s]++;
            } else {
                SIM_CHECK(jumped || got == (o->kind == O_ALWAYS || o_cond != 0), "once:result", "place %d does not say whether its condition %llx held", s, (unsigned long long)o_cond);
                SIM_CHECK((o_ran[o->kind][s] != 0) == (o_want[o->kind][s] != 0), "once:missed", "place %d ran %d times, it was to run %d times", s, o_ran[o->kind][s], o_want[o->kind][s]);
                if (o_mode == CB_PLAIN || !want) {
                    SIM_CHECK(o_conds == (o->kind == O_ON), "once:condition", "the condition was evaluated %d times", o_conds);
                    SIM_CHECK(o_argev == (want && !(o->kind == O_ALWAYS && !s)), "once:arguments", "the arguments were evaluated %d times", o_argev);
                }
            }
            break; }
        case O_LOOP: {
            int a = 0, b = 0, rounds = (int)o->a[4], first = (int)((uint64_t)o->a[3] % 20);
            loop_sites(rounds, first, &a, &b);
            bool wa = !loop_a && rounds > first, wb = !loop_b && rounds > 0;
            SIM_CHECK(a == wa && b == wb, "once:loop", "in a loop of %d rounds the blocks ran %d and %d times", rounds, a, b);
            loop_a |= wa; loop_b |= wb;
            break; }
        case O_WARN: {
            (void)sim_alarms();
            got = (o->a[4] & 1) ? BFDEV_WARN_ON(cond_eval()) : bug_on();
            unsigned told = sim_alarms();
            bool on = o_cond != 0;
            SIM_CHECK(got == on, "warn:result", "a warning on %llx says %d", (unsigned long long)o_cond, got);
            SIM_CHECK(o_conds == 1, "warn:condition", "the condition was evaluated %d times", o_conds);
            SIM_CHECK(told == on, "warn:told", "a warning on %llx was told %u times", (unsigned long long)o_cond, told);
            if (!(o->a[4] & 1)) SIM_CHECK(stopped == on, "bug:stop", "a bug on %llx %s the program", (unsigned long long)o_cond, stopped ? "stopped" : "did not stop");
            if (on && !(o->a[4] & 1)) sim_fault("program_stopped_by_a_bug");
            break; }
        }
        for (int k = 1; k < 3; ++k) for (int j = 0; j < NSITE; ++j)
            SIM_CHECK(o_ran[k][j] == o_want[k][j], "once:other", "place %d of the other kind or number ran %d times, it was to run %d times", j, o_ran[k][j], o_want[k][j]);
        sim_log(sim_mix((uint64_t)got, (uint64_t)o_fired));
        sim_state(sim_mix(sim_mix(o->kind, (uint64_t)s), sim_mix(o_want[o->kind % 3][s], (uint64_t)o_mode * 2 + (o_cond != 0))));
    }
}

/* ---------------------------------------------------------------- E05 action */
enum { A_INIT, A_UPDATE, A_CLEAR, A_CALL, A_DEFINE, A_COPY, A_NOPS };
static const char *const aopn[] = { "init", "update", "clear", "call", "define", "copy" };
static const char *const acfn[SIM_NCFG] = { "slots" };
enum { AB_PLAIN, AB_CLEAR, AB_UPDATE, AB_REPLACE, AB_AGAIN, AB_OTHER, AB_NMODES };
#define NACT 4
#define NFUNC 5                 /* the last two are the library's constant ones */
#define NOWN 3
typedef struct { int func; const void *data; } mact;     /* func -1: none */
static bfdev_action_t *act[NACT];
static mact mod[NACT];
static char adata[8];
static int a_mode, a_slot, a_depth, a_calls, a_retval;

static int acall(int slot);
static void aset(int slot, int func, const void *data);
static int on_action(int func, void *data)
{
    int slot = a_slot, ret = a_retval;
    a_calls++;
    SIM_CHECK(func == mod[slot].func, "action:func", "the action calls another function than the one stored");
    SIM_CHECK(data == mod[slot].data, "action:data", "the function got another datum than the one stored");
    if (a_depth > 1) return ret;
    switch (a_mode) {
    case AB_CLEAR: sim_fault("action_clears_itself"); bfdev_action_clear(act[slot]); mod[slot].func = -1; break;
    case AB_UPDATE: sim_fault("action_updates_itself"); mod[slot].data = &adata[7]; bfdev_action_update(act[slot], &adata[7]); break;
    case AB_REPLACE: sim_fault("action_replaces_itself"); aset(slot, (func + 1) % NFUNC, NULL); break;
    case AB_AGAIN: sim_fault("action_calls_itself"); a_retval = ret ^ 0x5a5a; (void)acall(slot); break;
    case AB_OTHER: sim_fault("action_calls_another"); a_retval = ~ret; (void)acall((slot + 1) % NACT); break;
    }
    return ret;
}
static int af0(void *d) { return on_action(0, d); }
static int af1(void *d) { return on_action(1, d); }
static int af2(void *d) { return on_action(2, d); }
static const bfdev_action_func_t afunc[NOWN] = { af0, af1, af2 };
static bfdev_action_func_t func_of(int f) { return f < 0 ? NULL : f < NOWN ? afunc[f] : f == NOWN ? (bfdev_action_func_t)bfdev_dummy_ret0 : (bfdev_action_func_t)bfdev_dummy_ret1; }

static void aset(int slot, int func, const void *data)
{
    bfdev_action_init(act[slot], func_of(func), data);
    mod[slot].func = func; mod[slot].data = data;
}
static int acall(int slot)
{
    int keep = a_slot, before = a_calls, want = mod[slot].func < 0 ? -BFDEV_ENODATA : mod[slot].func < NOWN ? a_retval : mod[slot].func - NOWN, has = mod[slot].func >= 0 && mod[slot].func < NOWN, got;
    a_slot = slot; a_depth++;
    got = bfdev_action_call(act[slot]);
    a_depth--; a_slot = keep;
    SIM_CHECK(got == want, "action:result", "an action gave %d, its function %d", got, want);
    SIM_CHECK((a_calls > before) == has, "action:calls", "an action %s a function was called %d times", has ? "with" : "without", a_calls - before);
    return got;
}

static void acgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 4, 4, 2, 12, 1, 1 };
    static const int64_t v[] = { 0, 1, -1, INT32_MAX, INT32_MIN, -61, 256, 65536, 127, 128 };
    int n = (int)sim_range(r, 1, tier ? 80 : 30);
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 1, NACT);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, A_NOPS));
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        o->a[1] = sim_range(r, 0, 8);           /* datum, 8: none */
        o->a[2] = sim_range(r, sim_chance(r, 1, 5) ? -1 : 0, NFUNC - 1);
        o->a[3] = v[sim_below(r, sizeof(v) / sizeof(*v))];
        o->a[4] = faults ? (int64_t)sim_below(r, AB_NMODES) : AB_PLAIN;
    }
}
static void acexec(const sim_trace *tr)
{
    for (int i = 0; i < NACT; ++i) {
        act[i] = malloc(sizeof(*act[i])); if (!act[i]) abort();
        memset(act[i], 0xa5, sizeof(*act[i]));
        aset(i, -1, NULL);
    }
    a_depth = a_calls = a_mode = a_retval = a_slot = 0;
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int s = (int)((uint64_t)o->a[0] % NACT), f = (int)(o->a[2] < 0 ? -1 : o->a[2] % NFUNC);
        const void *d = (uint64_t)o->a[1] < 8 ? &adata[o->a[1]] : NULL;
        switch (o->kind) {
        case A_INIT: aset(s, f, d); break;
        case A_UPDATE: bfdev_action_update(act[s], d); mod[s].data = d; break;
        case A_CLEAR: bfdev_action_clear(act[s]); mod[s].func = -1; break;
        case A_CALL: a_mode = (int)o->a[4]; a_retval = (int)o->a[3]; sim_log((uint64_t)acall(s)); break;
        case A_DEFINE: { BFDEV_DEFINE_ACTION(now, func_of(f), d); *act[s] = now; mod[s].func = f; mod[s].data = d; break; }
        case A_COPY: { int t = (s + 1) % NACT; *act[t] = *act[s]; mod[t] = mod[s]; break; }
        }
        sim_state(sim_mix(sim_mix(o->kind, (uint64_t)(mod[s].func + 1)), sim_mix((uint64_t)a_mode, mod[s].data != NULL)));
    }
    for (int i = 0; i < NACT; ++i) free(act[i]);
}

/* ---------------------------------------------------------------- S05 */
enum { P_SEED, P_VALUE, P_U64, P_LONG, P_RUN, P_SAVE, P_RESTART, P_MOVE, P_COPY, P_DEFAULT, P_NOPS };
static const char *const popn[] = { "seed", "value", "u64", "long", "run", "save", "restart", "move", "copy", "default" };
static const char *const pcfn[SIM_NCFG] = { "generators" };
#define NGEN 4
/* L'Ecuyer's LFSR113, written after the publication */
typedef struct { uint32_t z[4]; } lfsr;
static uint32_t lfsr_next(lfsr *g)
{
    static const int q[] = { 6, 2, 13, 3 }, p[] = { 13, 27, 21, 12 }, s[] = { 18, 2, 7, 13 }, drop[] = { 1, 3, 4, 7 };
    uint32_t r = 0;
    for (int i = 0; i < 4; ++i) {
        uint32_t b = ((g->z[i] << q[i]) ^ g->z[i]) >> p[i];
        g->z[i] = ((g->z[i] >> drop[i] << drop[i]) << s[i]) ^ b;
        r ^= g->z[i];
    }
    return r;
}
static void lfsr_seed(lfsr *g, uint64_t seed)
{
    static const uint32_t min[] = { 2, 8, 16, 128 };
    uint32_t x = (uint32_t)((seed >> 32) ^ (seed << 10) ^ seed);
    for (int i = 0; i < 4; ++i) g->z[i] = x < min[i] ? x + min[i] : x;
    for (int i = 0; i < BFDEV_PRANDOM_WARMUP; ++i) lfsr_next(g);
}
static void pgen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 4, 10, 4, 4, 3, 3, 4, 2, 2, 1 };
    int n = (int)sim_range(r, 1, tier ? 120 : 40);
    tr->ncfg = 1;
    tr->cfg[0] = sim_range(r, 1, NGEN);
    for (int i = 0; i < n; ++i) {
        int k = sim_pickw(r, w, P_NOPS);
        if (!faults && (k == P_RESTART || k == P_MOVE)) k = P_VALUE;
        sim_op *o = sim_add(tr, (uint32_t)k);
        uint64_t s = sim_u64(r);
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        switch (sim_below(r, 6)) {      /* seeds whose folded word is small or nothing, and any */
        case 0: s = sim_below(r, 300); break;
        case 1: s &= 0xffffffff; s |= (uint64_t)((uint32_t)((s << 10) ^ s) ^ (uint32_t)sim_below(r, 200)) << 32; break;
        case 2: s = s << 32; break;
        case 3: s = 1ull << sim_below(r, 64); break;
        }
        o->a[1] = (int64_t)s;
        o->a[2] = sim_chance(r, 1, 200) ? sim_range(r, 1000, tier ? 400000 : 100000) : sim_range(r, 1, 300);
    }
}
static void pexec(const sim_trace *tr)
{
    static const uint32_t min[] = { 2, 8, 16, 128 };
    bfdev_prandom_t *g[NGEN], saved[NGEN];
    lfsr m[NGEN], ms[NGEN];
    bool has[NGEN] = { 0 };
    for (int s = 0; s < NGEN; ++s) {
        g[s] = malloc(sizeof(*g[s])); if (!g[s]) abort();
        memset(g[s], 0xa5, sizeof(*g[s]));
        bfdev_prandom_seed(g[s], (uint64_t)s); lfsr_seed(&m[s], (uint64_t)s);
    }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int s = (int)((uint64_t)o->a[0] % NGEN), t = (s + 1) % NGEN;
        uint64_t got = 0, want = 0;
        switch (o->kind) {
        case P_SEED: bfdev_prandom_seed(g[s], (uint64_t)o->a[1]); lfsr_seed(&m[s], (uint64_t)o->a[1]); break;
        case P_VALUE: got = bfdev_prandom_value(g[s]); want = lfsr_next(&m[s]); break;
        case P_U64: case P_LONG:
            got = o->kind == P_U64 ? bfdev_prandom_u64(g[s]) : bfdev_prandom_long(g[s]);
            want = (uint64_t)lfsr_next(&m[s]) << 32; want |= lfsr_next(&m[s]);
            break;
        case P_RUN:
            for (int64_t k = 0; k < o->a[2] && k < 1000000 && got == want; ++k) { got = bfdev_prandom_value(g[s]); want = lfsr_next(&m[s]); }
            break;
        case P_SAVE: saved[s] = *g[s]; ms[s] = m[s]; has[s] = true; break;
        case P_RESTART: if (has[s]) { *g[s] = saved[s]; m[s] = ms[s]; sim_fault("crash_restart_from_checkpoint"); } break;
        case P_MOVE: {
            bfdev_prandom_t *p = malloc(sizeof(*p)); if (!p) abort();
            *p = *g[s]; memset(g[s], 0xdd, sizeof(*p)); free(g[s]); g[s] = p;
            sim_fault("context_moved");
            break; }
        case P_COPY: *g[t] = *g[s]; m[t] = m[s]; has[t] = false; break;
        case P_DEFAULT:
            bfdev_prandom_init(g[s]);
            for (int k = 0; k < 4; ++k) m[s].z[k] = BFDEV_PRANDOM_SEED;
            break;
        }
        SIM_CHECK(got == want, "prandom:value", "a generator gives %llx, its seed's sequence goes on with %llx", (unsigned long long)got, (unsigned long long)want);
        const uint32_t z[] = { g[s]->s1, g[s]->s2, g[s]->s3, g[s]->s4 };
        for (int k = 0; k < 4; ++k)
            SIM_CHECK(z[k] >= min[k], "prandom:state", "component %d of a state is %u, from which it never recovers", k, z[k]);
        sim_log(got);
        sim_state(sim_mix(sim_mix(o->kind, (uint64_t)s), m[s].z[0] >> 24));
    }
    for (int s = 0; s < NGEN; ++s) free(g[s]);
}

const sim_workload w_once = { "E05", "once", ocfn, oopn, ogen, oexec, 1 };
const sim_workload w_action = { "E05", "action", acfn, aopn, acgen, acexec, 1 };
const sim_workload w_prandom = { "S05", "prandom", pcfn, popn, pgen, pexec, 1 };
