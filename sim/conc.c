/* Simulated threads and the instrumentation callbacks. Never instrumented itself. */
#include "conc.h"
#ifndef __x86_64__
#include <ucontext.h>
#endif

#define STACK (64 * 1024)
enum { NEW, READY, STALLED, DONE, KILLED };

typedef struct thread {
    int state, id, depth;
    conc_fn fn;
    void *arg;
    uint64_t points, kill_at, stall_at, stall_for, wake;
    unsigned char *stack;
#ifdef __x86_64__
    void *sp;
#else
    ucontext_t uc;
#endif
} thread;

static thread thr[CONC_MAXT];
static int nthr, cur = -1, want;
static uint64_t now_, points, limit_, gap;
static const sim_trace *trace;
static int nextop, target;

int conc_self(void) { return cur; }
uint64_t conc_now(void) { return ++now_; }
bool conc_killed(int tid) { return thr[tid].state == KILLED; }
uint64_t conc_points(int tid) { return thr[tid].points; }

static void body(void);

#ifdef __x86_64__
static void *main_sp;
/* saves the callee-saved registers on the old stack and takes them from the new one */
void conc_swap(void **from, void *to);
__asm__(
    ".text\n.globl conc_swap\n.type conc_swap,@function\nconc_swap:\n"
    "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    "movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
    ".size conc_swap,.-conc_swap\n");

static void to_main(void) { conc_swap(&thr[cur].sp, main_sp); }
static void start(thread *t)
{
    void **sp = (void **)(t->stack + STACK - 64);
    *--sp = NULL;
    *--sp = (void *)body;
    for (int k = 0; k < 6; ++k) *--sp = NULL;
    t->sp = sp;
}
static void resume(thread *t) { conc_swap(&main_sp, t->sp); }
#else
static ucontext_t main_uc;
static void to_main(void) { swapcontext(&thr[cur].uc, &main_uc); }
static void start(thread *t)
{
    getcontext(&t->uc);
    t->uc.uc_stack.ss_sp = t->stack;
    t->uc.uc_stack.ss_size = STACK;
    t->uc.uc_link = NULL;
    makecontext(&t->uc, body, 0);
}
static void resume(thread *t) { swapcontext(&main_uc, &t->uc); }
#endif

static void body(void)
{
    thread *t = &thr[cur];
    t->fn(t->id, t->arg);
    t->state = DONE;
    for (;;) to_main();
}

void conc_spawn(conc_fn fn, void *arg)
{
    thread *t = &thr[nthr];
    unsigned char *stack = t->stack;
    if (!stack) stack = malloc(STACK);
    memset(t, 0, sizeof(*t));
    t->stack = stack;
    t->id = nthr++;
    t->fn = fn;
    t->arg = arg;
    t->state = NEW;
}

static void next_gap(void)
{
    gap = UINT64_MAX;
    while (nextop < trace->nops && trace->ops[nextop].kind != CONC_PREEMPT) nextop++;
    if (nextop < trace->nops) {
        const sim_op *o = &trace->ops[nextop++];
        gap = (uint64_t)(o->a[0] < 1 ? 1 : o->a[0]);
        target = (int)((uint64_t)o->a[1] % (uint64_t)nthr);
    }
}

void conc_run(const sim_trace *tr, uint64_t limit)
{
    trace = tr;
    nextop = 0;
    points = 0;
    want = 0;
    limit_ = limit;
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        thread *t = &thr[(uint64_t)o->a[0] % (uint64_t)nthr];
        if (o->kind == CONC_KILL) t->kill_at = (uint64_t)o->a[1];
        if (o->kind == CONC_STALL) { t->stall_at = (uint64_t)o->a[1]; t->stall_for = (uint64_t)o->a[2]; }
    }
    next_gap();
    for (;;) {
        int pick = -1;
        for (int k = 0; k < nthr; ++k) {
            thread *t = &thr[(want + k) % nthr];
            if (t->state == STALLED && t->wake <= points) t->state = READY;
            if (pick < 0 && (t->state == NEW || t->state == READY)) pick = t->id;
        }
        /* only suspended threads are left: their suspension is over */
        for (int i = 0; i < nthr && pick < 0; ++i)
            if (thr[i].state == STALLED) { thr[i].state = READY; pick = i; }
        if (pick < 0) break;
        sim_log(sim_mix((uint64_t)pick, thr[pick].points));
        want = pick;
        cur = pick;
        if (thr[pick].state == NEW) { start(&thr[pick]); thr[pick].state = READY; }
        resume(&thr[pick]);
        cur = -1;
    }
    nthr = 0;
}

void conc_enter(void) { if (cur >= 0) thr[cur].depth++; }

static void point(void)
{
    thread *t;
    if (cur < 0) return;
    t = &thr[cur];
    if (!t->depth) return;
    t->points++;
    if (++points > limit_) sim_fail("conc:progress", "threads are still busy after %llu steps", (unsigned long long)limit_);
    if (t->kill_at && t->points == t->kill_at) {
        sim_fault("thread_killed");
        t->state = KILLED;
        to_main();
    }
    if (t->stall_at && t->points == t->stall_at) {
        sim_fault("thread_suspended");
        t->state = STALLED;
        t->wake = points + t->stall_for;
        to_main();
    }
    if (--gap == 0) {
        int to = target;
        next_gap();
        if (to == t->id) to = (to + 1) % nthr;
        want = to;
        if (nthr > 1) to_main();
    }
}

/* between two library calls a thread can be switched away too */
void conc_leave(void) { if (cur >= 0) { point(); thr[cur].depth--; } }

/* ---------------- schedules ---------------- */

void conc_gen(sim_rng *r, sim_trace *tr, int n, int npoints, int faults)
{
    int style = (int)sim_below(r, 4), total = n * npoints;
    int count = style == 0 ? (int)sim_range(r, 1, 4) : (int)sim_range(r, 4, style == 1 ? 60 : 24);
    int mean = style == 1 ? (int)sim_range(r, 1, 3) : (int)sim_range(r, 2, 2 + 2 * total / (count + 1));
    for (int i = 0; i < count && tr->nops < SIM_MAXOPS - 8; ++i) {
        sim_op *o = sim_add(tr, CONC_PREEMPT);
        if (style == 0)         /* few preemptions, anywhere: depth-bounded */
            o->a[0] = sim_range(r, 1, total < 2 ? 2 : total);
        else                    /* geometric gaps */
            for (o->a[0] = 1; o->a[0] < 4 * total && !sim_chance(r, 1, (unsigned)mean); ++o->a[0]) ;
        o->a[1] = sim_range(r, 0, n - 1);
    }
    if (!faults) return;
    if (sim_chance(r, 1, 2)) {
        sim_op *o = sim_add(tr, CONC_STALL);
        o->a[0] = sim_range(r, 0, n - 1);
        o->a[1] = sim_range(r, 1, npoints);
        o->a[2] = sim_range(r, 1, total * 2);
    }
    for (int k = sim_chance(r, 1, 2) ? (int)sim_range(r, 1, n > 2 ? 2 : 1) : 0; k--;) {
        sim_op *o = sim_add(tr, CONC_KILL);
        o->a[0] = sim_range(r, 0, n - 1);
        o->a[1] = sim_range(r, 1, npoints);
    }
}

/* ---------------- linearizability ---------------- */

typedef struct lin {
    const lin_op *op;
    int n;
    size_t size;
    lin_step step;
    uint64_t all;               /* operations that returned */
    uint64_t visits;
} lin;

/* hashed (set, state) pairs refuted in this check; stamped, so forgetting is free */
#define SEEN (1u << 18)
static struct { uint64_t h; uint64_t gen; } seen[SEEN];
static uint64_t seen_gen, seen_used;

static uint64_t hash_state(uint64_t set, const unsigned char *s, size_t n)
{
    uint64_t h = sim_mix(set, n);
    for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t w; __builtin_memcpy(&w, s + i, 8); h = sim_mix(h, w); }
    for (size_t i = n & ~(size_t)7; i < n; ++i) h = sim_mix(h, s[i]);
    return h;
}

static bool lin_dfs(lin *l, uint64_t set, const unsigned char *state)
{
    unsigned char nstate[LIN_STATE];
    uint64_t h, first = UINT64_MAX;
    size_t slot;
    if ((set & l->all) == l->all) return true;
    if (++l->visits > 1000000) { sim_probe("linearizability_search_gave_up"); return true; }
    h = hash_state(set, state, l->size);
    for (slot = h & (SEEN - 1); seen[slot].gen == seen_gen; slot = (slot + 1) & (SEEN - 1))
        if (seen[slot].h == h) return false;
    /* the next operation must have started before every pending one returned */
    for (int i = 0; i < l->n; ++i)
        if (!(set >> i & 1) && l->op[i].res < first) first = l->op[i].res;
    for (int i = 0; i < l->n; ++i) {
        if (set >> i & 1 || l->op[i].inv > first) continue;
        memcpy(nstate, state, l->size);
        if (!l->step(nstate, &l->op[i], l->op[i].res != UINT64_MAX)) continue;
        if (lin_dfs(l, set | 1ull << i, nstate)) return true;
    }
    if (seen_used >= SEEN / 2) return false;
    for (slot = h & (SEEN - 1); seen[slot].gen == seen_gen; slot = (slot + 1) & (SEEN - 1)) ;
    seen[slot].h = h;
    seen[slot].gen = seen_gen;
    seen_used++;
    return false;
}

bool lin_check(const lin_op *ops, int n, const void *init, size_t size, lin_step step)
{
    lin l = { ops, n, size, step, 0, 0 };
    if (n > 64 || size > LIN_STATE) { fprintf(stderr, "lin_check: too big\n"); _Exit(70); }
    for (int i = 0; i < n; ++i) if (ops[i].res != UINT64_MAX) l.all |= 1ull << i;
    seen_gen++;
    seen_used = 0;
    return lin_dfs(&l, 0, init);
}

/* ---------------- instrumentation callbacks ---------------- */

#define ACC(n) void n(void *a); void n(void *a) { (void)a; point(); }
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8) ACC(__tsan_volatile_read16)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8) ACC(__tsan_volatile_write16)
void __tsan_read_range(void *a, long n); void __tsan_read_range(void *a, long n) { (void)a; (void)n; point(); }
void __tsan_write_range(void *a, long n); void __tsan_write_range(void *a, long n) { (void)a; (void)n; point(); }
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void *pc); void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}

#define ATOMIC(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo); \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; point(); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo); \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; point(); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo); \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { T o; (void)mo; point(); o = *a; *a = (T)~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo); \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) \
{ (void)mo; (void)fmo; point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
/* a weak exchange may fail for no reason, but not for ever: see spurious() */ \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo); \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) \
{ (void)mo; (void)fmo; point(); if (*a == *c && !spurious()) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo); \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) \
{ T o; (void)mo; (void)fmo; point(); o = *a; if (o == c) *a = v; return o; }

static bool spurious(void)
{
    /* every third weak exchange of a thread's life: deterministic, and no two in a row */
    return cur >= 0 && thr[cur].depth && thr[cur].points % 3 == 0;
}
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo); void __tsan_atomic_thread_fence(int mo) { (void)mo; point(); }
void __tsan_atomic_signal_fence(int mo); void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* memory functions: a copy is visible in parts while it runs */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *, const void *, size_t);
void *__wrap_memset(void *, int, size_t);
void *__wrap_memmove(void *, const void *, size_t);
#define SIMULATED (cur >= 0 && thr[cur].depth)
static size_t piece(size_t left, size_t n) { size_t p = n / 4 + 1; return left < p ? left : p; }
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (!SIMULATED) return __real_memcpy(d, s, n);
    for (size_t o = 0, p; o < n; o += p) { point(); p = piece(n - o, n); __real_memcpy((char *)d + o, (const char *)s + o, p); }
    return d;
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (!SIMULATED) return __real_memset(d, c, n);
    for (size_t o = 0, p; o < n; o += p) { point(); p = piece(n - o, n); __real_memset((char *)d + o, c, p); }
    return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (!SIMULATED) return __real_memmove(d, s, n);
    point();
    __real_memmove(d, s, n);
    point();
    return d;
}
