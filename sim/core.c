#define _GNU_SOURCE
#include "sim.h"
#include <bfdev/log.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <sys/personality.h>
#include <bfdev/allocator.h>

/* ---------------- PRNG: xoshiro256** seeded by splitmix64 ---------------- */

static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void sim_seed(sim_rng *r, uint64_t seed)
{
    for (int i = 0; i < 4; ++i)
        r->s[i] = splitmix(&seed);
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t sim_u64(sim_rng *r)
{
    uint64_t *s = r->s, result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return result;
}

uint64_t sim_below(sim_rng *r, uint64_t n) { return n < 2 ? 0 : sim_u64(r) % n; }

int64_t sim_range(sim_rng *r, int64_t lo, int64_t hi)
{
    return lo + (int64_t)sim_below(r, (uint64_t)(hi - lo) + 1);
}

bool sim_chance(sim_rng *r, unsigned num, unsigned den) { return sim_below(r, den) < num; }

int sim_pickw(sim_rng *r, const int *w, int n)
{
    int sum = 0, x;
    for (int i = 0; i < n; ++i) sum += w[i];
    x = (int)sim_below(r, (uint64_t)sum);
    for (int i = 0; i < n; ++i) { if (x < w[i]) return i; x -= w[i]; }
    return n - 1;
}

/* ---------------- traces ---------------- */

sim_op *sim_add(sim_trace *tr, uint32_t kind)
{
    static sim_op sink;
    sim_op *op = tr->nops < SIM_MAXOPS ? &tr->ops[tr->nops++] : &sink;
    memset(op, 0, sizeof(*op));
    op->kind = kind;
    op->fskip = -1;
    return op;
}

void sim_arm(sim_rng *r, sim_op *op, unsigned num, unsigned den, int maxskip)
{
    if (!sim_chance(r, num, den))
        return;
    op->fskip = (int32_t)sim_below(r, (uint64_t)maxskip + 1);
    op->fcount = sim_chance(r, 1, 3) ? 1000000 : (int32_t)sim_range(r, 1, 2);
}

/* ---------------- per-run state ---------------- */

static uint64_t run_hash;
static unsigned run_faults;
static const char *run_prop = "?";
static int64_t run_index = -1;
static uint64_t run_seed;

void sim_log(uint64_t v)
{
    run_hash ^= v;
    run_hash *= 0x100000001b3ull;
    run_hash ^= run_hash >> 29;
}

void sim_logbuf(const void *p, size_t n)
{
    const unsigned char *b = p;
    sim_log(n);
    for (size_t i = 0; i < n; ++i) sim_log(b[i]);
}

uint64_t sim_hash(void) { return run_hash; }

/* ---------------- counters ---------------- */

#define NCOUNT 256
typedef struct { const char *name; uint64_t n; } counter;
static counter probes[NCOUNT], faults[NCOUNT];

static void bump(counter *tab, const char *name)
{
    for (int i = 0; i < NCOUNT; ++i) {
        if (tab[i].name == name || (tab[i].name && !strcmp(tab[i].name, name))) {
            tab[i].n++;
            return;
        }
        if (!tab[i].name) {
            tab[i].name = name;
            tab[i].n = 1;
            return;
        }
    }
}

void sim_probe(const char *name) { bump(probes, name); }
void sim_fault(const char *name) { run_faults++; bump(faults, name); }
int sim_faults_fired(void) { return (int)run_faults; }

#define COVBITS 23
static unsigned char *cov;
static uint64_t total_ns;

void sim_state(uint64_t h)
{
    sim_log(h);
    h = sim_mix(h, 0x1234567);
    h &= (1u << COVBITS) - 1;
    if (cov) cov[h >> 3] |= (unsigned char)(1u << (h & 7));
}

void sim_time(uint64_t ns) { total_ns += ns; }

/* ---------------- verdicts ---------------- */

static int verdict_done;
static void (*exit_hook)(void);

static void verdict(const char *cls, const char *msg)
{
    char buf[2048];
    int n;
    if (verdict_done) return;
    verdict_done = 1;
    n = snprintf(buf, sizeof(buf), "\nSIM-RESULT violation prop=%s run=%lld class=%s hash=%016llx msg=%s\n",
                 run_prop, (long long)run_index, cls, (unsigned long long)run_hash, msg);
    if (n > (int)sizeof(buf) - 1) { n = sizeof(buf) - 1; buf[n - 1] = '\n'; }
    if (write(1, buf, (size_t)n) < 0) {}
}

void sim_fail(const char *cls, const char *fmt, ...)
{
    char msg[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    for (char *p = msg; *p; ++p) if (*p == '\n') *p = ' ';
    verdict(cls, msg);
    if (exit_hook) exit_hook();
    _exit(10);
}

#if defined(__SANITIZE_ADDRESS__)
void __sanitizer_set_death_callback(void (*cb)(void));
const char *__asan_get_report_description(void);
int __asan_report_present(void);
const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=11:handle_abort=1:handle_segv=1:"
           "handle_sigfpe=1:allocator_may_return_null=1:quarantine_size_mb=4:"
           "detect_stack_use_after_return=1:malloc_context_size=6:max_malloc_fill_size=0";
}
static void asan_death(void)
{
    char cls[128] = "asan:";
    const char *d = __asan_report_present() ? __asan_get_report_description() : "signal";
    snprintf(cls, sizeof(cls), "asan:%s", d);
    for (char *p = cls; *p; ++p) if (*p == ' ') *p = '-';
    verdict(cls, "memory error or abort inside the library (see stderr)");
}
#else
static void on_signal(int sig)
{
    verdict(sig == SIGABRT ? "crash:abort" : "crash:signal", "the library crashed or aborted");
    _exit(11);
}
#endif

static void on_hang(int sig)
{
    (void)sig;
    verdict("hang", "an operation did not finish within the run's CPU budget");
    _exit(12);
}

/* ---------------- temp memory ---------------- */

typedef struct tmpblk { struct tmpblk *next; max_align_t data[]; } tmpblk;
static tmpblk *tmps;

void *sim_tmp(size_t n)
{
    tmpblk *b = calloc(1, sizeof(*b) + (n ? n : 1));
    if (!b) { fprintf(stderr, "harness out of memory\n"); _exit(70); }
    b->next = tmps;
    tmps = b;
    return b->data;
}

/* ---------------- simulated allocator ---------------- */

typedef struct { void *p; size_t n; } block;

struct sim_heap {
    struct bfdev_alloc alloc;
    int64_t move_pct, budget;
    uint64_t garbage;
    block *tab;
    size_t cap, live, used, bytes;
    unsigned reqs, failed;
    bool huge;
    int skip, count;
    struct sim_heap *next;
};

static sim_heap *heaps;
#define TOMB ((void *)1)

static size_t hslot(const void *p, size_t cap)
{
    uint64_t x = (uint64_t)(uintptr_t)p;
    return (size_t)((x >> 4) * 0x9e3779b97f4a7c15ull >> 20) & (cap - 1);
}

static block *hfind(sim_heap *h, const void *p)
{
    size_t i = hslot(p, h->cap);
    while (h->tab[i].p) {
        if (h->tab[i].p == p) return &h->tab[i];
        i = (i + 1) & (h->cap - 1);
    }
    return NULL;
}

static void hput(sim_heap *h, void *p, size_t n)
{
    size_t i;
    if (h->used * 2 >= h->cap) {
        block *old = h->tab;
        size_t oc = h->cap;
        h->cap = h->live * 4 < 64 ? 64 : h->cap * 2;
        h->tab = calloc(h->cap, sizeof(block));
        h->used = 0;
        for (i = 0; i < oc; ++i)
            if (old[i].p && old[i].p != TOMB) {
                size_t j = hslot(old[i].p, h->cap);
                while (h->tab[j].p) j = (j + 1) & (h->cap - 1);
                h->tab[j] = old[i];
                h->used++;
            }
        free(old);
    }
    i = hslot(p, h->cap);
    while (h->tab[i].p && h->tab[i].p != TOMB) i = (i + 1) & (h->cap - 1);
    if (!h->tab[i].p) h->used++;
    h->tab[i].p = p;
    h->tab[i].n = n;
    h->live++;
    h->bytes += n;
}

static void hdel(sim_heap *h, block *b)
{
    h->bytes -= b->n;
    h->live--;
    b->p = TOMB;
}

static bool deny(sim_heap *h, size_t grow)
{
    bool fail = false, absurd = grow > ((size_t)1 << 30);
    h->reqs++;
    if (h->skip >= 0) {
        if (h->skip > 0)
            h->skip--;
        else if (h->count > 0) {
            h->count--;
            sim_fault("alloc_fail");
            fail = true;
        }
    }
    if (!fail && absurd) {
        /* no excuse for the library, unless the operation really asked for that much */
        sim_fault("alloc_absurd_size_refused");
        if (h->huge) h->failed++;
        sim_log(grow * 2 + 1);
        return true;
    }
    if (!fail && h->budget && h->bytes + grow > (size_t)h->budget) {
        sim_fault("alloc_budget_exhausted");
        fail = true;
    }
    if (fail) h->failed++;
    sim_log(grow * 2 + fail);
    return fail;
}

static void fill(sim_heap *h, unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = (unsigned char)(h->garbage >> (8 * (i & 7))) ^ (unsigned char)(i >> 3);
}

/* without AddressSanitizer, a guard behind each block shows overruns when it is given back */
#ifdef __SANITIZE_ADDRESS__
#define GUARDN 0
#else
#define GUARDN 32
#endif
static void guard(void *p, size_t n) { for (int i = 0; i < GUARDN; ++i) ((unsigned char *)p)[n + i] = 0xc9; }
static void guarded(const void *p, size_t n)
{
    for (int i = 0; i < GUARDN; ++i)
        if (((const unsigned char *)p)[n + i] != 0xc9)
            sim_fail("ledger:overrun", "the byte %d after a block of %zu bytes was overwritten", i, n);
}

static void *heap_raw(sim_heap *h, size_t n)
{
    void *p = malloc(n + GUARDN);
    if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(70); }
    guard(p, n);
    hput(h, p, n);
    return p;
}

static void *heap_malloc(size_t n, void *pdata)
{
    sim_heap *h = pdata;
    if (deny(h, n)) return NULL;
    void *p = heap_raw(h, n);
    fill(h, p, n);
    return p;
}

static void *heap_zalloc(size_t n, void *pdata)
{
    sim_heap *h = pdata;
    if (deny(h, n)) return NULL;
    void *p = heap_raw(h, n);
    memset(p, 0, n);
    return p;
}

static void heap_free(void *p, void *pdata)
{
    sim_heap *h = pdata;
    block *b = hfind(h, p);
    if (!b)
        sim_fail("ledger:bad-free", "free of a block this allocator did not hand out (or freed before)");
    guarded(p, b->n);
    sim_log(0xf4ee + b->n);
    hdel(h, b);
    free(p);
}

static void *heap_realloc(void *p, size_t n, void *pdata)
{
    sim_heap *h = pdata;
    block *b = hfind(h, p);
    size_t old;
    void *q;
    if (!b)
        sim_fail("ledger:bad-realloc", "realloc of a block this allocator did not hand out (or freed before)");
    old = b->n;
    guarded(p, old);
    if (deny(h, n > old ? n - old : 0)) return NULL;
    /* always a fresh block: a stale pointer into the old one is a use after free */
    if (n <= old && h->move_pct < 100 && (int64_t)(h->reqs * 37 % 100) >= h->move_pct) {
        q = malloc(n + GUARDN);
    } else {
        sim_probe("realloc_moved");
        q = malloc(n + GUARDN);
    }
    if (!q) { fprintf(stderr, "harness out of memory\n"); _exit(70); }
    memcpy(q, p, n < old ? n : old);
    if (n > old) fill(h, (unsigned char *)q + old, n - old);
    guard(q, n);
    hdel(h, b);
    free(p);
    hput(h, q, n);
    return q;
}

static const bfdev_alloc_ops_t heap_ops = {
    .alloc = heap_malloc, .zalloc = heap_zalloc,
    .realloc = heap_realloc, .free = heap_free,
};

sim_heap *sim_heap_new(int64_t move_pct, int64_t budget, uint64_t garbage)
{
    sim_heap *h = calloc(1, sizeof(*h));
    h->alloc.ops = &heap_ops;
    h->alloc.pdata = h;
    h->move_pct = move_pct;
    h->budget = budget;
    h->garbage = garbage ? garbage : 0xa5a5a5a5a5a5a5a5ull;
    h->cap = 64;
    h->tab = calloc(h->cap, sizeof(block));
    h->skip = -1;
    h->next = heaps;
    heaps = h;
    return h;
}

const struct bfdev_alloc *sim_heap_alloc(sim_heap *h) { return &h->alloc; }

void sim_heap_arm(sim_heap *h, int skip, int count)
{
    h->skip = skip;
    h->count = count;
    h->failed = 0;
    h->reqs = 0;
    h->huge = false;
}

void sim_heap_op(sim_heap *h, const sim_op *op) { sim_heap_arm(h, op->fskip, op->fcount); }

void sim_heap_calm(sim_heap *h)
{
    sim_heap_arm(h, -1, 0);
    h->budget = 0;
}

void sim_heap_budget(sim_heap *h, int64_t budget) { h->budget = budget; }
void sim_heap_huge(sim_heap *h) { h->huge = true; }
size_t sim_heap_blocks(sim_heap *h) { return h->live; }
size_t sim_heap_bytes(sim_heap *h) { return h->bytes; }
unsigned sim_heap_failed(sim_heap *h) { return h->failed; }
unsigned sim_heap_requests(sim_heap *h) { return h->reqs; }

bool sim_heap_owns(sim_heap *h, const void *p, size_t n)
{
    for (size_t i = 0; i < h->cap; ++i) {
        char *b = h->tab[i].p;
        if (!b || b == TOMB) continue;
        if ((char *)p >= b && (char *)p + n <= b + h->tab[i].n) return true;
    }
    return false;
}

void sim_heap_expect_empty(sim_heap *h, const char *what)
{
    if (h->live)
        sim_fail("ledger:leak", "%s: %zu block(s), %zu byte(s) still allocated after release",
                 what, h->live, h->bytes);
}

static void run_cleanup(void)
{
    while (heaps) {
        sim_heap *h = heaps;
        heaps = h->next;
        for (size_t i = 0; i < h->cap; ++i)
            if (h->tab[i].p && h->tab[i].p != TOMB) free(h->tab[i].p);
        free(h->tab);
        free(h);
    }
    while (tmps) { tmpblk *t = tmps; tmps = t->next; free(t); }
}

#define NEST_CFG (SIM_NCFG - 1)

/* ---------------- trace text ---------------- */

static void trace_write(FILE *f, const sim_workload *w, const sim_trace *tr)
{
    fprintf(f, "workload %s %s\n", w->prop, w->name);
    for (int i = 0; i < tr->ncfg; ++i)
        fprintf(f, "cfg %d %lld%s%s\n", i, (long long)tr->cfg[i],
                w->cfgnames && w->cfgnames[i] ? " # " : w->nest && i == NEST_CFG ? " # " : "", w->cfgnames && w->cfgnames[i] ? w->cfgnames[i] : w->nest && i == NEST_CFG ? "nest" : "");
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        fprintf(f, "op %u", o->kind);
        for (int k = 0; k < SIM_NARG; ++k) fprintf(f, " %lld", (long long)o->a[k]);
        fprintf(f, " %d %d # %s\n", o->fskip, o->fcount, w->opnames ? w->opnames[o->kind] : "");
    }
}

/* a file holds one run, or several to be executed one after the other in this process */
static const sim_workload *trace_read(FILE *f, sim_trace *tr)
{
    static char line[512], held;
    char a[64], b[64];
    const sim_workload *w = NULL;
    memset(tr, 0, sizeof(*tr));
    while (held || fgets(line, sizeof(line), f)) {
        held = 0;
        if (w && !strncmp(line, "workload ", 9)) { held = 1; break; }
        if (sscanf(line, "workload %63s %63s", a, b) == 2) {
            for (int i = 0; sim_workloads[i]; ++i)
                if (!strcmp(sim_workloads[i]->prop, a) && !strcmp(sim_workloads[i]->name, b))
                    w = sim_workloads[i];
        } else if (!strncmp(line, "cfg ", 4)) {
            int i; long long v;
            if (sscanf(line, "cfg %d %lld", &i, &v) == 2 && i >= 0 && i < SIM_NCFG) {
                tr->cfg[i] = v;
                if (i >= tr->ncfg) tr->ncfg = i + 1;
            }
        } else if (!strncmp(line, "op ", 3)) {
            long long v[SIM_NARG]; unsigned k; int fs, fc;
            if (sscanf(line, "op %u %lld %lld %lld %lld %lld %d %d", &k, &v[0], &v[1], &v[2], &v[3], &v[4], &fs, &fc) == 8
                && tr->nops < SIM_MAXOPS) {
                sim_op *o = &tr->ops[tr->nops++];
                o->kind = k;
                for (int i = 0; i < SIM_NARG; ++i) o->a[i] = v[i];
                o->fskip = fs; o->fcount = fc;
            }
        }
    }
    return w;
}

/* ---------------- running ---------------- */

static void set_budget(int sec)
{
    struct itimerval it = { .it_value = { .tv_sec = sec } };
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

void sim_slow(int sec) { set_budget(sec); }

void sim_seed_rand(uint64_t seed);

/* the library's diagnostics go nowhere but are counted: a refused client error must be reported */
static unsigned alarms;
static int quiet_sink(bfdev_log_message_t *msg, void *pdata)
{
    (void)pdata;
    if (msg->level <= 3) alarms++;
    return 0;
}
unsigned sim_alarms(void) { unsigned n = alarms; alarms = 0; return n; }

/* a callback that uses the module on another instance */
static struct { void (*fn)(void); int64_t period, count; int left; bool inside; } nest;
void sim_nest(void)
{
    if (nest.period <= 0 || nest.inside || !nest.left || ++nest.count % nest.period) return;
    nest.left--;
    nest.inside = true;
    nest.fn();
    nest.inside = false;
    bump(faults, "callback_uses_another_instance");
}

static void run_one(const sim_workload *w, const sim_trace *tr)
{
    run_hash = 0xcbf29ce484222325ull;
    run_faults = 0;
    run_prop = w->prop;
    sim_seed_rand(1);
    bfdev_log_default.write = quiet_sink;
    alarms = 0;
    memset(&nest, 0, sizeof(nest));
    if (w->nest && tr->ncfg > NEST_CFG) { nest.fn = w->nest; nest.period = tr->cfg[NEST_CFG]; nest.left = 60; }
    set_budget(8);
    w->exec(tr);
    set_budget(0);
    run_cleanup();
}

static const sim_workload *pick(const char *prop, uint64_t seed, uint64_t *sub)
{
    sim_rng r;
    int total = 0, x;
    sim_seed(&r, seed);
    *sub = sim_u64(&r);
    for (int i = 0; sim_workloads[i]; ++i)
        if (!strcmp(sim_workloads[i]->prop, prop))
            total += sim_workloads[i]->weight ? sim_workloads[i]->weight : 1;
    if (!total) { fprintf(stderr, "no workload for %s\n", prop); exit(70); }
    x = (int)sim_below(&r, (uint64_t)total);
    for (int i = 0; sim_workloads[i]; ++i) {
        if (strcmp(sim_workloads[i]->prop, prop)) continue;
        x -= sim_workloads[i]->weight ? sim_workloads[i]->weight : 1;
        if (x < 0) return sim_workloads[i];
    }
    abort();
}

static const sim_workload *gen_run(const char *prop, uint64_t seed, int tier, int mode, sim_trace *tr, int *faults_on)
{
    uint64_t sub;
    const sim_workload *w = pick(prop, seed, &sub);
    sim_rng r;
    sim_seed(&r, sub);
    /* mode: 0 mixed (one run in four fault-free), 1 faults only, 2 fault-free only */
    int f = mode == 1 ? 1 : mode == 2 ? 0 : !sim_chance(&r, 1, 4);
    memset(tr->cfg, 0, sizeof(tr->cfg));
    tr->ncfg = 0; tr->nops = 0;
    w->gen(&r, tr, f, tier);
    if (w->nest && f) {
        sim_seed(&r, sub ^ 0x6e657374);
        if (sim_chance(&r, 1, 4)) {
            tr->cfg[NEST_CFG] = sim_chance(&r, 1, 2) ? sim_range(&r, 1, 12) : sim_range(&r, 1, 200);
            tr->ncfg = SIM_NCFG;
        }
    }
    *faults_on = f;
    return w;
}

static uint64_t seed_of(uint64_t base, const char *prop, uint64_t i)
{
    uint64_t h = 0xcbf29ce484222325ull ^ base;
    for (; *prop; ++prop) h = (h ^ (unsigned char)*prop) * 0x100000001b3ull;
    h ^= i * 0x9e3779b97f4a7c15ull;
    return splitmix(&h);
}

int main(int argc, char **argv)
{
    static sim_trace tr;
    const char *cmd = argc > 1 ? argv[1] : "";
    static char altstack[1 << 16];
    stack_t ss = { .ss_sp = altstack, .ss_size = sizeof(altstack) };
    struct sigaction sa = { .sa_flags = SA_ONSTACK };

    /* addresses are an input of a run that goes wrong: keep them the same in every process */
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0
        && (personality(0xffffffff) & ADDR_NO_RANDOMIZE))
        execv("/proc/self/exe", argv);

    sigaltstack(&ss, NULL);
    sa.sa_handler = on_hang;
    sigaction(SIGVTALRM, &sa, NULL);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(asan_death);
#else
    sa.sa_handler = on_signal;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
#endif

    if (!strcmp(cmd, "run") && argc >= 9) {
        /* run PROP BASESEED FROM COUNT TIER MODE OUTPREFIX [SECONDS] */
        const char *prop = argv[2];
        uint64_t base = strtoull(argv[3], NULL, 0), from = strtoull(argv[4], NULL, 0), n = strtoull(argv[5], NULL, 0);
        int tier = atoi(argv[6]), mode = atoi(argv[7]);
        double limit = argc > 9 ? atof(argv[9]) : 0;
        char path[512];
        struct timespec t0, t1;
        uint64_t done = 0, faulty = 0, ffree = 0, nops = 0;
        FILE *hf;
        cov = calloc(1, 1u << (COVBITS - 3));
        snprintf(path, sizeof(path), "%s.hashes", argv[8]);
        hf = fopen(path, "wb");
        clock_gettime(CLOCK_MONOTONIC, &t0);
        for (uint64_t i = from; i < from + n; ++i) {
            int f;
            run_index = (int64_t)i;
            run_seed = seed_of(base, prop, i);
            const sim_workload *w = gen_run(prop, run_seed, tier, mode, &tr, &f);
            run_one(w, &tr);
            done++; nops += (uint64_t)tr.nops;
            if (f) faulty++; else ffree++;
            /* a run counts as non-trivial when it did something under a fault or an adverse schedule */
            uint64_t rec[2] = { run_hash, run_faults };
            fwrite(rec, sizeof(rec), 1, hf);
            if (limit > 0) {
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9 > limit) break;
            }
        }
        fclose(hf);
        snprintf(path, sizeof(path), "%s.cov", argv[8]);
        hf = fopen(path, "wb");
        fwrite(cov, 1, 1u << (COVBITS - 3), hf);
        fclose(hf);
        snprintf(path, sizeof(path), "%s.stats", argv[8]);
        hf = fopen(path, "w");
        fprintf(hf, "runs %llu\nfault_runs %llu\nfault_free_runs %llu\nops %llu\nsimns %llu\n",
                (unsigned long long)done, (unsigned long long)faulty, (unsigned long long)ffree,
                (unsigned long long)nops, (unsigned long long)total_ns);
        for (int i = 0; i < NCOUNT && probes[i].name; ++i) fprintf(hf, "probe.%s %llu\n", probes[i].name, (unsigned long long)probes[i].n);
        for (int i = 0; i < NCOUNT && faults[i].name; ++i) fprintf(hf, "fault.%s %llu\n", faults[i].name, (unsigned long long)faults[i].n);
        fclose(hf);
        printf("SIM-RESULT ok runs=%llu\n", (unsigned long long)done);
        return 0;
    }
    if (!strcmp(cmd, "gen") && argc >= 7) {
        /* gen PROP BASESEED INDEX TIER MODE [COUNT] */
        int f;
        uint64_t s;
        const sim_workload *w;
        uint64_t i = strtoull(argv[4], NULL, 0), n = argc > 7 ? strtoull(argv[7], NULL, 0) : 1;
        for (; n--; ++i) {
            s = seed_of(strtoull(argv[3], NULL, 0), argv[2], i);
            w = gen_run(argv[2], s, atoi(argv[5]), atoi(argv[6]), &tr, &f);
            printf("# VERIF_SEED=%s run=%llu seed=%016llx\n", argv[3], (unsigned long long)i, (unsigned long long)s);
            trace_write(stdout, w, &tr);
        }
        return 0;
    }
    if (!strcmp(cmd, "exec") && argc >= 3) {
        FILE *f = strcmp(argv[2], "-") ? fopen(argv[2], "r") : stdin;
        const sim_workload *w = f ? trace_read(f, &tr) : NULL;
        if (!w) { fprintf(stderr, "bad trace\n"); return 70; }
        do run_one(w, &tr); while ((w = trace_read(f, &tr)));
        printf("SIM-RESULT ok hash=%016llx faults=%u\n", (unsigned long long)run_hash, run_faults);
        for (int i = 0; i < NCOUNT && probes[i].name; ++i) printf("probe.%s %llu\n", probes[i].name, (unsigned long long)probes[i].n);
        for (int i = 0; i < NCOUNT && faults[i].name; ++i) printf("fault.%s %llu\n", faults[i].name, (unsigned long long)faults[i].n);
        return 0;
    }
    if (!strcmp(cmd, "hash") && argc >= 7) {
        /* hash PROP BASESEED FROM COUNT TIER : one "index hash" line per run (determinism proof) */
        uint64_t from = strtoull(argv[4], NULL, 0), n = strtoull(argv[5], NULL, 0);
        for (uint64_t i = from; i < from + n; ++i) {
            int f;
            run_index = (int64_t)i;
            const sim_workload *w = gen_run(argv[2], seed_of(strtoull(argv[3], NULL, 0), argv[2], i), atoi(argv[6]), 0, &tr, &f);
            run_one(w, &tr);
            printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)run_hash);
        }
        return 0;
    }
    fprintf(stderr, "usage: %s run|gen|exec|hash ...\n", argv[0]);
    return 64;
}

/* rand() is the library's source of randomness (skip list levels): a seam the run owns */
static sim_rng lib_rand;
static unsigned lib_low;
void sim_seed_rand(uint64_t seed) { sim_seed(&lib_rand, seed); lib_low = 0; }
void sim_rand_low(unsigned of64) { lib_low = of64; }      /* how many draws in 64 come out small */
int __wrap_rand(void);
int __wrap_rand(void)
{
    int v = (int)(sim_u64(&lib_rand) >> 33);
    if (lib_low && sim_below(&lib_rand, 64) < lib_low) v >>= 8;
    sim_log((uint64_t)v);
    return v;
}
