/*
 * Deterministic simulator core for the bfdev checks.
 *
 * One simulated run is a pure function of a trace: a configuration vector and
 * a list of operations, each carrying the fault window that is armed while it
 * executes.  Traces are produced from a seed by a workload's gen() and run by
 * its exec(); replay and minimisation work on the trace text alone.
 */
#ifndef SIM_H
#define SIM_H

#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

#define SIM_NCFG 24
#define SIM_NARG 5
#define SIM_MAXOPS 4096

typedef struct sim_rng { uint64_t s[4]; } sim_rng;

typedef struct sim_op {
    uint32_t kind;
    int64_t a[SIM_NARG];
    int32_t fskip;              /* allocation requests let through; -1: no fault */
    int32_t fcount;             /* requests failed after that */
} sim_op;

typedef struct sim_trace {
    int64_t cfg[SIM_NCFG];
    int ncfg;
    int nops;
    sim_op ops[SIM_MAXOPS];
} sim_trace;

typedef struct sim_workload {
    const char *prop;           /* property id */
    const char *name;
    const char *const *cfgnames;
    const char *const *opnames;
    /* faults: 0 fault-free configuration, 1 fault-injecting; tier: 0 quick, 1 thorough */
    void (*gen)(sim_rng *rng, sim_trace *tr, int faults, int tier);
    void (*exec)(const sim_trace *tr);
    int weight;                 /* share of the property's runs, default 1 */
    void (*nest)(void);         /* a short use of another instance of the same module, see sim_nest() */
} sim_workload;

/* PRNG */
void sim_seed(sim_rng *r, uint64_t seed);
uint64_t sim_u64(sim_rng *r);
uint64_t sim_below(sim_rng *r, uint64_t n);            /* [0,n), n>=1 */
int64_t sim_range(sim_rng *r, int64_t lo, int64_t hi); /* [lo,hi] */
bool sim_chance(sim_rng *r, unsigned num, unsigned den);
int sim_pickw(sim_rng *r, const int *w, int n);        /* weighted index */

/* trace building */
sim_op *sim_add(sim_trace *tr, uint32_t kind);
/* give the op an allocation fault with chance num/den */
void sim_arm(sim_rng *r, sim_op *op, unsigned num, unsigned den, int maxskip);

/* event log, folded into a 64-bit hash; never draws randomness, never perturbs */
void sim_log(uint64_t v);
void sim_logbuf(const void *p, size_t n);
uint64_t sim_hash(void);

/* verdicts */
void sim_fail(const char *cls, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { \
    if (!(cond)) sim_fail(cls, __VA_ARGS__); \
} while (0)

/* reach: named counters; the name must be a string literal */
void sim_probe(const char *name);
void sim_fault(const char *name);         /* a fault of this kind actually fired */
void sim_state(uint64_t h);               /* abstract state reached (coverage) */
void sim_time(uint64_t ns);               /* simulated time that passed */
int sim_faults_fired(void);               /* in this run */
void sim_slow(int sec);                   /* this run may take so much CPU time */

/* called by the workload's callbacks: in some runs every n-th callback uses the
 * module itself on another instance before it answers; that must disturb neither */
void sim_nest(void);

/* error-level diagnostics the library printed since the last call */
unsigned sim_alarms(void);

/* harness-owned memory, released wholesale at the end of a run */
void *sim_tmp(size_t n);

/* simulated allocator: fault windows, byte budget, moving realloc, ledger */
struct bfdev_alloc;
typedef struct sim_heap sim_heap;
sim_heap *sim_heap_new(int64_t move_pct, int64_t budget, uint64_t garbage);
const struct bfdev_alloc *sim_heap_alloc(sim_heap *h);
void sim_heap_op(sim_heap *h, const sim_op *op);   /* arm faults of this op */
void sim_heap_arm(sim_heap *h, int skip, int count);
void sim_heap_calm(sim_heap *h);                   /* disarm + lift the budget */
void sim_heap_budget(sim_heap *h, int64_t budget); /* 0: unlimited */
void sim_heap_huge(sim_heap *h);                   /* this op may ask for more than there is (1 GiB) */
size_t sim_heap_blocks(sim_heap *h);
size_t sim_heap_bytes(sim_heap *h);
unsigned sim_heap_failed(sim_heap *h);   /* failures since last sim_heap_op */
unsigned sim_heap_requests(sim_heap *h);
bool sim_heap_owns(sim_heap *h, const void *p, size_t n);
void sim_heap_expect_empty(sim_heap *h, const char *what);

static inline uint64_t sim_mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull; a ^= a >> 33;
    return a;
}

/* seed the library's rand() for this run */
void sim_seed_rand(uint64_t seed);
void sim_rand_low(unsigned of64);

extern const sim_workload *const sim_workloads[];

#endif
