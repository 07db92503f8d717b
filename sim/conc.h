/*
 * Simulated threads.  The library is compiled with -fsanitize=thread, but the
 * callbacks are this file's, not libtsan's: every load, store, atomic and memcpy
 * chunk of the code under test becomes a point where the schedule - a list of
 * (points to run, thread to run next) pairs in the trace - may switch threads,
 * suspend one or end one for good.  One OS thread, coroutines, no clock: a run
 * is a function of its trace.  Memory is sequentially consistent.
 */
#ifndef CONC_H
#define CONC_H
#include "sim.h"

#define CONC_MAXT 6

/* the first three op kinds of every concurrent workload */
enum { CONC_PREEMPT, CONC_KILL, CONC_STALL, CONC_OPS };
#define CONC_OPNAMES "preempt", "kill", "stall"

/* Appends a schedule for nthr threads whose programs take about npoints points each. */
void conc_gen(sim_rng *r, sim_trace *tr, int nthr, int npoints, int faults);

typedef void (*conc_fn)(int tid, void *arg);
void conc_spawn(conc_fn fn, void *arg);
/* Runs all threads to their end (or their kill). limit: points before "no progress". */
void conc_run(const sim_trace *tr, uint64_t limit);

int conc_self(void);
uint64_t conc_now(void);        /* strictly increasing within a run */
bool conc_killed(int tid);
uint64_t conc_points(int tid);

/* library code runs between these; elsewhere no switch happens */
void conc_enter(void);
void conc_leave(void);
#define LIB(stmt) do { conc_enter(); stmt; conc_leave(); } while (0)

/* ---- histories and linearizability ---- */
typedef struct lin_op {
    int tid, kind;
    uint64_t inv, res;          /* res == UINT64_MAX: never returned (thread killed) */
    int64_t arg[4], ret[4];
} lin_op;
#define LIN_STATE 1024
/* applies op to state; done: it returned, so op->ret has to match. false: impossible here */
typedef bool (*lin_step)(void *state, const lin_op *op, bool done);
/* n <= 64. true: some order of the operations explains every result */
bool lin_check(const lin_op *ops, int n, const void *init, size_t size, lin_step step);

#endif
