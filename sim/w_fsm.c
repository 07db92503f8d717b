/* E01: state machine: transitions follow the table; refused or failed ones leave state and saved states alone. */
#include "sim.h"
#include <bfdev/fsm.h>
#include <bfdev/errno.h>

enum { EVENT, RESET, ERROR_, NOPS_ };
static const char *const opn[] = { "event", "reset", "error" };
static const char *const cfn[SIM_NCFG] = { "states", "types", "table", "garbage", "budget", "density", "pad", "type_shift" };
#define MAXS 8
#define MAXT 6
#define FUEL 40
#define CBFAIL cbfail
enum { L_ENTER = 1, L_EXIT, L_ACTION };

static bfdev_fsm_state_t st[MAXS];
static bfdev_fsm_transition_t *tr_[MAXS], exc[MAXS];
static int ids[MAXS], nst, ntypes, hasexc[MAXS], tdata[MAXS * (MAXT + 1)];
static const bfdev_fsm_state_t *errst;
static bfdev_fsm_event_t ev;
static int evcookie, evarg, cbfail, pad, tyshift;
static uint32_t lg[4096], mlg[4096];
static int nlg, nmlg, failat;

static int record(int kind, int id, int a, int b)
{
    sim_nest();
    SIM_CHECK(nlg < 4000, "fsm:runaway", "one event ran more than 4000 callbacks");
    lg[nlg++] = (uint32_t)(kind << 24 | id << 16 | a << 8 | b);
    return nlg - 1 == failat ? CBFAIL : 0;
}
static int sid(const void *d) { return (int)((const int *)d - ids); }
static void evcheck(const bfdev_fsm_event_t *e) { SIM_CHECK(e == &ev && e->pdata == &evcookie, "fsm:event", "a callback got another event"); }
static int on_enter(bfdev_fsm_event_t *e, void *d) { evcheck(e); return record(L_ENTER, sid(d), 0, 0); }
static int on_exit_(bfdev_fsm_event_t *e, void *d) { evcheck(e); return record(L_EXIT, sid(d), 0, 0); }
static int on_action(bfdev_fsm_event_t *e, void *d, void *c, void *n) { evcheck(e); return record(L_ACTION, (int)((int *)d - tdata), sid(c), sid(n)); }
/* a guard and an exception handler are pure functions of the event, with a fuel limit against endless crossing */
static bool lets(const void *cond, int fuel) { return fuel < FUEL && sim_mix((uint64_t)(uintptr_t)cond, (uint64_t)evarg) % 4 != 0; }
static long on_guard(bfdev_fsm_event_t *e, const void *cond) { sim_nest(); evcheck(e);
    /* anything but zero is a refusal, also what an int would cut to zero */
    static const long no[] = { 5, -3, 1, (long)1 << 40, (long)-1 << 33 };
    return lets(cond, nlg) ? 0 : no[sim_mix((uint64_t)(uintptr_t)cond, 5) % 5]; }
static bool excfires(int s, int fuel) { return fuel < FUEL && sim_mix((uint64_t)s * 77, (uint64_t)evarg) % 3 != 0; }
static bfdev_fsm_transition_t *on_exception(bfdev_fsm_event_t *e, void *d) { evcheck(e); return excfires(sid(d), nlg) ? &exc[sid(d)] : NULL; }

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 30, 1, 1 };
    int n = (int)sim_range(r, 4, tier ? 200 : 70);
    tr->ncfg = 8;
    tr->cfg[0] = sim_range(r, 2, MAXS);
    tr->cfg[1] = sim_range(r, 1, 4);
    tr->cfg[2] = (int64_t)(sim_u64(r) >> 1);
    tr->cfg[3] = (int64_t)sim_u64(r);
    tr->cfg[4] = faults && sim_chance(r, 1, 6) ? sim_range(r, 64, 400) : 0;
    tr->cfg[5] = sim_range(r, 0, 3);
    tr->cfg[6] = sim_chance(r, 1, 40) ? sim_range(r, 30, 320) : 0;
    if (sim_chance(r, 1, 600)) { tr->cfg[6] = sim_range(r, 65530, 66000); n = n / 4 + 1; }
    tr->cfg[7] = sim_chance(r, 1, 3) ? sim_chance(r, 1, 2) ? 8 : 16 : 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, tr->cfg[1] - 1);
        o->a[1] = sim_range(r, 0, 200);
        o->a[2] = faults && sim_chance(r, 1, 4) ? sim_range(r, 0, 6) : -1;
        if (faults) sim_arm(r, o, 1, 4, 1);
    }
}

static void mktrans(sim_rng *r, bfdev_fsm_transition_t *t, int idx, int *hasact)
{
    memset(t, 0, sizeof(*t));
    t->type = (unsigned)sim_below(r, (uint64_t)ntypes) << tyshift;
    t->cond = (void *)(uintptr_t)(idx + 1);
    t->next = sim_chance(r, 3, 4) ? &st[sim_below(r, (uint64_t)nst)] : NULL;
    t->stack = sim_chance(r, 1, 2) ? 0 : sim_chance(r, 1, 2) ? 1 : -(int)sim_range(r, 1, 3);
    if (!t->next && t->stack >= 0 && sim_chance(r, 4, 5)) t->stack = -1;
    static const int deep[] = { 2, 41, 300, 70000, 2147483647, -4, -41, -256, -300, -70000 };
    if (t->stack && sim_chance(r, 1, 12)) { int k = (int)sim_below(r, t->next || t->stack > 0 ? 5 : 10); t->stack = k < 5 ? t->stack > 0 ? deep[k] : -deep[k] : deep[k]; }
    t->cross = sim_chance(r, 1, 4);
    t->guard = t->cross || sim_chance(r, 1, 2) ? on_guard : NULL;
    t->action = t->cross || sim_chance(r, 2, 3) ? on_action : NULL;
    t->data = &tdata[idx];
    (void)hasact;
}

static void mktable(const sim_trace *tr)
{
    sim_rng r;
    sim_seed(&r, (uint64_t)tr->cfg[2]);
    memset(st, 0, sizeof(st));
    errst = NULL;
    for (int s = 0; s < nst; ++s) {
        st[s].data = &ids[s];
        st[s].enter = sim_chance(&r, 3, 4) ? on_enter : NULL;
        st[s].exit = sim_chance(&r, 3, 4) ? on_exit_ : NULL;
        st[s].tnum = (unsigned)sim_range(&r, tr->cfg[5] & 1 ? 0 : 1, MAXT);
        /* a long table: the transitions that matter come last */
        int own = (int)st[s].tnum, skip = own ? pad : 0;
        tr_[s] = sim_tmp(sizeof(*tr_[s]) * (size_t)(skip + MAXT));
        memset(tr_[s], 0, sizeof(*tr_[s]) * (size_t)(skip + MAXT));
        for (int t = 0; t < skip; ++t) { tr_[s][t].type = 99u << tyshift; tr_[s][t].next = &st[s]; }
        st[s].trans = tr_[s];
        for (int t = 0; t < own; ++t) mktrans(&r, &tr_[s][skip + t], s * MAXT + t, NULL);
        st[s].tnum += (unsigned)skip;
        hasexc[s] = sim_chance(&r, 1, 4);
        mktrans(&r, &exc[s], MAXS * MAXT + s, NULL);
        if (hasexc[s]) st[s].exception = on_exception;
        if (s + 1 < nst && sim_chance(&r, 1, 2)) st[s].parent = &st[sim_range(&r, s + 1, nst - 1)];
        if (s && sim_chance(&r, 1, 4)) st[s].entry = &st[sim_range(&r, 0, s - 1)];
    }
    if (sim_chance(&r, 2, 3)) errst = &st[sim_below(&r, (uint64_t)nst)];
}

/* ------- reference machine */
static struct { const bfdev_fsm_state_t *cur, *prev; bool prevok; const bfdev_fsm_state_t *stk[4096]; int n; } M;
static int pushes, loose;
#define RUN(kind, id, a, b) do { mlg[nmlg++] = (uint32_t)((kind) << 24 | (id) << 16 | (a) << 8 | (b)); if (nmlg - 1 == failat) return CBFAIL; } while (0)
static void mset(const bfdev_fsm_state_t *s) { M.prev = M.cur; M.prevok = true; M.cur = s; }

static int model(int type, int oompush)
{
    const bfdev_fsm_state_t *c = M.cur, *n;
    bool changed = false;
    if (!c) return -BFDEV_EINVAL;
    while (c) {
        const bfdev_fsm_transition_t *t = NULL;
        for (unsigned i = 0; i < c->tnum && !t; ++i)
            if (c->trans[i].type == (unsigned)type << tyshift && (!c->trans[i].guard || lets(c->trans[i].cond, nmlg))) t = &c->trans[i];
        if (!t && hasexc[c - st] && excfires((int)(c - st), nmlg)) t = &exc[c - st];
        if (!t) { c = c->parent; continue; }
        n = t->next;
        int take = 0;
        if (!n && t->stack < 0) {
            take = -t->stack;
            if (take > M.n) return -BFDEV_EOVERFLOW;
            n = M.stk[M.n - take];
        }
        if (!n) {
            mset(errst);
            if (errst && errst->enter) RUN(L_ENTER, (int)(errst - st), 0, 0);
            return -BFDEV_ENOENT;
        }
        while (n->entry) n = n->entry;
        if (t->stack > 0 && ++pushes == oompush) { loose = nmlg; return -BFDEV_ENOMEM; }
        if (c != n && t->stack <= 0 && c->exit) RUN(L_EXIT, (int)(c - st), 0, 0);
        if (t->action) RUN(L_ACTION, (int)((int *)t->data - tdata), (int)(c - st), (int)(n - st));
        if (c != n && t->stack >= 0 && n->enter) RUN(L_ENTER, (int)(n - st), 0, 0);
        M.n -= take;
        mset(n);
        changed = true;
        if (n == errst) return -BFDEV_EFAULT;
        if (c == n) return BFDEV_FSM_SELFLOOP;
        if (!n->tnum && !hasexc[n - st]) return BFDEV_FSM_FINISH;
        if (t->stack > 0) { M.stk[M.n++] = c; sim_probe("fsm_pushed"); }
        if (take) sim_probe("fsm_popped");
        if (!t->cross) return BFDEV_FSM_CHANGED;
        sim_probe("fsm_crossed");
        c = n;
    }
    return changed ? 1000 : BFDEV_FSM_NOCHANGE;   /* crossed, then nothing more matched: either answer will do */
}

static void exec(const sim_trace *tr)
{
    bfdev_fsm_t f;
    nst = (int)tr->cfg[0]; ntypes = (int)tr->cfg[1];
    if (nst < 2 || nst > MAXS || ntypes < 1 || ntypes > 8) return;
    sim_heap *h = sim_heap_new(100, tr->cfg[4], (uint64_t)tr->cfg[3]);
    pad = (int)(tr->cfg[6] < 0 || tr->cfg[6] > 70000 ? 0 : tr->cfg[6]); tyshift = (int)(tr->cfg[7] & 31);
    mktable(tr);
    bfdev_fsm_init(&f, sim_heap_alloc(h), &st[0], errst);
    memset(&M, 0, sizeof(M)); M.cur = &st[0];
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        nlg = nmlg = 0; failat = o->a[2] < 0 ? -1 : (int)o->a[2];
        ev.type = (unsigned)(o->a[0] % ntypes) << tyshift; ev.pdata = &evcookie; evarg = (int)o->a[1];
        static const int fails[] = { -77, -1, 77, -2147483647 - 1, -77 };
        cbfail = fails[(unsigned)evarg % 5];
        if (M.n > 1000) break;
        sim_heap_op(h, o);
        if (o->kind == RESET) {
            bfdev_fsm_reset(&f, &st[o->a[1] % nst]);
            M.cur = &st[o->a[1] % nst]; M.n = 0; M.prevok = false;
        } else if (o->kind == ERROR_) {
            int rc = bfdev_fsm_error(&f, &ev), want = 0;
            mset(errst);
            if (errst && errst->enter) { mlg[nmlg++] = (uint32_t)(L_ENTER << 24 | (int)(errst - st) << 16); if (failat == 0) want = CBFAIL; }
            SIM_CHECK(rc == want, "fsm:error-ret", "entering the error state returned %d, expected %d", rc, want);
            SIM_CHECK(nlg == nmlg && !memcmp(lg, mlg, (size_t)nlg * sizeof(*lg)), "fsm:callbacks", "entering the error state ran other callbacks");
        } else {
            int rc = bfdev_fsm_handle(&f, &ev), want;
            sim_log((uint64_t)rc); sim_logbuf(lg, (size_t)nlg * sizeof(*lg));
            if (failat >= 0 && nlg > failat) { sim_fault("callback_failed"); }
            if (rc == -BFDEV_ENOMEM) {
                SIM_CHECK(sim_heap_failed(h), "fsm:spurious-failure", "no memory reported with memory available");
                /* which push failed is up to the allocator */
                static typeof(M) save, best;
                int found = 0;
                save = M;
                for (int j = 1; j < 60; ++j) {
                    M = save; nmlg = pushes = 0;
                    if (model((int)(o->a[0] % ntypes), j) != -BFDEV_ENOMEM) break;
                    /* callbacks of the failed step itself are not looked at */
                    if (bfdev_fsm_curr(&f) == M.cur && nlg >= loose && nlg <= loose + 3 && !memcmp(lg, mlg, (size_t)loose * sizeof(*lg))) { best = M; found++; }
                }
                SIM_CHECK(found, "fsm:oom", "no memory was reported, but this is not the state before any step of the event that saves a state");
                M = best;
                sim_probe("fsm_push_oom");
            } else {
                pushes = 0;
                want = model((int)(o->a[0] % ntypes), 0);
                SIM_CHECK(rc == want || (want == 1000 && (rc == BFDEV_FSM_NOCHANGE || rc == BFDEV_FSM_CHANGED)), "fsm:ret", "event %u in state %d returned %d, expected %d", ev.type, M.prev ? (int)(M.prev - st) : -1, rc, want);
                SIM_CHECK(nlg == nmlg, "fsm:callbacks", "event %u ran %d callbacks, expected %d", ev.type, nlg, nmlg);
                for (int j = 0; j < nlg; ++j) SIM_CHECK(lg[j] == mlg[j], "fsm:callbacks", "callback %d of the event is %08x, expected %08x", j, lg[j], mlg[j]);
            }
        }
        const bfdev_fsm_state_t *cur = bfdev_fsm_curr(&f);
        SIM_CHECK(cur == M.cur, "fsm:state", "state is %d, expected %d after %s", cur ? (int)(cur - st) : -1, M.cur ? (int)(M.cur - st) : -1, opn[o->kind]);
        if (M.prevok) SIM_CHECK(bfdev_fsm_prev(&f) == M.prev, "fsm:prev", "the previous state is wrong after %s", opn[o->kind]);
        if (cur) SIM_CHECK(bfdev_fsm_finished(&f) == (!cur->tnum && !hasexc[cur - st]), "fsm:finished", "finished is wrong");
        SIM_CHECK(!bfdev_array_peek(&f.stack, (unsigned long)M.n + 1), "fsm:stack", "more than %d states are saved after %s", M.n, opn[o->kind]);
        for (int j = 1; j <= M.n; ++j) {
            const bfdev_fsm_state_t **p = bfdev_array_peek(&f.stack, (unsigned long)j);
            SIM_CHECK(p && *p == M.stk[M.n - j], "fsm:stack", "saved state %d from the top is wrong after %s", j, opn[o->kind]);
        }
        sim_state(sim_mix(sim_mix((uint64_t)(cur ? cur - st : 99), (uint64_t)(M.n > 6 ? 6 : M.n)), (uint64_t)nlg * 4 + o->kind));
    }
    bfdev_array_release(&f.stack);
    sim_heap_expect_empty(h, "fsm stack release");
}

/* another machine, from inside a callback */
static int nest_calls;
static int nest_enter(bfdev_fsm_event_t *e, void *d) { (void)d; nest_calls++; return e->pdata == &nest_calls ? 0 : -BFDEV_EINVAL; }
static void nest(void)
{
    static bfdev_fsm_state_t s[3];
    static bfdev_fsm_transition_t t0[] = { { .type = 1, .next = &s[1], .stack = 1 }, { .type = 2, .next = &s[2] } }, t1[] = { { .type = 1, .next = &s[2], .stack = 1 } }, t2[] = { { .type = 51 }, { .type = 52 }, { .type = 53 }, { .type = 54 }, { .type = 55 }, { .type = 3, .stack = -1 } };
    bfdev_fsm_event_t e = { .type = 1, .pdata = &nest_calls };
    bfdev_fsm_t f;
    for (int i = 0; i < 3; ++i) { s[i].enter = nest_enter; s[i].trans = i == 0 ? t0 : i == 1 ? t1 : t2; s[i].tnum = i == 0 ? 2 : i == 1 ? 1 : 6; }
    bfdev_fsm_init(&f, NULL, &s[0], NULL);
    nest_calls = 0;
    SIM_CHECK(bfdev_fsm_handle(&f, &e) == BFDEV_FSM_CHANGED && bfdev_fsm_curr(&f) == &s[1], "fsm:nested", "another machine does not change its state from inside a callback");
    SIM_CHECK(bfdev_fsm_handle(&f, &e) >= 0 && bfdev_fsm_curr(&f) == &s[2] && bfdev_fsm_prev(&f) == &s[1], "fsm:nested", "another machine does not change its state from inside a callback");
    SIM_CHECK(bfdev_fsm_handle(&f, &e) == BFDEV_FSM_NOCHANGE, "fsm:nested", "another machine takes a transition it does not have");
    e.type = 3;
    SIM_CHECK(bfdev_fsm_handle(&f, &e) >= 0 && bfdev_fsm_curr(&f) == &s[1] && nest_calls == 2, "fsm:nested", "another machine does not come back to its saved state");
    bfdev_array_release(&f.stack);
}

const sim_workload w_fsm = { "E01", "fsm", cfn, opn, gen, exec, 1, nest };
