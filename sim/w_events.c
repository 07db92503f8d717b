/*
 * E02: notification chain; E03: resource pool; E04: log front end.
 * The faults are the callbacks': refusing, stopping, removing themselves, re-entering, failing sinks.
 */
#include "sim.h"
#include <bfdev/notifier.h>
#include <bfdev/respool.h>
#include <bfdev/log.h>
#include <bfdev/scnprintf.h>
#include <bfdev/errno.h>
#include <stdarg.h>

#define MAXN 48

/* ---------------------------------------------------------------- E02 */
enum { N_REG, N_UNREG, N_CALL, N_NOPS };
static const char *const nopn[] = { "register", "unregister", "call" };
static const char *const ncfn[SIM_NCFG] = { "priorities", "nodes" };
typedef struct { bfdev_notifier_node_t n; bool in, calls_back; int id, old; } nnode;
static nnode *nn;
static bfdev_notifier_t chain;
static int nnodes;
static int called[4096], ncalled, cookie;
static uint64_t behave;
static bool reentered, gone[64];

static void gen2(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 8, 3, 6 };
    int n = (int)sim_range(r, 4, tier ? 200 : 70);
    tr->ncfg = 2;
    tr->cfg[0] = sim_chance(r, 1, 2) ? sim_range(r, 1, 4) : 1000;
    tr->cfg[1] = sim_range(r, 1, MAXN);
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, N_NOPS));
        o->a[0] = (int64_t)sim_below(r, (uint64_t)tr->cfg[1]);
        o->a[1] = sim_chance(r, 1, 8) ? (sim_chance(r, 1, 2) ? INT32_MIN : INT32_MAX) : sim_range(r, -tr->cfg[0], tr->cfg[0]);
        o->a[2] = sim_chance(r, 1, 3) ? sim_range(r, 0, 10) : -1;        /* limit of a call */
        o->a[3] = faults ? (int64_t)(sim_u64(r) >> 1) : 0;               /* how callbacks behave */
        o->a[4] = sim_range(r, 0, 1);
    }
}

enum { B_PLAIN, B_REMOVE, B_STOP, B_BOTH, B_SELF, B_REGISTER, B_OTHER };
static int behaviour(int id)
{
    if (!behave) return B_PLAIN;
    switch (sim_mix(behave, (uint64_t)id) % 24) { case 0: case 1: return B_REMOVE; case 2: return B_STOP; case 3: return B_BOTH; case 4: return B_SELF; case 5: return B_REGISTER; case 6: return B_OTHER; }
    return B_PLAIN;
}
static void nreg(int id);
static bfdev_notifier_ret_t on_notify(void *arg, void *pdata)
{
    nnode *n = pdata;
    SIM_CHECK(arg == &cookie, "notifier:arg", "a callback got another argument");
    SIM_CHECK(n->in, "notifier:ghost", "node %d was called but is not registered", n->id);
    SIM_CHECK(ncalled < 4000, "notifier:runaway", "one call ran more than 4000 callbacks");
    called[ncalled++] = n->id;
    sim_nest();
    switch (behaviour(n->id)) {
    case B_REMOVE: sim_fault("callback_removes_itself"); n->in = false; return BFDEV_NOTIFI_RET_REMOVE;
    case B_STOP: sim_fault("callback_stops_chain"); return BFDEV_NOTIFI_RET_STOP;
    case B_BOTH: sim_fault("callback_stops_and_removes"); n->in = false; return BFDEV_NOTIFI_RET_STOP | BFDEV_NOTIFI_RET_REMOVE;
    case B_SELF: sim_fault("callback_unregisters_itself"); n->in = false; bfdev_notifier_unregister(&chain, &n->n); return BFDEV_NOTIFI_RET_DONE;
    case B_REGISTER:
        for (int i = 0; i < nnodes; ++i) if (!nn[i].in) { nreg(i); nn[i].old = false; reentered = true; sim_fault("callback_registers"); break; }
        break;
    case B_OTHER:
        /* any node but the one the running notification goes to next */
        for (int k = 0; k < nnodes; ++k) {
            int i = (int)((behave >> 8) + (uint64_t)k) % nnodes;
            if (i < 0) i = -i;
            if (!nn[i].in || &nn[i] == n || n->n.list.node_list.next == &nn[i].n.list.node_list) continue;
            bfdev_notifier_unregister(&chain, &nn[i].n); nn[i].in = false; gone[i] = true; sim_fault("callback_unregisters_another"); break;
        }
        break;
    }
    return BFDEV_NOTIFI_RET_DONE;
}
static void nreg(int id)
{
    nn[id].n.entry = on_notify; nn[id].n.pdata = &nn[id];
    int rc = bfdev_notifier_register(&chain, &nn[id].n);
    SIM_CHECK(!rc, "notifier:register", "register returned %d", rc);
    nn[id].in = true;
}
static void exec2(const sim_trace *tr)
{
    nnodes = (int)tr->cfg[1];
    if (nnodes < 1 || nnodes > MAXN) return;
    nn = sim_tmp(sizeof(*nn) * (size_t)nnodes);
    memset(nn, 0x5a, sizeof(*nn) * (size_t)nnodes);
    for (int i = 0; i < nnodes; ++i) { nn[i].in = false; nn[i].id = i; }
    ncalled = 0;
    bfdev_notifier_init(&chain);
    for (int i = 0; i < tr->nops + 1; ++i) {
        static const sim_op last = { N_CALL, { 0, 0, -1, 0, 1 }, -1, 0 };
        const sim_op *o = i < tr->nops ? &tr->ops[i] : &last;
        int id = (int)(o->a[0] % nnodes), cnt = 0;
        if (id < 0) id = 0;
        switch (o->kind) {
        case N_REG:
            if (nn[id].in) break;
            if (o->a[4] && o->a[3] % 5 == 0) {
                nn[id].n.entry = NULL;
                SIM_CHECK(bfdev_notifier_register(&chain, &nn[id].n) == -BFDEV_EINVAL, "notifier:register", "a node without a callback was registered");
                break;
            }
            nn[id].n.priority = (int)o->a[1];
            nreg(id);
            break;
        case N_UNREG:
            if (!nn[id].in) break;
            bfdev_notifier_unregister(&chain, &nn[id].n);
            nn[id].in = false;
            break;
        case N_CALL: {
            unsigned limit = o->a[2] < 0 ? ~0u : (unsigned)o->a[2], done = 7;
            bool was[MAXN];
            for (int j = 0; j < nnodes; ++j) { was[j] = nn[j].old = nn[j].in; cnt += nn[j].in; }
            ncalled = 0; behave = (uint64_t)o->a[3]; reentered = false; memset(gone, 0, sizeof(gone));
            bfdev_notifier_ret_t rc = bfdev_notifier_call(&chain, &cookie, limit, o->a[4] ? &done : NULL);
            sim_log((uint64_t)rc); sim_logbuf(called, sizeof(int) * (size_t)ncalled);
            SIM_CHECK(!o->a[4] || done == 7u + (unsigned)ncalled, "notifier:count", "%u nodes reported as called, expected %d", done - 7, ncalled);
            SIM_CHECK((unsigned)ncalled <= limit, "notifier:limit", "%d nodes were called, the limit is %u", ncalled, limit);
            int laststop = 0;
            for (int j = 0; j < ncalled; ++j) {
                int b = behaviour(called[j]);
                laststop = b == B_STOP || b == B_BOTH;
                SIM_CHECK(!laststop || j == ncalled - 1, "notifier:stop", "nodes were called after one had stopped the chain");
                for (int k = 0; k < j; ++k) SIM_CHECK(called[k] != called[j], "notifier:twice", "node %d was called twice", called[j]);
                if (j) SIM_CHECK(nn[called[j - 1]].n.priority <= nn[called[j]].n.priority, "notifier:order", "priority %d was called before %d", nn[called[j - 1]].n.priority, nn[called[j]].n.priority);
                was[called[j]] = false;
            }
            SIM_CHECK(rc == (laststop ? BFDEV_NOTIFI_RET_STOP : BFDEV_NOTIFI_RET_DONE), "notifier:ret", "the chain returned %d", (int)rc);
            /* who was left out: nobody, or only those behind the last one called */
            bool cut = laststop || (unsigned)ncalled == limit;
            for (int j = 0; j < nnodes; ++j) if (was[j] && !gone[j]) {
                SIM_CHECK(cut, "notifier:missed", "node %d was not called", j);
                if (ncalled) SIM_CHECK(nn[j].n.priority >= nn[called[ncalled - 1]].n.priority, "notifier:missed", "node %d of a lower priority was skipped", j);
            }
            for (int j = 0; j < nnodes; ++j) cnt -= was[j] && gone[j];
            if (!reentered && !cut) SIM_CHECK(ncalled == cnt, "notifier:missed", "%d of %d nodes were called", ncalled, cnt);
            break;
        }
        }
        cnt = 0;
        for (int j = 0; j < nnodes; ++j) cnt += nn[j].in;
        sim_state(sim_mix((uint64_t)cnt * 64 + (uint64_t)(ncalled > 60 ? 60 : ncalled), o->kind));
    }
}
/* another chain, from inside a callback */
static bfdev_notifier_ret_t nest_notify(void *arg, void *pdata) { int *n = arg; *n = *n * 10 + *(int *)pdata; return *(int *)pdata == 2 ? BFDEV_NOTIFI_RET_REMOVE : BFDEV_NOTIFI_RET_DONE; }
static void n_nest(void)
{
    static int id[] = { 3, 1, 2 };
    static bfdev_notifier_node_t n[3];
    bfdev_notifier_t other;
    int seen = 0;
    unsigned cnt = 0;
    bfdev_notifier_init(&other);
    for (int i = 0; i < 3; ++i) { n[i] = (bfdev_notifier_node_t){ .priority = id[i], .entry = nest_notify, .pdata = &id[i] }; SIM_CHECK(!bfdev_notifier_register(&other, &n[i]), "notifier:nested", "registering with another chain from inside a callback fails"); }
    bfdev_notifier_call(&other, &seen, UINT32_MAX, &cnt);
    SIM_CHECK(seen == 123 && cnt == 3, "notifier:nested", "another chain called from inside a callback runs %d (%u)", seen, cnt);
    seen = 0;
    bfdev_notifier_call(&other, &seen, UINT32_MAX, NULL);
    SIM_CHECK(seen == 13, "notifier:nested", "another chain called again from inside a callback runs %d", seen);
}
const sim_workload w_notifier = { "E02", "notifier", ncfn, nopn, gen2, exec2, 1, n_nest };

/* ---------------------------------------------------------------- E03 */
enum { R_INS, R_REM, R_REL, R_FIND, R_FINDREM, R_FINDREL, R_ALL, R_NOPS };
static const char *const ropn[] = { "insert", "remove", "release", "find", "find-remove", "find-release", "release-all" };
static const char *const rcfn[SIM_NCFG] = { "tags", "reinsert" };
typedef struct { bfdev_respool_node_t n; bool in; int tag, id, released; } rnode;
static rnode *rn;
static bfdev_respool_t pool;
static int stack[4096], nstack, relorder[4096], nrel, reins;
static int rcookie;

static void gen3(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 14, 2, 3, 3, 3, 3, 1 };
    int n = (int)sim_range(r, 4, tier ? 200 : 80);
    tr->ncfg = 2;
    tr->cfg[0] = sim_range(r, 1, 12);
    tr->cfg[1] = faults ? sim_range(r, 1, 100) : 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, R_NOPS));
        o->a[0] = sim_range(r, 0, MAXN - 1);
        o->a[1] = sim_range(r, 0, tr->cfg[0] - 1);
    }
}
static void rpush(int id) { rn[id].in = true; rn[id].released = 0; stack[nstack++] = id; }
static void rpop(int id)
{
    int k = nstack - 1;
    while (k >= 0 && stack[k] != id) --k;
    SIM_CHECK(k >= 0, "respool:ghost", "resource %d is not in the pool", id);
    memmove(stack + k, stack + k + 1, sizeof(int) * (size_t)(nstack - k - 1));
    nstack--; rn[id].in = false;
}
static long rsame(bfdev_respool_node_t *node, void *pdata) { return node != (bfdev_respool_node_t *)pdata; }
static void on_release(bfdev_respool_node_t *node, void *pdata)
{
    rnode *n = (rnode *)node;
    SIM_CHECK(pdata == &rcookie, "respool:pdata", "the release callback got another pointer");
    SIM_CHECK(n->in, "respool:twice", "resource %d is released but is not in the pool", n->id);
    n->released++;
    rpop(n->id);
    relorder[nrel++] = n->id;
    sim_nest();
    /* it has left the pool by now, and so the owner may scrub it (or, with
     * that, may use the node's memory for something else) */
    SIM_CHECK(bfdev_respool_find(&pool, rsame, n) != node, "respool:still", "resource %d is released but the pool still holds it", n->id);
    memset(&n->n, 0x5a, sizeof(n->n));
    if (reins && sim_mix((uint64_t)n->id, (uint64_t)reins) % 6 == 0 && nrel < 200) {
        /* a release callback acquires something itself */
        for (int j = 0; j < MAXN; ++j) if (!rn[j].in && !rn[j].released && j != n->id) {
            rn[j].tag = n->tag; rn[j].n.release = on_release;
            bfdev_respool_insert(&pool, &rn[j].n);
            rpush(j);
            sim_fault("release_inserts");
            break;
        }
    }
}
static long rfind(bfdev_respool_node_t *node, void *pdata) { sim_nest(); rnode *n = (rnode *)node; SIM_CHECK(n->in, "respool:ghost", "find saw resource %d, which is not in the pool", n->id); return n->tag != *(int *)pdata; }
static long rfindc(bfdev_respool_node_t *node, void *pdata) { rnode *n = (rnode *)node; SIM_CHECK(pdata == &rcookie, "respool:pdata", "find got another pointer"); return n->tag != rcookie; }
static void exec3(const sim_trace *tr)
{
    rn = sim_tmp(sizeof(*rn) * MAXN);
    memset(rn, 0x5a, sizeof(*rn) * MAXN);
    for (int i = 0; i < MAXN; ++i) { rn[i].in = false; rn[i].id = i; rn[i].released = 0; }
    nstack = 0; reins = (int)tr->cfg[1];
    bfdev_respool_init(&pool);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int id = (int)((uint64_t)o->a[0] % MAXN), tag = (int)o->a[1], want = -1;
        nrel = 0;
        for (int j = 0; j < MAXN; ++j) rn[j].released = 0;
        rcookie = tag;
        for (int j = nstack - 1; j >= 0 && want < 0; --j) if (rn[stack[j]].tag == tag) want = stack[j];
        bfdev_respool_node_t *got;
        switch (o->kind) {
        case R_INS:
            if (rn[id].in) break;
            rn[id].tag = tag; rn[id].n.release = on_release;
            bfdev_respool_insert(&pool, &rn[id].n);
            rpush(id);
            break;
        case R_REM: if (rn[id].in) { bfdev_respool_remove(&pool, &rn[id].n); rpop(id); } break;
        case R_REL: if (rn[id].in) { bfdev_respool_release(&pool, &rn[id].n, &rcookie); SIM_CHECK(nrel >= 1 && relorder[0] == id && nrel == 1, "respool:release", "release ran %d callbacks", nrel); } break;
        case R_FIND:
            got = bfdev_respool_find(&pool, rfind, &tag);
            SIM_CHECK(got == (want < 0 ? NULL : &rn[want].n), "respool:find", "find answered %d, expected %d", got ? ((rnode *)got)->id : -1, want);
            break;
        case R_FINDREM:
            got = bfdev_respool_find_remove(&pool, rfind, &tag);
            SIM_CHECK(got == (want < 0 ? NULL : &rn[want].n), "respool:find", "find-remove answered %d, expected %d", got ? ((rnode *)got)->id : -1, want);
            if (got) rpop(want);
            SIM_CHECK(!nrel, "respool:release", "find-remove ran a release callback");
            break;
        case R_FINDREL:
            got = bfdev_respool_find_release(&pool, rfindc, &rcookie);
            SIM_CHECK(got == (want < 0 ? NULL : &rn[want].n), "respool:find", "find-release answered %d, expected %d", got ? ((rnode *)got)->id : -1, want);
            SIM_CHECK(nrel == (want >= 0) && (want < 0 || relorder[0] == want), "respool:release", "find-release ran %d callbacks", nrel);
            break;
        case R_ALL: {
            int was[MAXN], nwas = nstack;
            memcpy(was, stack, sizeof(int) * (size_t)nwas);
            bfdev_respool_release_all(&pool, &rcookie);
            /* what a release callback inserts meanwhile may be released or stay */
            int k = nwas - 1;
            for (int j = 0; j < nrel; ++j) {
                bool mine = false;
                for (int x = 0; x < nwas; ++x) mine |= was[x] == relorder[j];
                if (!mine) continue;
                SIM_CHECK(k >= 0 && relorder[j] == was[k], "respool:all", "release-all did not take the youngest resource left first");
                k--;
            }
            SIM_CHECK(k < 0, "respool:all", "%d resources survived release-all", k + 1);
            SIM_CHECK(reins || (nrel == nwas && !nstack), "respool:all", "%d of %d resources were released", nrel, nwas);
            break;
        }
        }
        SIM_CHECK(bfdev_respool_check_empty(&pool) == !nstack, "respool:empty", "the pool says it is %s with %d resources", nstack ? "empty" : "not empty", nstack);
        /* the pool holds exactly the resources it should, youngest first */
        int k = nstack;
        bfdev_respool_node_t *n;
        bfdev_list_for_each_entry(n, &pool.nodes, list) { k--; SIM_CHECK(k >= 0 && (rnode *)n == &rn[stack[k]], "respool:content", "the pool's content or order is wrong after %s", ropn[o->kind]); }
        SIM_CHECK(k == 0, "respool:content", "%d resources are missing from the pool", k);
        sim_state(sim_mix((uint64_t)nstack * 64 + (uint64_t)nrel, o->kind));
    }
}
/* another pool, from inside a callback */
static void nest_release(bfdev_respool_node_t *node, void *pdata) { int *n = pdata; *n = *n * 10 + ((rnode *)node)->tag; }
static long nest_rfind(bfdev_respool_node_t *node, void *pdata) { return ((rnode *)node)->tag - *(int *)pdata; }
static void r_nest(void)
{
    static rnode n[4];
    bfdev_respool_t other;
    int seen = 0, two = 2;
    bfdev_respool_init(&other);
    for (int i = 0; i < 4; ++i) { memset(&n[i], 0, sizeof(n[i])); n[i].tag = i + 1; n[i].n.release = nest_release; bfdev_respool_insert(&other, &n[i].n); }
    SIM_CHECK(bfdev_respool_find_remove(&other, nest_rfind, &two) == &n[1].n, "respool:nested", "another pool does not find its resource from inside a callback");
    bfdev_respool_release_all(&other, &seen);
    SIM_CHECK(seen == 431, "respool:nested", "another pool released from inside a callback releases %d", seen);
}
const sim_workload w_respool = { "E03", "respool", rcfn, ropn, gen3, exec3, 1, r_nest };

/* ---------------------------------------------------------------- E04 */
enum { L_MSG, L_LONG, L_ARGS, L_PARSE, L_CONF, L_MACRO, L_CONSOLE, L_BUFFER, L_NOPS };
static const char *const lopn[] = { "message", "long-message", "formatted", "parse-level", "configure", "macro", "console", "buffer" };
static const char *const lcfn[SIM_NCFG] = { "sinkfail" };
static bfdev_log_t lg;
static int sinks, sinkret, wantlevel, lcookie;
static char lastmsg[4096];
static size_t lastlen;

static void gen4(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    static const int w[] = { 8, 3, 4, 2, 3, 2, 2, 1 };
    int n = (int)sim_range(r, 3, tier ? 120 : 40);
    tr->ncfg = 1;
    tr->cfg[0] = faults ? sim_range(r, 1, 100) : 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, L_NOPS));
        o->a[0] = (int64_t)(sim_u64(r) >> 1);
        o->a[1] = sim_range(r, 0, 9);
        o->a[2] = sim_range(r, 0, 9);
        o->a[3] = sim_range(r, 0, 3);
        o->a[4] = sim_chance(r, 1, 3) ? sim_range(r, 480, 530) : sim_range(r, 0, 1500);
    }
}
static int on_write(bfdev_log_message_t *m, void *pdata)
{
    SIM_CHECK(pdata == &lcookie, "log:pdata", "the sink got another pointer");
    sim_nest();
    SIM_CHECK((int)m->level == wantlevel, "log:level", "the sink got level %u, expected %d", m->level, wantlevel);
    SIM_CHECK(m->length < BFDEV_LOG_BUFF_SIZE, "log:length", "the sink got %zu bytes", m->length);
    SIM_CHECK(strlen(m->buff) == m->length, "log:length", "the sink got a length of %zu for a text of %zu", m->length, strlen(m->buff));
    memcpy(lastmsg, m->buff, m->length + 1);
    lastlen = m->length;
    sinks++;
    sim_logbuf(m->buff, m->length);
    if (sinkret) sim_fault("sink_failed");
    return sinkret;
}
static const char *const lname[] = { "emerg", "alert", "crit", "error", "warning", "notice", "info", "debug", "default" };
static const int lcolor[] = { 91, 31, 35, 33, 34, 96, 92, 90, 39 };
static int vlog_(bfdev_log_t *l, const char *f, ...) { va_list ap; va_start(ap, f); int rc = bfdev_vlog_core(l, f, ap); va_end(ap); return rc; }
static int via_macro(int which, int v)
{
    switch (which) {
    case 0: return bfdev_log_emerg("m%d", v);
    case 1: return bfdev_log_alert("m%d", v);
    case 2: return bfdev_log_crit("m%d", v);
    case 3: return bfdev_log_err("m%d", v);
    case 4: return bfdev_log_warn("m%d", v);
    case 5: return bfdev_log_notice("m%d", v);
    case 6: return bfdev_log_info("m%d", v);
    case 7: return bfdev_log_debug("m%d", v);
    case 8: return bfdev_log("m%d", v);
    default: return bfdev_log_none("m%d", v);
    }
}
/* without a sink of its own a log writes to the process's streams: here simulated ones */
static struct console { struct { int stream; char c; } got[8192]; int n, fail, failed; } con;
static ssize_t con_write(void *cookie, const char *buf, size_t n)
{
    int st = cookie != NULL;
    if (con.fail && --con.fail == 0) { con.failed++; return 0; }
    for (size_t i = 0; i < n && con.n < (int)(sizeof(con.got) / sizeof(*con.got)); ++i) { con.got[con.n].stream = st; con.got[con.n++].c = buf[i]; }
    return (ssize_t)n;
}
static void console(const sim_op *o, uint64_t x, bool faults)
{
    static const cookie_io_functions_t io = { .write = con_write };
    static char want[8192]; static int wst[8192];
    FILE *so = stdout, *se = stderr, *no, *ne;
    int nrec = 1 + (int)(x % 5), w = 0, lost = 0, flushed = 1;
    memset(&con, 0, sizeof(con));
    fflush(so); fflush(se);
    no = fopencookie(NULL, "w", io); ne = fopencookie(&con, "w", io);
    if (!no || !ne) return;
    setvbuf(no, NULL, x & 32 ? _IOLBF : _IOFBF, x & 64 ? 32 : 4096);
    setvbuf(ne, NULL, _IONBF, 0);
    stdout = no; stderr = ne;
    lg.write = NULL;
    for (int i = 0; i < nrec; ++i) {
        char body[700];
        int lv = (int)((x >> (8 + 4 * i)) & 7), len = (int)((uint64_t)o->a[4] / (unsigned)(i + 1)) % 490;
        int st = lv <= 4, before = con.failed;
        for (int k = 0; k < len; ++k) body[k] = (char)('A' + (lv * 3 + k + i) % 26);
        body[len] = 0;
        if (x >> 40 & 1) { fputs("app;", stdout); memcpy(want + w, "app;", 4); for (int k = 0; k < 4; ++k) wst[w + k] = 0; w += 4; }
        if (faults && (x >> (44 + i) & 3) == 3) con.fail = 1;
        lg.record_level = 9; lg.flags = 0;
        char f[] = { BFDEV_SOH_ASCII, (char)('0' + lv), '%', 's', 0 };
        bfdev_log_core(&lg, f, body);
        con.fail = 0;

        if (con.failed != before) { lost++; continue; }
        memcpy(want + w, body, (size_t)len);
        for (int k = 0; k < len; ++k) wst[w + k] = st;
        w += len;
        /* a warning is not overtaken by what was said before it */
        if (st && !lost) { if (con.n != w) flushed = 0; }
    }
    fclose(no); fclose(ne);
    stdout = so; stderr = se;
    if (lost) sim_fault("console_write_failed");
    lg.write = on_write;
    SIM_CHECK(flushed, "log:console", "a warning is on the console before the output that came first");
    if (lost) { sim_probe("console_lost"); return; }     /* what is lost is the stream's business */
    /* each stream carries exactly its records, in order */
    for (int st = 0; st < 2; ++st) {
        int a = 0, b = 0;
        for (;;) {
            while (a < w && wst[a] != st) a++;
            while (b < con.n && con.got[b].stream != st) b++;
            if (a == w || b == con.n) break;
            SIM_CHECK(want[a] == con.got[b].c, "log:console", "byte %d on %s is not the expected one", b, st ? "stderr" : "stdout");
            a++; b++;
        }
        SIM_CHECK(a == w && b == con.n, "log:console", "%s carries too %s", st ? "stderr" : "stdout", a == w ? "much" : "little");
    }
    sim_probe("console_delivered");
}
static int vscn_(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int rc = bfdev_vscnprintf(b, n, f, ap); va_end(ap); return rc; }
/* the bounded formatting itself: what it says it wrote is what is there, whatever fits */
static void buffer(uint64_t x)
{
    size_t len = x % 7 == 0 ? 65000 + x / 8 % 3000 : x % 7 < 3 ? x / 8 % 1200 : x / 8 % 90, size;
    size_t near = x >> 20 & 3;
    char *text = malloc(len + 1), *b;
    for (size_t k = 0; k < len; ++k) text[k] = (char)('A' + (k * 7 + x) % 57);
    text[len] = 0;
    char tail[64];
    int num = (int)(x >> 30), tl = sprintf(tail, ".%d", num);
    size_t all = len + (size_t)tl;
    size = near == 0 ? all + (x >> 22) % 4 : near == 1 ? (x >> 22) % (all + 1) : near == 2 ? all + (x >> 22) % 70000 : (x >> 22) % 3;
    b = malloc(size + !size);                   /* exact size: a byte too many is caught */
    memset(b, 0x5a, size + !size);
    bool bad = x >> 28 & 1 && len < 2000;
    const char *f = bad ? "%s%lc.%d" : "%s.%d";
    int rc = x >> 29 & 1 ? bad ? bfdev_scnprintf(b, size, f, text, 0x4e2d, num) : bfdev_scnprintf(b, size, f, text, num)
        : bad ? vscn_(b, size, f, text, 0x4e2d, num) : vscn_(b, size, f, text, num);
    size_t want = !size ? 0 : all < size ? all : size - 1;
    if (!size) SIM_CHECK(!rc && *b == 0x5a, "log:buffer", "%d bytes written where there is no room", rc);
    else {
        SIM_CHECK(rc >= 0 && (size_t)rc < size && memchr(b, 0, size) == b + rc, "log:buffer", "%d bytes are said to be written, the text has %zu, the room is %zu", rc, strnlen(b, size), size);
        /* what cannot be formatted may be left out or be cut, never made up */
        if (bad) { SIM_CHECK(!memcmp(b, text, (size_t)rc < len ? (size_t)rc : len), "log:buffer", "garbled text"); sim_fault("text_cannot_be_encoded"); }
        else SIM_CHECK((size_t)rc == want && !memcmp(b, text, want < len ? want : len) && (want <= len || !memcmp(b + len, tail, want - len)), "log:buffer", "%d of %zu bytes written into room for %zu, or others", rc, all, size);
        if (rc > 65535) sim_probe("formatted_over_65535_bytes");
    }
    free(b); free(text);
}

static void exec4(const sim_trace *tr)
{
    bfdev_log_t saved = bfdev_log_default;
    lastlen = 0; sinks = 0;
    bfdev_log_init(&lg, 4, 4, 0, on_write, &lcookie);
    bfdev_log_default.write = on_write; bfdev_log_default.pdata = &lcookie;
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        uint64_t x = (uint64_t)o->a[0];
        static char fmt[4096], body[4096], want[8192];
        size_t n = 0;
        int level = BFDEV_LEVEL_DEFAULT, rc;
        if (o->kind == L_CONF) {
            lg.default_level = (unsigned)((uint64_t)o->a[1] % 9); lg.record_level = x % 50 == 0 ? 1000000u : x % 50 == 1 ? UINT_MAX : x % 50 == 2 ? 256u : x % 50 == 3 ? 65536u : (unsigned)((uint64_t)o->a[2] % 10); lg.flags = (unsigned long)(o->a[3] & 3);
            continue;
        }
        if (o->kind == L_CONSOLE) { bfdev_log_t k = lg; console(o, x, tr->cfg[0] != 0); lg = k; continue; }
        if (o->kind == L_BUFFER) { buffer(x); continue; }
        if (o->kind == L_MACRO) {
            int which = (int)(x % 10), lv = which < 8 ? which : (int)bfdev_log_default.default_level;
            char text[32];
            bool rec = which < 9 && (unsigned)lv <= bfdev_log_default.record_level;
            bfdev_log_default.flags = 0;
            wantlevel = lv; sinks = 0; sinkret = tr->cfg[0] && x & 128 ? -5 : 0;
            sprintf(text, "m%d", (int)o->a[4]);
            rc = via_macro(which, (int)o->a[4]);
            bfdev_log_default.flags = saved.flags;
            SIM_CHECK(sinks == rec && rc == (rec ? sinkret : 0), "log:macro", "the level-%d macro reached the sink %d times and returned %d", which, sinks, rc);
            if (rec) SIM_CHECK(!strcmp(lastmsg, text), "log:macro", "the level-%d macro wrote \"%s\"", which, lastmsg);
            continue;
        }
        /* headers: any number, the last digit wins */
        for (int k = (int)(x % 4); k > 0; --k) {
            char c = "0123456789cdx"[x / 4 % 13];
            x = sim_mix(x, 3);
            fmt[n++] = BFDEV_SOH_ASCII; fmt[n++] = c;
            if (c >= '0' && c <= '9') level = c - '0';
        }
        if (o->kind == L_PARSE) {
            const char *end = o->a[3] & 1 ? NULL : "somewhere";
            if (x & 8) fmt[n++] = BFDEV_SOH_ASCII, fmt[n] = 0; else strcpy(fmt + n, x & 4 ? "text" : "");
            unsigned got = bfdev_log_level(fmt, &end);
            size_t skip = n - (x & 8 ? 1 : 0);
            SIM_CHECK((int)got == level, "log:parse", "level is %u, expected %d", got, level);
            SIM_CHECK(end == fmt + skip, "log:parse", "the text does not start behind the headers");
            SIM_CHECK(bfdev_log_level(fmt, NULL) == got, "log:parse", "the level depends on the end pointer");
            continue;
        }
        size_t len = (size_t)o->a[4] % 1500;
        if (o->kind == L_MSG) len %= 60;
        for (size_t k = 0; k < len; ++k) body[k] = (char)('a' + (x + k * 7) % 26);
        body[len] = 0;
        bool dflt = o->a[3] == 3 && o->kind == L_ARGS;
        bfdev_log_t *l = dflt ? NULL : &lg, *eff = dflt ? &bfdev_log_default : &lg;
        int eflevel = level >= BFDEV_LEVEL_DEFAULT ? (int)eff->default_level : level;
        size_t w = 0;
        wantlevel = eflevel;
        if (eff->flags & BFDEV_LOG_LEVEL) w += (size_t)sprintf(want + w, "[%s] ", lname[eflevel]);
        if (eff->flags & BFDEV_LOG_COLOR) w += (size_t)sprintf(want + w, "\033[%dm", lcolor[eflevel]);
        sinks = 0;
        sinkret = tr->cfg[0] && x % 100 < (uint64_t)tr->cfg[0] ? (x & 64 ? -5 : 17) : 0;
        if (o->kind == L_ARGS && x % 9 == 0) {
            /* text the process's encoding cannot express: the record still is a record */
            size_t pre = w, suf = eff->flags & BFDEV_LOG_COLOR ? 4 : 0;
            strcpy(fmt + n, "%.20s%lc!");
            rc = bfdev_log_core(l, fmt, body, 0x4e2d);
            bool rec = (unsigned)eflevel <= eff->record_level;
            SIM_CHECK(sinks == rec && rc == (rec ? sinkret : 0), "log:unencodable", "a record that cannot be encoded reached the sink %d times and returned %d", sinks, rc);
            if (rec) {
                size_t mid = lastlen - pre - suf;
                SIM_CHECK(lastlen >= pre + suf && !memcmp(lastmsg, want, pre) && !memcmp(lastmsg + lastlen - suf, "\033[0m", suf)
                    && !memcmp(lastmsg + pre, body, mid < 20 && mid < len ? mid : len < 20 ? len : 20), "log:unencodable", "a record that cannot be encoded was garbled");
            }
            sim_fault("text_cannot_be_encoded");
            continue;
        }
        if (o->kind == L_ARGS) {
            strcpy(fmt + n, "%s:%d.%lx%%%c");
            w += (size_t)sprintf(want + w, "%s:%d.%lx%%%c", body, (int)o->a[1] - 5, (unsigned long)x, 'z');
            rc = x & 32 ? bfdev_log_core(l, fmt, body, (int)o->a[1] - 5, (unsigned long)x, 'z') : vlog_(l, fmt, body, (int)o->a[1] - 5, (unsigned long)x, 'z');
        } else {
            memcpy(fmt + n, body, len + 1);
            w += (size_t)sprintf(want + w, "%s", body);
            rc = bfdev_log_core(l, fmt);
        }
        if (eff->flags & BFDEV_LOG_COLOR) w += (size_t)sprintf(want + w, "\033[0m");
        bool rec = (unsigned)eflevel <= eff->record_level;
        SIM_CHECK(sinks == rec, "log:filter", "a level-%d message reached the sink %d times with record level %u", eflevel, sinks, eff->record_level);
        SIM_CHECK(rc == (rec ? sinkret : 0), "log:ret", "logging returned %d, the sink %d", rc, sinkret);
        if (rec && w < BFDEV_LOG_BUFF_SIZE) SIM_CHECK(lastlen == w && !memcmp(lastmsg, want, w), "log:text", "the sink got %zu bytes \"%.60s\", expected %zu bytes \"%.60s\"", lastlen, lastmsg, w, want);
        if (rec && w >= BFDEV_LOG_BUFF_SIZE) {
            /* too long: cut, but never garbled */
            size_t cut = lastlen;
            if ((eff->flags & BFDEV_LOG_COLOR) && cut > 4 && !memcmp(lastmsg + cut - 4, "\033[0m", 4)) cut -= 4;
            else while (cut && (eff->flags & BFDEV_LOG_COLOR) && lastlen - cut < 4 && lastmsg[cut - 1] != want[cut - 1]) cut--;
            SIM_CHECK(!memcmp(lastmsg, want, cut) && lastlen >= BFDEV_LOG_BUFF_SIZE - 1 - 4, "log:truncate", "a long message was garbled");
            sim_probe("log_truncated");
        }
        sim_state(sim_mix((uint64_t)(lastlen / 8), (uint64_t)eflevel * 4 + eff->flags));
    }
    bfdev_log_default = saved;
}
/* another log, from inside the sink */
static char nest_text[200];
static int nest_write(bfdev_log_message_t *m, void *pdata) { *(unsigned *)pdata = m->level; snprintf(nest_text, sizeof(nest_text), "%s", m->buff); return (int)m->length; }
static void l_nest(void)
{
    bfdev_log_t other;
    unsigned level = 99;
    char small[8];
    bfdev_log_init(&other, 4, 5, 0, nest_write, &level);
    int rc = bfdev_log_core(&other, BFDEV_SOH "2" "nested %d %s", 12345, "record");
    SIM_CHECK(level == 2 && rc == 19 && !strcmp(nest_text, "nested 12345 record"), "log:nested", "a record from inside a sink comes as %u '%s' (%d)", level, nest_text, rc);
    level = 99;
    bfdev_log_core(&other, BFDEV_SOH "7" "nothing");
    SIM_CHECK(level == 99, "log:nested", "a record from inside a sink that is filtered comes");
    rc = bfdev_scnprintf(small, sizeof(small), "%s", "too long for it");
    SIM_CHECK(rc == 7 && !strcmp(small, "too lon"), "log:nested", "formatting from inside a sink gives %d", rc);
}
const sim_workload w_log = { "E04", "log", lcfn, lopn, gen4, exec4, 1, l_nest };
