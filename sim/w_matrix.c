/* M02: matrices against plain arrays modulo 2^64, with shared operands and
 * destinations, mismatching shapes and allocation faults. */
#include "sim.h"
#include <bfdev/matrix.h>
#include <bfdev/errno.h>

enum { IMPORT, ADD, SUB, MUL, TRANS, SET, DATA, RELEASE, HUGE_MUL, LONG_, NOPS_ };
static const char *const opn[] = { "import", "add", "sub", "mul", "trans", "set", "data", "release", "huge-mul", "long" };
static const char *const cfn[SIM_NCFG] = { "vars", "garbage", "budget", "dim", "square" };

#define NV 5
#define DIM 24
#define LEN 320                 /* long and thin; DIM * DIM elements at most */
typedef struct mat { unsigned row, col; uint64_t v[DIM * DIM]; } mat;
static mat *mv;
static bfdev_matrix_t rv[NV];
static int nv;

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 4, tier ? 100 : 50);
    static const int base[NOPS_] = { 14, 8, 8, 16, 12, 6, 4, 3, 0, 0 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == IMPORT) * 4;
    if (sim_chance(r, 1, 60)) w[HUGE_MUL] = 2;
    if (sim_chance(r, 1, 150)) w[LONG_] = 2;
    tr->ncfg = 5;
    tr->cfg[0] = sim_range(r, 1, NV);
    tr->cfg[1] = (int64_t)sim_u64(r);
    tr->cfg[2] = faults && sim_chance(r, 1, 4) ? sim_range(r, 256, 4000) : 0;
    tr->cfg[3] = sim_chance(r, 1, 8) ? DIM : sim_range(r, 1, 6);
    tr->cfg[4] = sim_chance(r, 1, 3);
    int64_t thin = sim_chance(r, 1, 12) ? sim_range(r, 100, LEN) : 0;
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, i < tr->cfg[0] ? IMPORT : (uint32_t)sim_pickw(r, w, NOPS_));
        for (int k = 0; k < 3; ++k) o->a[k] = (int64_t)sim_below(r, (uint64_t)tr->cfg[0]);
        if (i < tr->cfg[0]) o->a[0] = i;
        if (o->kind == IMPORT) {
            o->a[1] = sim_range(r, 1, tr->cfg[3]);
            o->a[2] = tr->cfg[4] || sim_chance(r, 1, 3) ? o->a[1] : sim_range(r, 1, tr->cfg[3]);
            if (thin) {     /* a row, a column, or small enough to meet one */
                int t = (int)sim_below(r, 4);
                o->a[1] = t == 1 ? thin : sim_range(r, 1, 2);
                o->a[2] = t == 0 ? thin : sim_range(r, 1, 2);
            }
        }
        o->a[4] = (int64_t)sim_u64(r);
        if (faults) sim_arm(r, o, 1, 3, 2);
    }
}

static void check(void)
{
    for (int i = 0; i < nv; ++i) {
        mat *m = &mv[i];
        SIM_CHECK(rv[i].row == m->row && rv[i].col == m->col, "matrix:shape", "matrix %d is %ux%u, expected %ux%u", i, rv[i].row, rv[i].col, m->row, m->col);
        for (unsigned y = 0; y < m->row; ++y)
            for (unsigned x = 0; x < m->col; ++x) {
                const BFDEV_MATRIX_TYPE *p = bfdev_matrix_data(&rv[i], y, x);
                SIM_CHECK(p, "matrix:data", "no data for element %u,%u of a %ux%u matrix", y, x, m->row, m->col);
                SIM_CHECK(*p == m->v[y * m->col + x], "matrix:value", "matrix %d element %u,%u of %ux%u is %#lx, expected %#llx", i, y, x, m->row, m->col, *p,
                          (unsigned long long)m->v[y * m->col + x]);
            }
        SIM_CHECK(!bfdev_matrix_data(&rv[i], m->row, 0) && !bfdev_matrix_data(&rv[i], 0, m->col) && !bfdev_matrix_data(&rv[i], m->row, m->col),
                  "matrix:bounds", "an element outside the %ux%u matrix has data", m->row, m->col);
    }
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, tr->cfg[2], (uint64_t)tr->cfg[1]);
    mat *res = sim_tmp(sizeof(*res));
    nv = (int)tr->cfg[0];
    if (nv < 1 || nv > NV) return;
    mv = sim_tmp(sizeof(*mv) * NV);
    for (int i = 0; i < nv; ++i) { mv[i].row = mv[i].col = 0; bfdev_matrix_init(&rv[i], sim_heap_alloc(h)); }
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        int x[3], rc = 0;
        bool refuse = false, nochange = false;
        for (int k = 0; k < 3; ++k) x[k] = (int)((uint64_t)o->a[k] % (uint64_t)nv);
        bfdev_matrix_t *d = &rv[x[0]], *a = &rv[x[1]], *b = &rv[x[2]];
        mat *A = &mv[x[1]], *B = &mv[x[2]];
        res->row = res->col = 0;
        sim_heap_op(h, o);
        switch (o->kind) {
        case IMPORT: {
            uint64_t *buf = sim_tmp(sizeof(*buf) * DIM * DIM);
            res->row = 1 + (unsigned)((uint64_t)(o->a[1] - 1) % LEN);
            res->col = 1 + (unsigned)((uint64_t)(o->a[2] - 1) % LEN);
            if (res->row * res->col > DIM * DIM) res->col = DIM * DIM / res->row;
            if (res->row > 255 || res->col > 255) sim_probe("more_than_255_rows_or_columns");
            for (unsigned k = 0; k < res->row * res->col; ++k)
                buf[k] = res->v[k] = o->a[4] & 1 ? sim_mix((uint64_t)o->a[4], k) : sim_mix((uint64_t)o->a[4], k) % 7 - 3;
            rc = bfdev_matrix_import(d, (BFDEV_MATRIX_TYPE *)buf, res->row, res->col);
            break;
        }
        case ADD: case SUB:
            if (A->row != B->row || A->col != B->col) refuse = true;
            else {
                res->row = A->row; res->col = A->col;
                for (unsigned k = 0; k < A->row * A->col; ++k)
                    res->v[k] = o->kind == ADD ? A->v[k] + B->v[k] : A->v[k] - B->v[k];
            }
            rc = o->kind == ADD ? bfdev_matrix_add(d, a, b) : bfdev_matrix_sub(d, a, b);
            break;
        case MUL:
            if (!A->row || !B->row || A->row * B->col > DIM * DIM) continue;
            if (A->col != B->row) refuse = true;
            else {
                res->row = A->row; res->col = B->col;
                for (unsigned y = 0; y < A->row; ++y)
                    for (unsigned z = 0; z < B->col; ++z) {
                        uint64_t s = 0;
                        for (unsigned k = 0; k < A->col; ++k) s += A->v[y * A->col + k] * B->v[k * B->col + z];
                        res->v[y * B->col + z] = s;
                    }
                static const char *const alias[] = { "mul_alias_none", "mul_alias_a", "mul_alias_b", "mul_alias_ab" };
                sim_probe(alias[(x[0] == x[1]) + 2 * (x[0] == x[2])]);
            }
            rc = bfdev_matrix_mul(d, a, b);
            break;
        case TRANS:
            if (!A->row) continue;
            res->row = A->col; res->col = A->row;
            for (unsigned y = 0; y < A->row; ++y)
                for (unsigned z = 0; z < A->col; ++z) res->v[z * A->row + y] = A->v[y * A->col + z];
            if (x[0] == x[1]) sim_probe("transposed_in_place");
            rc = bfdev_matrix_trans(d, a);
            break;
        case SET: *res = *A; rc = bfdev_matrix_set(d, a); break;
        case DATA:
            SIM_CHECK(!bfdev_matrix_data(d, mv[x[0]].row + (unsigned)(o->a[4] & 3), (unsigned)(o->a[4] >> 3 & 31)), "matrix:bounds", "a row outside the matrix has data");
            SIM_CHECK(!bfdev_matrix_data(d, (unsigned)(o->a[4] >> 3 & 31), mv[x[0]].col + (unsigned)(o->a[4] & 3)), "matrix:bounds", "a column outside the matrix has data");
            nochange = true;
            break;
        case RELEASE:
            bfdev_matrix_release(d);
            mv[x[0]].row = mv[x[0]].col = 0;
            nochange = true;
            break;
        case HUGE_MUL: {
            /* a product no memory can hold must be refused, not truncated */
            static BFDEV_MATRIX_TYPE zeros[1 << 16];
            BFDEV_DEFINE_MATRIX(u, sim_heap_alloc(h));
            BFDEV_DEFINE_MATRIX(v, sim_heap_alloc(h));
            BFDEV_DEFINE_MATRIX(t, sim_heap_alloc(h));
            sim_heap_calm(h);
            if (!bfdev_matrix_import(&u, zeros, 1 << 16, 1) && !bfdev_matrix_import(&v, zeros, 1, 1 << 16)) {
                sim_heap_budget(h, (int64_t)sim_heap_bytes(h) + (1 << 20));
                SIM_CHECK(bfdev_matrix_mul(&t, &u, &v), "matrix:impossible", "a product of 2^32 elements was granted");
                SIM_CHECK(!t.row && !t.col, "matrix:shape", "a refused product has a shape");
                sim_fault("unsatisfiable_size");
                sim_heap_calm(h);
            }
            bfdev_matrix_release(&u); bfdev_matrix_release(&v); bfdev_matrix_release(&t);
            nochange = true;
            break;
        }
        case LONG_: {
            /* more rows or columns than 16 bits count */
            uint64_t s = (uint64_t)o->a[4], w = 1 + (s & 1), l = (s & 2 ? 65536 : 1000) + (s >> 8) % 1000, c = s & 4 ? l : w, rr = s & 4 ? w : l;
            BFDEV_MATRIX_TYPE *v = sim_tmp(sizeof(*v) * l * w), f[2] = { 3, (BFDEV_MATRIX_TYPE)(s >> 20) };
            const BFDEV_MATRIX_TYPE *p;
            BFDEV_DEFINE_MATRIX(u, sim_heap_alloc(h));
            BFDEV_DEFINE_MATRIX(t, sim_heap_alloc(h));
            BFDEV_DEFINE_MATRIX(k, sim_heap_alloc(h));
            sim_heap_calm(h);
            for (uint64_t q = 0; q < l * w; ++q) v[q] = (BFDEV_MATRIX_TYPE)sim_mix(s, q);
            SIM_CHECK(!bfdev_matrix_import(&u, v, (unsigned)rr, (unsigned)c) && u.row == rr && u.col == c, "matrix:shape", "importing %llux%llu makes a %ux%u matrix", (unsigned long long)rr, (unsigned long long)c, u.row, u.col);
            switch (s >> 4 & 3) {
            case 0:
                SIM_CHECK(!bfdev_matrix_trans(&t, &u) && t.row == c && t.col == rr, "matrix:shape", "transposing a %llux%llu matrix makes a %ux%u one", (unsigned long long)rr, (unsigned long long)c, t.row, t.col);
                for (uint64_t y = 0; y < rr; ++y) for (uint64_t x = 0; x < c; ++x)
                    SIM_CHECK((p = bfdev_matrix_data(&t, (unsigned)x, (unsigned)y)) && *p == v[y * c + x], "matrix:value", "element %llu,%llu of a transposed %llux%llu matrix is wrong", (unsigned long long)x, (unsigned long long)y, (unsigned long long)rr, (unsigned long long)c);
                break;
            case 1: case 2: {
                int sub = s >> 4 & 2;
                SIM_CHECK(!(sub ? bfdev_matrix_sub(&t, &u, &u) : bfdev_matrix_add(&t, &u, &u)) && t.row == rr && t.col == c, "matrix:shape", "the sum of two %llux%llu matrices is %ux%u", (unsigned long long)rr, (unsigned long long)c, t.row, t.col);
                for (uint64_t y = 0; y < rr; ++y) for (uint64_t x = 0; x < c; ++x)
                    SIM_CHECK((p = bfdev_matrix_data(&t, (unsigned)y, (unsigned)x)) && *p == (sub ? 0 : v[y * c + x] * 2), "matrix:value", "element %llu,%llu of a sum is wrong", (unsigned long long)y, (unsigned long long)x);
                break;
            }
            default:        /* by a vector of w: from the side that fits */
                SIM_CHECK(!(c == w && rr != w ? bfdev_matrix_import(&k, f, (unsigned)w, 1) : bfdev_matrix_import(&k, f, 1, (unsigned)w)), "matrix:spurious-failure", "import failed with memory available");
                SIM_CHECK(!(c == w ? bfdev_matrix_mul(&t, &u, &k) : bfdev_matrix_mul(&t, &k, &u)), "matrix:spurious-failure", "mul failed with memory available");
                SIM_CHECK(t.row == (c == w ? rr : 1) && t.col == (c == w ? 1 : c), "matrix:shape", "the product with a vector is %ux%u", t.row, t.col);
                for (uint64_t q = 0; q < l; ++q) {
                    BFDEV_MATRIX_TYPE want = c == w ? v[q * w] * f[0] + (w > 1 ? v[q * w + 1] * f[1] : 0) : v[q] * f[0] + (w > 1 ? v[c + q] * f[1] : 0);
                    SIM_CHECK((p = c == w ? bfdev_matrix_data(&t, (unsigned)q, 0) : bfdev_matrix_data(&t, 0, (unsigned)q)) && *p == want, "matrix:value", "element %llu of a product with a vector is wrong", (unsigned long long)q);
                }
                /* and a long row by a long column is one number */
                if (w == 1) {
                    BFDEV_MATRIX_TYPE want = 0;
                    SIM_CHECK(!bfdev_matrix_trans(&k, &u) && !(rr == 1 ? bfdev_matrix_mul(&t, &u, &k) : bfdev_matrix_mul(&t, &k, &u)), "matrix:spurious-failure", "mul failed with memory available");
                    for (uint64_t q = 0; q < l; ++q) want += v[q] * v[q];
                    SIM_CHECK(t.row == 1 && t.col == 1 && *bfdev_matrix_data(&t, 0, 0) == want, "matrix:value", "a long row by a long column is wrong");
                }
                break;
            }
            if (l > 65536) sim_probe("more_than_65536_rows_or_columns");
            bfdev_matrix_release(&u); bfdev_matrix_release(&t); bfdev_matrix_release(&k);
            nochange = true;
            break;
        }
        default: continue;
        }
        sim_log((uint64_t)rc);
        if (refuse) {
            SIM_CHECK(rc, "matrix:mismatch", "%s of %ux%u and %ux%u was answered", opn[o->kind], A->row, A->col, B->row, B->col);
            sim_probe("shape_mismatch_refused");
        } else if (rc) {
            SIM_CHECK(sim_heap_failed(h), "matrix:spurious-failure", "%s failed (%d) with memory available", opn[o->kind], rc);
            sim_probe("failed_oom");
        } else if (!nochange) {
            mv[x[0]] = *res;
            sim_state(sim_mix(o->kind * 4 + (x[0] == x[1]) + 2 * (x[0] == x[2]), res->row * 64 + res->col));
        }
        check();
    }
    sim_heap_calm(h);
    for (int i = 0; i < nv; ++i) if (mv[i].row) {
        BFDEV_DEFINE_MATRIX(t, sim_heap_alloc(h));
        SIM_CHECK(!bfdev_matrix_trans(&t, &rv[i]) && !bfdev_matrix_trans(&t, &t), "matrix:recovery", "fails after the faults stopped");
        SIM_CHECK(t.row == mv[i].row && t.col == mv[i].col && !memcmp(bfdev_matrix_data(&t, 0, 0), mv[i].v, mv[i].row * mv[i].col * 8),
                  "matrix:identity", "transposing twice changes the matrix");
        bfdev_matrix_release(&t);
    }
    check();
    for (int i = 0; i < nv; ++i) bfdev_matrix_release(&rv[i]);
    sim_heap_expect_empty(h, "matrix release");
}

const sim_workload w_matrix = { "M02", "matrix", cfn, opn, gen, exec, 1 };
