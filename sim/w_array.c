/* C01: dynamic array against a plain vector, under allocation faults. */
#include "sim.h"
#include <bfdev/array.h>
#include <bfdev/errno.h>

enum { PUSH, POP, PEEK, RESIZE, RESERVE, RESET, RELEASE, WRITE, HUGE_REQ, FILL, NOPS_ };
static const char *const opn[] = { "push", "pop", "peek", "resize", "reserve", "reset", "release", "write", "huge", "fill-reserved" };
static const char *const cfn[SIM_NCFG] = { "cells", "garbage", "budget" };

static const int cellsizes[] = { 1, 2, 3, 4, 7, 8, 12, 16, 24, 40, 64, 100, 255, 256, 1000, 4096 };

static void gen(sim_rng *r, sim_trace *tr, int faults, int tier)
{
    int w[NOPS_], n = (int)sim_range(r, 4, tier ? 160 : 80);
    int big = sim_chance(r, 1, 3) ? sim_chance(r, 1, 20) ? 6000 : 300 : 24;
    static const int base[NOPS_] = { 30, 18, 8, 10, 10, 2, 2, 10, 6, 6 };
    for (int i = 0; i < NOPS_; ++i) w[i] = base[i] * (int)sim_range(r, 0, 3) + (i == PUSH);
    tr->ncfg = 3;
    tr->cfg[0] = cellsizes[sim_below(r, sizeof(cellsizes) / sizeof(*cellsizes))];
    tr->cfg[1] = (int64_t)sim_u64(r);
    tr->cfg[2] = faults && sim_chance(r, 1, 4) ? tr->cfg[0] * sim_range(r, 33, 400) : 0;
    /* now and then more elements, and more bytes, than 16 bits count */
    if (sim_chance(r, 1, 400)) {
        big = 70000; n = (int)sim_range(r, 4, 24);
        tr->cfg[0] = cellsizes[sim_below(r, 6)];
        tr->cfg[2] = faults && sim_chance(r, 1, 4) ? tr->cfg[0] * sim_range(r, 60000, 200000) : 0;
    }
    /* and elements larger than 16 bits count */
    else if (sim_chance(r, 1, 1000)) {
        static const int huge[] = { 65535, 65536, 65537, 65544, 70000, 131073 };
        big = 20; n = (int)sim_range(r, 4, 30);
        tr->cfg[0] = huge[sim_below(r, 6)];
        tr->cfg[2] = faults && sim_chance(r, 1, 4) ? tr->cfg[0] * sim_range(r, 4, 100) : 0;
    }
    for (int i = 0; i < n; ++i) {
        sim_op *o = sim_add(tr, (uint32_t)sim_pickw(r, w, NOPS_));
        o->a[0] = sim_range(r, 0, sim_chance(r, 1, big > 60000 ? 2 : 6) ? big : 9);
        o->a[1] = (int64_t)sim_u64(r);
        o->a[2] = (int64_t)sim_below(r, 64);
        if (faults) sim_arm(r, o, 1, 3, 1);
    }
}

static size_t cells;
static unsigned char *model;   /* len * cells bytes */
static unsigned long len, maxlen;

static void check(bfdev_array_t *a)
{
    SIM_CHECK(bfdev_array_index(a) == len, "array:length", "length %lu, expected %lu", bfdev_array_index(a), len);
    SIM_CHECK(bfdev_array_size(a) == len * cells, "array:size", "size in bytes is wrong");
    SIM_CHECK(bfdev_array_data(a, len) == NULL, "array:bounds", "data past the end is not NULL");
    if (!len) { SIM_CHECK(bfdev_array_data(a, 0) == NULL, "array:bounds", "data of empty array"); return; }
    unsigned char *d = bfdev_array_data(a, 0);
    SIM_CHECK(d != NULL, "array:data", "no data for a stored element");
    for (unsigned long i = 0; i < len; ++i) {
        SIM_CHECK((unsigned char *)bfdev_array_data(a, i) == d + i * cells, "array:layout", "elements not contiguous");
        SIM_CHECK(!memcmp(d + i * cells, model + i * cells, cells), "array:content", "element %lu of %lu changed", i, len);
    }
}

static void put(unsigned char *dst, unsigned long from, unsigned long n, uint64_t v)
{
    for (size_t i = 0; i < n * cells; ++i)
        dst[i] = model[from * cells + i] = (unsigned char)(sim_mix(v, i) >> 11);
}

static void exec(const sim_trace *tr)
{
    sim_heap *h = sim_heap_new(100, tr->cfg[2], (uint64_t)tr->cfg[1]);
    bfdev_array_t a;
    unsigned long reserved = 0;   /* length up to which pushes need no memory */
    cells = (size_t)tr->cfg[0];
    if (cells < 1 || cells > 140000) return;
    maxlen = cells <= 8 ? 300000 : cells <= 4096 ? 20000 : 100;
    model = sim_tmp(maxlen * cells);
    len = 0;
    bfdev_array_init(&a, sim_heap_alloc(h), cells);
    for (int i = 0; i < tr->nops; ++i) {
        const sim_op *o = &tr->ops[i];
        unsigned long n = (unsigned long)o->a[0];
        unsigned char *p;
        int rc;
        sim_heap_op(h, o);
        switch (o->kind) {
        case PUSH:
            if (len + n > maxlen) break;
            p = bfdev_array_push(&a, n);
            sim_log(p != NULL);
            if (n && len + n <= reserved)
                SIM_CHECK(p && sim_heap_requests(h) == 0, "array:reserve", "push within the reserved room asked for memory");
            if (n && !p) {
                SIM_CHECK(sim_heap_failed(h), "array:spurious-failure", "push(%lu) failed with memory available", n);
                sim_probe("push_failed_oom");
            } else if (p) {
                SIM_CHECK(p == (unsigned char *)a.data + len * cells, "array:push", "push returned a wrong position");
                put(p, len, n, (uint64_t)o->a[1]);
                len += n;
            }
            break;
        case POP:
            p = bfdev_array_pop(&a, n);
            if (n > len) SIM_CHECK(!p, "array:pop-underflow", "pop(%lu) of %lu elements succeeded", n, len);
            else if (n) {
                SIM_CHECK(p && !memcmp(p, model + (len - n) * cells, n * cells), "array:pop", "pop returned wrong elements");
                len -= n;
                sim_logbuf(p, n * cells);
            }
            break;
        case PEEK:
            p = bfdev_array_peek(&a, n);
            if (n > len) SIM_CHECK(!p, "array:peek-underflow", "peek(%lu) of %lu elements succeeded", n, len);
            else if (n) SIM_CHECK(p && !memcmp(p, model + (len - n) * cells, n * cells), "array:peek", "peek returned wrong elements");
            break;
        case RESIZE:
            n *= (unsigned long)(1 + (o->a[2] & 3));
            if (n > maxlen) break;
            rc = bfdev_array_resize(&a, n);
            sim_log((uint64_t)rc);
            if (rc) {
                SIM_CHECK(sim_heap_failed(h), "array:spurious-failure", "resize(%lu) failed (%d) with memory available", n, rc);
                sim_probe("resize_failed_oom");
            } else {
                if (n > len) {
                    SIM_CHECK(bfdev_array_index(&a) == n, "array:resize", "resize(%lu) left %lu", n, bfdev_array_index(&a));
                    put((unsigned char *)a.data + len * cells, len, n - len, (uint64_t)o->a[1]);
                }
                len = n;
            }
            break;
        case RESERVE:
            if (len + n > maxlen) break;
            rc = bfdev_array_reserve(&a, n);
            sim_log((uint64_t)rc);
            if (rc) {
                SIM_CHECK(sim_heap_failed(h), "array:spurious-failure", "reserve(%lu) failed (%d) with memory available", n, rc);
                sim_probe("reserve_failed_oom");
            } else if (len + n > reserved)
                reserved = len + n;
            break;
        case FILL:
            /* everything reserved must be pushable while every allocation fails */
            if (reserved > len) {
                n = reserved - len;
                sim_heap_arm(h, 0, 1000000);
                p = bfdev_array_push(&a, n);
                SIM_CHECK(p && !sim_heap_requests(h), "array:reserve", "reserved room was not usable without memory");
                put(p, len, n, (uint64_t)o->a[1]);
                len += n;
                sim_probe("filled_reserved_room_under_oom");
            }
            break;
        case RESET:
            bfdev_array_reset(&a);
            len = 0;
            break;
        case RELEASE:
            bfdev_array_release(&a);
            len = 0; reserved = 0;
            sim_heap_expect_empty(h, "array release");
            break;
        case WRITE:
            if (!len) break;
            n = (unsigned long)o->a[1] % len;
            p = bfdev_array_data(&a, n);
            SIM_CHECK(p, "array:data", "no data for stored element %lu", n);
            put(p, n, 1, (uint64_t)o->a[1]);
            break;
        case HUGE_REQ: {
            /* a request no memory can satisfy must fail and change nothing */
            unsigned long big[] = { ~0ul, ~0ul - len, ~0ul / cells, ~0ul / cells + 1, 1ul << 63, (1ul << 63) / cells,
                (1ul << 63) / cells + 1, 1ul << 61, 1ul << 60, (1ul << 62) + 3, ~0ul - 1, 1ul << 48, ~0ul / cells - len };
            n = big[(uint64_t)o->a[1] % (sizeof(big) / sizeof(*big))];
            if (n > ~0ul / 2 / cells || n > (1ul << 40)) {
                bool ok;
                if (o->a[2] % 3 == 0) ok = bfdev_array_push(&a, n) != NULL;
                else if (o->a[2] % 3 == 1) ok = bfdev_array_resize(&a, n) == 0;
                else ok = bfdev_array_reserve(&a, n) == 0;
                SIM_CHECK(!ok, "array:impossible", "a request for %lu elements of %zu bytes was granted", n, cells);
                sim_fault("unsatisfiable_size");
            }
            break;
        }
        }
        check(&a);
        if (len > 65536) sim_probe("more_than_65536_elements");
        sim_state(sim_mix(sim_mix(len, a.capacity), o->kind * 2 + (sim_heap_failed(h) > 0)));
    }
    /* faults over: the array is usable again, and gives everything back */
    sim_heap_calm(h);
    unsigned char *p = bfdev_array_push(&a, 3);
    SIM_CHECK(p, "array:recovery", "push fails after the faults stopped");
    put(p, len, 3, 77);
    len += 3;
    check(&a);
    bfdev_array_release(&a);
    sim_heap_expect_empty(h, "array release");
}

const sim_workload w_array = { "C01", "array", cfn, opn, gen, exec, 1 };
