"""What each check compiles, how much it explores, and what is real or stubbed.

flavour seq : library built by its own cmake rules with AddressSanitizer; single
              simulated caller, faults injected through the library's own seams.
flavour conc: library compiled with -fsanitize=thread instrumentation but linked
              against the simulator instead of libtsan, so that every memory
              access of the code under test is a scheduling point.
"""

SIM_REAL = "the library, built from /repo's current tree with its own cmake rules"
SEQ_STUB = "memory allocator (simulated: failing, budgeted, always-moving, ledger-keeping)"

CONC_STUB = "thread scheduler (simulated threads on one OS thread, switched at memory accesses)"
CONC_MEASURE = "kinds of calls that overlapped in real time, with who began and ended first and what was returned, hashed into a 2^23-bit map; distinct_event_logs counts distinct interleavings"
Q_MEASURE = "queue fill, index position and call kind, with whether the other side was inside a call, hashed into a 2^23-bit map; distinct_event_logs counts distinct interleavings"

CHECKS = {
    "C01": dict(flavour="seq", src=["w_array.c"], quick=90000, thorough=3000000, stub=SEQ_STUB),
    "C02": dict(flavour="seq", src=["w_hashmap.c", "w_bulk.c"], quick=160000, thorough=1500000, stub=SEQ_STUB),
    "C03": dict(flavour="seq", src=["w_btree.c", "w_bulk.c"], quick=40000, thorough=1500000, stub=SEQ_STUB),
    "C04": dict(flavour="seq", src=["w_radix.c", "w_bulk.c"], quick=160000, thorough=1500000, stub=SEQ_STUB),
    "C05": dict(flavour="seq", src=["w_skiplist.c", "w_bulk.c"], quick=240000, thorough=1500000, stub=SEQ_STUB),
    "C06": dict(flavour="seq", src=["w_cache.c", "w_bulk.c"], quick=160000, thorough=1500000, stub=SEQ_STUB),
    "C07": dict(flavour="seq", src=["w_cache.c"], quick=80000, thorough=1500000, stub=SEQ_STUB),
    "C08": dict(flavour="seq", src=["w_bloom.c"], quick=80000, thorough=1500000, stub=SEQ_STUB),
    "A01": dict(flavour="seq", src=["w_memalloc.c"], quick=80000, thorough=1500000, stub="none: the arena is the only memory"),
    "A02": dict(flavour="seq", src=["w_allocpool.c"], quick=240000, thorough=1500000, stub=SEQ_STUB),
    "A03": dict(flavour="seq", src=["w_alloc.c"], quick=240000, thorough=1500000, stub=SEQ_STUB),
    "H01": dict(flavour="seq", src=["w_lists.c", "w_bulk.c"], quick=240000, thorough=1500000, stub="none: the caller owns every node"),
    "H02": dict(flavour="seq", src=["w_trees.c", "w_bulk.c"], quick=240000, thorough=1500000, stub="none: the caller owns every node"),
    "H03": dict(flavour="seq", src=["w_lists.c"], quick=240000, thorough=1500000, stub="none: the caller owns every node"),
    "H04": dict(flavour="seq", src=["w_trees.c", "w_bulk.c"], quick=240000, thorough=1500000, stub="none: the caller owns every node"),
    "H05": dict(flavour="seq", src=["w_trees.c", "w_bulk.c"], quick=240000, thorough=1500000, stub="none: the caller owns every node"),
    "H06": dict(flavour="seq", src=["w_debug.c"], quick=400000, thorough=3000000, stub="none: the caller owns every node"),
    "E01": dict(flavour="seq", src=["w_fsm.c"], quick=400000, thorough=3000000, stub=SEQ_STUB + ", state machine callbacks"),
    "E02": dict(flavour="seq", src=["w_events.c"], quick=400000, thorough=3000000, stub="notifier callbacks"),
    "E03": dict(flavour="seq", src=["w_events.c"], quick=400000, thorough=3000000, stub="release and match callbacks"),
    "E04": dict(flavour="seq", src=["w_events.c"], quick=400000, thorough=3000000, stub="log sink"),
    "T01": dict(flavour="seq", src=["w_clock.c"], quick=400000, thorough=3000000, stub="clock (caller-supplied, simulated)"),
    "T02": dict(flavour="seq", src=["w_clock.c"], quick=400000, thorough=3000000, stub="clock (caller-supplied, simulated)"),
    "L01": dict(flavour="conc", src=["w_conc.c"], quick=1600000, thorough=2000000, stub=CONC_STUB, measure=CONC_MEASURE),
    "L02": dict(flavour="conc", src=["w_conc.c"], quick=1600000, thorough=2000000, stub=CONC_STUB, measure=CONC_MEASURE),
    "L03": dict(flavour="conc", src=["w_conc.c"], quick=1600000, thorough=2000000, stub=CONC_STUB, measure=CONC_MEASURE),
    "L04": dict(flavour="conc", src=["w_conc.c"], quick=1600000, thorough=2000000, stub=CONC_STUB, measure=CONC_MEASURE),
    "Q01": dict(flavour="conc", src=["w_fifo.c"], quick=1600000, thorough=3000000, stub=CONC_STUB + ", memory allocator", measure=Q_MEASURE),
    "Q02": dict(flavour="conc", src=["w_fifo.c"], quick=1600000, thorough=3000000, stub=CONC_STUB + ", memory allocator", measure=Q_MEASURE),
    "Q03": dict(flavour="seq", src=["w_ring.c"], quick=360000, thorough=3000000, stub=SEQ_STUB),
    "Q04": dict(flavour="conc", src=["w_fifo.c"], quick=1600000, thorough=3000000, stub=CONC_STUB, measure=Q_MEASURE),
    "S01": dict(flavour="seq", src=["w_search.c"], quick=240000, thorough=3000000, stub=SEQ_STUB + ", block source"),
    "S02": dict(flavour="seq", src=["w_stream.c"], quick=60000, thorough=600000, stub="stream delivery"),
    "S03": dict(flavour="seq", src=["w_stream.c"], quick=60000, thorough=3000000, stub="stream delivery"),
    "S04": dict(flavour="seq", src=["w_stream.c"], quick=60000, thorough=3000000, stub="stream delivery"),
    "E05": dict(flavour="seq", src=["w_once.c"], quick=400000, thorough=3000000, stub="callbacks"),
    "S05": dict(flavour="seq", src=["w_once.c"], quick=400000, thorough=3000000, stub="none: the caller owns every generator"),
    "M01": dict(flavour="seq", src=["w_mpi.c"], quick=400000, thorough=2000000, stub=SEQ_STUB),
    "M02": dict(flavour="seq", src=["w_matrix.c"], quick=400000, thorough=2000000, stub=SEQ_STUB),
    "B01": dict(flavour="seq", src=["w_bitmap.c"], quick=400000, thorough=2000000, stub=SEQ_STUB),
    "R01": dict(flavour="seq", src=["w_sort.c"], quick=400000, thorough=3000000, stub="comparison callback"),
    "W01": dict(flavour="seq", src=["w_codec.c"], quick=400000, thorough=3000000, stub="channel"),
}
