"""What each check runs. scenarios: name or (name, weight). counts: runs of the quick tier per variant."""
REAL = "complete library (all files of source/c-precompiled/sph-sp and the foreign sources they include), compiled from the current tree"
STUB_T = "threads, mutexes, condition variables, nanosleep and the clock (simulated, one run at a time)"
STUB_M = "allocator (simulated, guarded, can fail)"
STUB_F = "stdio files (real library calls onto simulated stdio over an in-memory disk)"
COMMON = [
    "the interleaving is explored at synchronisation calls, allocations and, in the tsan variant, at single memory accesses; the memory model is sequentially consistent, weaker orders are covered by the data race check",
    "search is sampling with seeds, not enumeration: a violation that no sampled schedule reaches stays unseen",
]
CHECKS = {
    "C01": dict(
        scenarios=[("par_render", 2), "par_nested", "par_wide", "par_synth"],
        rule="a run draws an event tree, worker count, block division and schedule; it is non-trivial if more than 4 context switches happened; distinct by hash of schedule, calls and output",
        quick=(70000, 50000)),
    "C02": dict(
        scenarios=[("par_nested", 3), "par_wide", "par_render", "par_fail", "par_nomem", "par_nomem_noise"],
        rule="a run draws an event tree, worker count, schedule, spurious wake-ups, sleep faults, failing events and failing allocations; non-trivial if more than 4 context switches happened",
        quick=(70000, 50000)),
    "C04": dict(
        scenarios=[("par_fail", 4), ("par_nomem", 2), ("par_nomem_noise", 2), ("seq_fail", 2), "render_file_fail"], files=True,
        rule="a run draws an event tree with failing callbacks or a plan of failing allocations; non-trivial if more than 4 context switches or more than one block happened",
        quick=(70000, 50000)),
    "C03": dict(
        scenarios=[("pool_tasks", 4), ("futures", 4), "lifecycle", "par_wide"],
        rule="a run draws workers, producers, tasks (also tasks that queue tasks), shutdown mode or a tree of futures that wait for each other; non-trivial if more than 4 context switches happened",
        quick=(70000, 60000)),
    "C05": dict(
        scenarios=["par_synth", "noise_seeds", "par_ops", "par_render", "par_nested", "par_nomem_noise", "futures", "pool_tasks", "lifecycle", "par_fail", "par_wide"],
        technique="happens-before data race detection (vector clocks) on every simulated memory access of seeded schedules",
        files=True,
        rule="a run draws a parallel workload and its schedule; every access of the library is checked against the happens-before relation of that run; non-trivial if more than 4 context switches happened",
        quick=(100000, 30000)),
    "C06": dict(
        scenarios=["lifecycle"],
        rule="a run draws up to five rounds of initialisation and shutdown with different parameters, failing allocations and failing thread creations; non-trivial if there was more than one round or threads were started",
        quick=(60000, 60000)),
    "C07": dict(
        scenarios=[("seq_render", 2), ("par_render", 2), ("seq_fail", 2), ("par_fail", 2), "par_nested", "par_nomem", "list_history"],
        rule="a run draws an event tree, its ranges and blocks, and possibly failing events or an early end; all callbacks are recorded and checked; non-trivial if more than one block was rendered or threads switched",
        quick=(60000, 60000)),
    "C09": dict(
        scenarios=[("list_history", 6), "seq_render"],
        rule="a run draws a history of up to 40 list and group operations with failing allocations and renders the result; non-trivial if more than three items were created",
        quick=(70000, 70000)),
    "C14": dict(
        scenarios=[("event_memory", 6), "seq_fail", "par_nomem"],
        rule="a run draws an event kind and a history of up to 30 registrations, reservations, allocations, copies with failing allocations; non-trivial if more than two addresses were registered",
        quick=(80000, 80000)),
    "C10": dict(
        scenarios=["filter_stream", "stream_other"],
        rule="a run draws a stream, its segmentation, impulse responses or oscillator parameters; non-trivial if there was more than one segment",
        quick=(100000, 100000)),
    "C11": dict(
        scenarios=["filter_change", ("filter_fail", 2)],
        rule="a run draws a stream, its segmentation, parameter changes between segments and failing updates; non-trivial if there was more than one segment",
        quick=(100000, 100000)),
    "C08": dict(
        scenarios=[("divide", 3), "wave_channels", "noise_channels", "seq_render", "par_render"],
        rule="a run draws an event tree with wave, noise and mapped events and a division of the range into blocks; compared with the model, which renders at once; non-trivial if there was more than one block or threads switched",
        quick=(70000, 70000)),
    "C24": dict(
        scenarios=[("noise_channels", 2), "wave_channels", "par_synth", "divide"],
        rule="a run draws noise or wave events with channels that are filtered, shared, copied or modulated, their division into blocks and how they are rendered, or event trees with wave events; non-trivial if there was more than one block or threads switched",
        quick=(40000, 60000)),
    "C15": dict(
        scenarios=["file_roundtrip"], files=True,
        rule="a run draws channel count, samples, pieces for writing and reading, stdio buffer size; non-trivial if more than one sample was written",
        quick=(200000, 200000)),
    "C16": dict(
        scenarios=["file_write_fail", "render_file_fail"], files=True,
        rule="a run writes a file or renders to one while opening, writing, seeking, closing or allocating fails according to a drawn plan; non-trivial if a device call failed",
        quick=(120000, 120000)),
    "C17": dict(
        scenarios=["file_damaged"], files=True,
        rule="a run draws a file, what damages it (crash of the writer, cut, flipped bytes, other chunks) and failing or short reads; non-trivial if the file was damaged or a fault fired",
        quick=(200000, 200000)),
    "C18": dict(
        scenarios=["render_file", "render_file_fail"], files=True,
        rule="a run draws an event, a range and the block size and renders to a file or a block; compared with the model; non-trivial if more than one block was rendered",
        quick=(60000, 60000)),
    "C22": dict(
        scenarios=["plot"], files=True,
        rule="a run draws data and the fault plan of a plot call; the written points are compared with the data; non-trivial if something was plotted",
        quick=(80000, 80000)),
    "C12": dict(
        scenarios=[("op_alloc", 4), "list_history", "event_memory", "filter_fail", "par_nomem", "par_nomem_noise", "lifecycle", "file_write_fail", "render_file_fail", "plot"], files=True,
        rule="a run performs operations of the public interface three times: undisturbed, with one or several failing allocations, and again with memory; results, status, memory and repeatability are compared; non-trivial if an operation reported a failed allocation or more than three objects were created",
        quick=(120000, 120000)),
    "C13": dict(
        scenarios=[("op_alloc", 3), "op_rerun", "par_fail", "par_nomem", "seq_fail", "list_history", "event_memory", "filter_fail", "file_write_fail", "render_file_fail", "lifecycle", "futures", "path_ranges", "seq_render", "noise_channels", "file_damaged", "plot", "random_contracts"], files=True,
        technique="simulated allocator with guarded blocks, free quarantine and leak accounting under seeded schedules and failing allocations",
        rule="a run draws a history of creation, use and release with failures; every access and release is checked against the live blocks, and the heap is compared at the end; non-trivial as defined by the scenario",
        quick=(120000, 100000)),
    "C19": dict(
        scenarios=[("path_ranges", 4), "path_arrays"],
        rule="a run draws a path with up to 7 segments and nested paths and a history of up to 30 ranges sampled from copies of it; non-trivial if more than two ranges were sampled",
        quick=(200000, 200000)),
    "C20": dict(
        scenarios=[("random_draws", 3), ("noise_seeds", 3), "par_synth"],
        rule="a run draws a plan of random draws from three generators, its division into calls and the number of sessions, or noise events prepared at the same time by a drawn schedule; non-trivial if values were drawn or more than 4 context switches happened",
        quick=(40000, 50000)),
    "C21": dict(
        scenarios=[("op_rerun", 6), "divide", "file_roundtrip", "render_file"], files=True,
        rule="a run performs up to four operations of the public interface two or three times with other heap contents, placement and reuse, stack contents and earlier sessions; results are compared bit by bit; always non-trivial",
        quick=(100000, 100000)),
    "C23": dict(
        scenarios=["random_contracts"],
        rule="a run draws generator states, also states whose next values are extreme, and performs random choices; every result is checked against the contract of the operation; always non-trivial",
        quick=(150000, 150000)),
}
