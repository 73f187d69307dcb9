#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="source/c-precompiled/sph-sp/"
F="source/c/foreign/sph-sc-lib/sph-sp/"
p("C01","Parallel rendering produces the same sound as sequential rendering",
 "Rendering a group of events with worker threads adds exactly the same samples at the same positions of every channel as rendering the same events one after the other, whatever the number of workers, the nesting of groups and the order in which threads run, at any time that the time type can state. Where several noise events are prepared at the same time, they may receive each other's seeds (C20). It also leaves samples outside of the events' ranges untouched and adds to, rather than overwrites, what the output block already contained.",
 ["schedules","inputs","configurations"],"all event trees (leaf, sequential group, parallel group, mapped, wave), block divisions, worker counts and thread interleavings",
 "The parallel test renders one flat list of four events under whatever schedule the OS happens to pick and looks at a few samples; interleavings, nesting, offsets and several blocks are never varied.",
 [B+"sequencer.c",F+"futures.c",F+"thread-pool.c"],
 [("sp_seq_parallel",B+"sequencer.c"),("sp_group_generate_parallel",B+"sequencer.c"),("sph_future_new/sph_future_touch",F+"futures.c")],
 ["sp_seq_parallel output block"])
p("C02","A parallel render always finishes",
 "Every call that renders with worker threads returns after finitely many scheduling steps: no interleaving, spurious or delayed wake-up, interrupted sleep, nesting depth of parallel groups, failing event, failing allocation, other work that holds up all workers, or number of worker threads (one included) leaves the caller or a worker waiting forever. While work is available a waiting caller never needs more than a bounded number of further sleeps.",
 ["schedules","fault_sequences","configurations"],"all interleavings, wake-up orders, spurious wake-ups, signal interruptions, worker counts >= 1 and nesting depths of parallel groups",
 "A deadlock or lost wake-up needs a particular interleaving or nesting; the tests use one un-nested list with idle workers.",
 [F+"thread-pool.c",F+"futures.c",B+"sequencer.c"],
 [("condition variable loop in sph_thread_pool_worker",F+"thread-pool.c"),("sph_future_touch",F+"futures.c"),("merge loop of sp_seq_parallel",B+"sequencer.c")])
p("C03","Submitted work runs exactly once and its result reaches the waiter",
 "Every task or future handed to the worker pool is executed exactly once, with the data it was given, and waiting for a future returns exactly the value its function returned, after that function has finished and not later because other work in the pool is held up. Shutting a pool down first completes everything queued before it (or drops it when discarding was requested), ends every worker thread, and a pool with one worker runs tasks in submission order.",
 ["schedules","fault_sequences","histories"],"all histories of enqueue/touch/finish by several threads, all interleavings, wake-up orders, thread-creation and allocation failures",
 "No existing test exercises the pool or futures directly; exactly-once and shutdown ordering depend on interleavings and failures.",
 [F+"thread-pool.c",F+"thread-pool.h",F+"futures.c",F+"queue.h"],
 [("sph_thread_pool_enqueue/worker/finish",F+"thread-pool.c"),("sph_future_eval, sph_future_touch",F+"futures.c"),("intrusive fifo",F+"queue.h")])
p("C04","A failing event stops a render cleanly",
 "When preparing or generating an event fails, or memory runs out during a render, the render returns a failure that one of the events really reported (or a memory error) and never success with missing sound. Before it returns all work it started has ended, every event it owned has been freed exactly once, and a new render afterwards works normally.",
 ["schedules","fault_sequences","inputs"],"all choices of failing events, failing callback, block in which it fails, allocation failures, worker counts and interleavings",
 "No test makes an event fail; the danger is in what other threads are still doing at that moment.",
 [B+"sequencer.c"],[("exit paths of sp_seq and sp_seq_parallel",B+"sequencer.c"),("sp_event_list_free",B+"sequencer.c")])
p("C05","No unsynchronised access to shared memory",
 "Throughout initialisation, parallel rendering of any mix of the built-in and user event types, use of the task pool and shutdown, no two threads access the same memory location without ordering between them unless both only read. This includes library-wide state such as the random generator and the memory of events, lists, blocks and futures. Operations that only work on what they are given (arrays, filters, paths, blocks, files of different names, statistics, sequential rendering of different events) can be called by several threads at the same time and give the results they give alone.",
 ["schedules","inputs"],"all interleavings of all parallel workloads",
 "A race usually does not change a test's result on the machine it runs on; only tracking of ordering between accesses reveals it.",
 [F+"futures.c",F+"thread-pool.c",B+"sequencer.c",B+"main.c"],
 [("queue mutex",F+"thread-pool.c"),("finished flag of futures",F+"futures.c"),("random state of noise events",B+"sequencer.c")])
p("C06","Start-up and shutdown can fail, repeat and always release everything",
 "Initialising the library either succeeds or reports failure, for every failing allocation or thread creation, and after a failure followed by an optional shutdown call, or after success followed by shutdown, all threads have ended and all memory is released. Afterwards the library can be initialised again with any worker count and works as the first time.",
 ["schedules","fault_sequences","histories"],"all histories of initialise/render/shutdown with failing allocations and thread creations at any point and all interleavings",
 "The tests initialise once, never fail an allocation and exit the process without shutting down.",
 [B+"main.c",F+"futures.c",F+"thread-pool.c"],
 [("sp_initialize, sp_deinitialize",B+"main.c"),("sph_future_init, sph_future_deinit",F+"futures.c"),("sph_thread_pool_new, sph_thread_pool_finish",F+"thread-pool.c")])
p("C07","Events live through prepare, gapless generate and exactly one free",
 "Every event that is rendered is prepared exactly once before its first generation, is then asked for consecutive ranges of its own time that start at zero and end at its duration without gap or overlap while rendering advances block by block, and is given an output position that matches that time. Ranges in which it does not sound do not touch it. It is freed exactly once: when rendering has passed its end, or when the list or group that owns it is freed or fails, and never used after that.",
 ["histories","schedules","inputs"],"all event trees and block sequences, sequential and parallel, including renders that stop early",
 "Tests check a few output samples, not the history of callbacks, and never stop rendering early.",
 [B+"sequencer.c",B+"sequencer.h"],
 [("sp_seq",B+"sequencer.c"),("sp_seq_parallel",B+"sequencer.c"),("sp_group_prepare/generate/free",B+"sequencer.c"),("sp_map_event_*",B+"sequencer.c")])
p("C08","The rendered signal does not depend on how time is divided into blocks",
 "Rendering a range in one block or in any sequence of adjoining blocks of any sizes yields the same samples. This holds for user events, groups, mapped events with and without their own buffer, wave events with modulation, and noise events whose filter does not change within the range and that receive the same seed.",
 ["histories","configurations","inputs"],"all divisions of a range into adjoining blocks, sequential or parallel, with the stateful built-in events",
 "Each test uses one block division; equality between all divisions is a relation between runs.",
 [B+"sequencer.c",B+"filter.c",B+"main.c"],
 [("sp_seq offsets",B+"sequencer.c"),("phase state in sp_wave_event_generate",B+"sequencer.c"),("sp_event_block_generate",B+"sequencer.c"),("filter carryover",B+"filter.c")])
p("C09","Events sound at their scheduled times whatever the order of insertion",
 "For any history of adding, appending, scheduling and removing events, the rendered output is the sum of exactly the events that are in the list or group, each at its scheduled start and for its scheduled duration; appended events start where the group ended before, and the end of a group is the latest end of its members. An operation that reports failure leaves the list as it was.",
 ["histories","fault_sequences"],"all histories of add/append/schedule/remove, all insertion orders and ties, with allocation failures in between",
 "Tests insert a handful of events in one order and never fail an insertion.",
 [B+"sequencer.c",B+"sequencer.h"],
 [("sp_event_list_add, sp_event_list_remove, sp_event_list_reverse",B+"sequencer.c"),("sp_group_add, sp_group_append, sp_event_schedule",B+"sequencer.c")])
p("C10","Stream processors give the same result for every segmentation of the stream",
 "Feeding a continuous signal through convolution, the windowed-sinc filters or the phase-keeping oscillators in segments of any lengths gives the same output as processing it at once and equals the mathematical convolution with the impulse response. An oscillator plays its wave form at the position that is the sum of its frequencies so far, from any initial phase. A centred moving average that is given its neighbouring segments equals the average over the joined signal; where a neighbouring segment is missing, values are reflected as documented.",
 ["histories","inputs"],"all segmentations of a stream including segments shorter than the impulse response, all impulse response lengths",
 "Tests use two or three fixed segmentations; carried-over state depends on the whole history of segment lengths.",
 [B+"main.c",B+"filter.c"],
 [("sp_convolve carryover",B+"main.c"),("sp_convolution_filter",B+"filter.c"),("sp_moving_average",B+"filter.c"),("sp_wave phase state",B+"main.c")])
p("C11","Changing filter parameters keeps the tail and survives failure",
 "When the parameters or the kind of a filter change between segments of a stream, new input is processed with the impulse response of the new parameters and the tail of earlier input is still emitted completely and only once. If such an update fails, the failure is reported and the filter can still be used with either parameters and be freed.",
 ["histories","fault_sequences"],"all histories of parameter changes, impulse response lengths growing and shrinking, segment lengths, and failing allocations or failing impulse response functions at any step",
 "Tests change parameters a few times with long segments and never fail an update.",
 [B+"filter.c",B+"main.c"],[("sp_convolution_filter_state_set",B+"filter.c"),("sp_convolution_filter",B+"filter.c")])
p("C12","A failed allocation is always reported and never corrupts anything",
 "For every operation that can report failure and every allocation it makes, if that allocation fails the operation reports failure (or still delivers the correct result), it does not crash or write out of bounds, and it does not leave the caller with dangling or half-built objects. Repeating the operation once memory is available gives the same result as if nothing had failed.",
 ["fault_sequences","inputs"],"all operations of the public interface that allocate, and all subsets of their allocations failing",
 "Tests never make an allocation fail.",
 [F+"helper.h",F+"helper.c",B+"arrays.c",B+"path.c",B+"filter.c",B+"sequencer.c",B+"main.c",B+"statistics.c"],
 [("status codes of the allocation helpers",F+"helper.h"),("memory registers",F+"memreg.h"),("exit labels of each operation","source/c-precompiled/sph-sp")])
p("C13","All memory is released exactly once and only used while valid",
 "After events, groups, lists, filters, paths, files and the library itself have been released through their documented release operations, no memory allocated by the library remains allocated. No operation frees memory twice, uses freed memory, reads or writes outside of the memory it was given, or leaks temporary memory, in successful and in failing calls. Rendering block by block does not accumulate memory while no event begins.",
 ["histories","fault_sequences","schedules"],"all histories of create/use/release over all object kinds, with and without failing allocations, in all interleavings",
 "Tests never free most of what they create and do not look at the heap.",
 [B+"sequencer.c",B+"filter.c",B+"path.c",B+"statistics.c",B+"main.c",B+"file.c",F+"spline-path.c"],
 [("event.free handlers",B+"sequencer.c"),("sp_convolution_filter_state_free",B+"filter.c"),("local memory registers",F+"memreg.h")])
p("C14","Memory registered with an event is released exactly once with it",
 "Every address registered with an event is passed to its handler exactly once, in the order of registration, when the event is freed, however many registrations, reservations and allocation failures occurred and whatever kind of event it is. A registration that reports failure does not lose earlier registrations, and the convenience allocators never leave memory that neither the event nor the caller can release.",
 ["histories","fault_sequences"],"all histories of register/reserve/allocate/free on events of all kinds with failing allocations",
 "Tests register one or two addresses; growth of the register and failures are not reached.",
 [B+"sequencer.c",B+"sequencer.h",F+"array3.h"],
 [("sp_event_memory_add_with_handler, sp_event_memory_ensure, sp_event_memory_free",B+"sequencer.c"),("sp_event_*_srq macros",B+"sequencer.h")])
p("C15","Audio files read back what was written, however it was chunked",
 "A file that was written without error and closed reads back with the same channel count and the same samples, rounded to 32 bit floating point, for every division of the samples into write calls and read calls, including empty ones, and its header states its real sizes. Reading past the end yields the remaining samples and then an end-of-file status, with samples beyond the end left untouched.",
 ["histories","configurations","inputs"],"all sequences of write and read sizes, channel counts, stream buffer sizes and short transfers of the underlying device",
 "The file test writes and reads one fixed block once.",
 [B+"file.c"],[("sp_file_open_write, sp_file_write, sp_file_close_write",B+"file.c"),("sp_file_open_read, sp_file_read",B+"file.c")])
p("C16","A file write error is never silent",
 "If opening, writing, seeking, flushing or closing an output file fails, or the disk is full, then opening, writing or closing reports it: a sequence of calls that all reported success has left a complete and correct file. Every file that was opened is closed exactly once, also after errors.",
 ["fault_sequences","histories"],"all positions and kinds of I/O errors and disk capacities, all write sequences and stream buffer sizes",
 "Tests never inject an I/O error.",
 [B+"file.c",B+"main.c"],[("sp_file_open_write, sp_file_write, sp_file_close_write",B+"file.c"),("sp_render_range_file",B+"main.c")])
p("C17","Damaged, truncated or failing input files are handled safely",
 "Opening and reading any file content, including a file cut off by a crash of its writer, with flipped bytes, with additional chunks, or on a device that returns errors or less data than asked for, terminates, stays within the caller's memory, and either delivers samples that are really in the file or reports a failure or end of file. A missing or unsupported file is reported as such and leaves no file open.",
 ["crash_points","fault_sequences","inputs"],"all truncation points of a written file, byte flips, inserted chunks, read errors and short reads",
 "Tests read only files they just wrote completely.",
 [B+"file.c"],[("header validation in sp_file_open_read",B+"file.c"),("sp_file_read",B+"file.c")])
p("C18","Rendering to a file equals rendering to memory",
 "For every event, range, channel count and block size, the file produced by a range render contains exactly the samples that rendering the same range to memory yields, and rendering a whole event contains the whole duration, also when the event determines its duration while it is prepared. A failure anywhere is reported, and all events, buffers and files are released.",
 ["fault_sequences","configurations","inputs"],"all ranges (also not starting at zero), block sizes, event trees, and failures of events, allocations and I/O",
 "No test reads back a rendered file or renders a range that does not start at zero.",
 [B+"main.c",B+"file.c"],[("sp_render_range_file, sp_render_range_block, sp_render_file",B+"main.c")])
p("C19","A path can be sampled piecewise, in any order",
 "Sampling a path in any sequence of ranges gives at every position the same value as sampling it at once, whatever ranges were sampled before, and never writes outside of the requested range. This covers move, line, constant, curve and nested-path segments, points between full samples, copies of a path that are sampled in turns, and segments that are used for several paths or sampled without a path.",
 ["histories","inputs"],"all paths and all histories of sampled ranges, forwards, backwards and repeated",
 "Tests sample each path once from zero.",
 [F+"spline-path.c",F+"spline-path.h"],[("spline_path_get with cached segment index",F+"spline-path.c"),("segment generators",F+"spline-path.c")])
p("C20","Random streams depend only on their seed and draw order",
 "A random generator with a given seed yields the values of the documented algorithm, the same whether they are drawn one by one or in arrays of any sizes, and the library's own generator restarts from the same point at every initialisation. Noise events that are prepared by several threads at the same time get distinct seeds, exactly those that some sequential order of preparation would have given them.",
 ["histories","schedules"],"all divisions of draws into calls, all interleavings of concurrently prepared noise events",
 "Tests draw one array; concurrent preparation is never tested.",
 [F+"random.c",B+"main.c",B+"sequencer.c"],[("sph_random_*",F+"random.c"),("sp_random_state_new, sp_initialize",B+"main.c"),("sp_noise_event_prepare",B+"sequencer.c")])
p("C21","Results never depend on leftover memory or on the environment",
 "Running the same sequence of library calls with the same inputs gives the same results and the same files, byte for byte, whatever was previously stored in memory the allocator hands out, wherever it is placed, and whatever earlier sessions of the library in the same process did. This covers rendering, filters, paths, array functions, statistics and files.",
 ["configurations","histories","schedules"],"all contents and placements of recycled memory, and all earlier histories in the process",
 "Tests run once in a fresh process where most heap memory happens to be zero.",
 [B+"main.c",B+"sequencer.c",B+"filter.c",B+"file.c",B+"path.c",B+"arrays.c"],
 [("initialisation of all allocated objects","source/c-precompiled/sph-sp"),("sp_initialize",B+"main.c")])
p("C22","Plot output is complete or nothing breaks",
 "Writing samples, integers or a spectrum for plotting produces one line per value when nothing fails, and plots made one after the other use different files. Plotting an event plots its first channel over its whole duration, and nothing if rendering it fails. When memory, opening, writing or closing fails it returns without crashing, without leaking memory or open files, and without changing its input.",
 ["fault_sequences","inputs"],"all positions and kinds of allocation and I/O failures, all input sizes",
 "No test plots anything.",
 [B+"plot.c"],[("sp_plot_samples_to_file, sp_plot_times_to_file, sp_plot_spectrum_to_file",B+"plot.c")])
# not applicable ones
p("C23","Random choices keep their contract whatever the generator yields",
 "For every state of the random generator, including those that yield the smallest and largest values, bounded draws stay below their bound, unit and sample draws in their range, shuffles only exchange elements of the array so that every element remains exactly once, random bits are zero or one, random selections are elements of the input in their order without repetition, and draws from a distribution only give elements with a probability above zero, without repetition where uniqueness is promised. Everything that can be chosen is chosen eventually. If memory runs out this is reported or leaves a selection empty.",
 ["inputs","schedules","fault_sequences"],"all generator states, array sizes, bounds and distributions, and failing allocations","Tests draw a few values from the default seed; extreme generator values practically never occur there.",
 [F+"random.c",B+"arrays.c",B+"main.c"],[("sp_shuffle, sp_times_random_discrete, sp_times_random_binary, sp_times_select_random, sp_normal_random",B+"arrays.c"),("sph_random_u64_bounded",F+"random.c")])
p("C24","Wave and noise events play every channel as configured",
 "For every configuration of the channels of a wave or noise event, every channel gets the sound its configuration defines: channels without an own configuration play like the first channel, missing values are taken from the first channel, channels with own filter values filter the same noise with exactly their own values while others share the filtered noise of the first, modulation is applied at the time of the event and at least once per generated range and resolution step, amplitude and limiting apply per sample, waves play their wave form at any initial and modulated phase, and channels that go to the same output add up. Filtered noise does not build up: it sounds from the first sample on as if it had been running before. This holds for every division of time into blocks and for parallel rendering, and new configurations have the documented defaults.",
 ["configurations","histories","schedules","inputs"],"all channel configurations, durations, resolutions, block divisions and schedules",
 "Tests render one or two configurations in one block and do not look at the sound of single channels.",
 [B+"sequencer.c",B+"filter.c"],[("sp_noise_event_prepare, sp_noise_event_generate_block",B+"sequencer.c"),("sp_wave_event_prepare, sp_wave_event_generate",B+"sequencer.c"),("sp_windowed_sinc_bp_br",B+"filter.c")])
p("C30","Forward and inverse transforms are inverse and match the definition",
 "For every length and input the fast transform equals the discrete Fourier transform up to rounding, and the inverse undoes it up to the documented scale.",
 ["inputs"],"all lengths and inputs","Tests use a fixed set of sizes and random inputs.",
 ["source/c/foreign/nayuki-fft/fft.c",B+"main.c"],[("Fft_transform","source/c/foreign/nayuki-fft/fft.c")])
p("C31","Statistics and array formulas match their definitions",
 "Every statistic and every array operation computes the value its name and documentation define, for every array.",
 ["inputs"],"all arrays","Tests use one or two example arrays per function.",
 [B+"statistics.c",B+"arrays.c",B+"arrays-template.c"],[("sp_stat_*",B+"statistics.c"),("sp_times_*, sp_samples_*",B+"arrays.c")])
p("C32","Filters have the requested frequency response",
 "Windowed-sinc impulse responses have odd length, unity gain in the pass band and attenuation in the stop band for every cut-off and transition.",
 ["inputs"],"all cut-offs and transitions","Tests check a few cut-offs.",
 [B+"filter.c"],[("sp_windowed_sinc_lp_hp_ir",B+"filter.c")])
p("C33","Envelopes and paths pass through their points",
 "Every path and envelope passes through its given points and interpolates in between as documented.",
 ["inputs"],"all point sets","Tests check a few paths.",
 [B+"path.c",F+"spline-path.c"],[("sp_path_samples, sp_envelope_*",B+"path.c")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
