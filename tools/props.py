#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
SS = "trick_source/sim_services/"
TU = "trick_source/trick_utils/"

p("C01", "Job queues stay ordered and never lose, duplicate or re-run a job",
  "Pushing a job onto a job queue leaves the queue sorted by job class, then phase, then simulation-object id, then job id, with jobs of equal rank in the order they were pushed; every job that was in the queue is still there exactly once, and only the pushed job is added. "
  "Removing a job takes out exactly that job and keeps the order of the others. "
  "Neither operation disturbs a walk in progress: the job the walk would return next is still returned next (or its successor when it is the one removed), jobs already returned are not returned again, and a walk returns enabled jobs only, in queue order. "
  "Executing all jobs of a queue calls each enabled job exactly once in queue order, stopping at the first that fails; calling a job calls the instruments before it, the job itself once, and the instruments after it, in order, and returns the job's own result.",
  ["inputs", "histories"], "for every queue length and content, every pushed/removed job and every position of a walk in progress",
  "The unit tests push a handful of hand-picked jobs; order, stability and the effect on a walk in progress must hold for every queue content, length and position.",
  [SS + "ScheduledJobQueue/ScheduledJobQueue.cpp", "include/trick/ScheduledJobQueue.hh", SS + "SimObject/JobData.cpp"],
  [("sorted insertion", "ScheduledJobQueue::push"), ("compaction", "ScheduledJobQueue::remove"), ("walk", "ScheduledJobQueue::get_next_job")],
  [("list/list_size", "the queue content", "ScheduledJobQueue"), ("curr_index", "position of the walk", "ScheduledJobQueue")],
  ["ScheduledJobQueue::push/remove/get_next_job/size/execute_all_jobs", "JobData::call/call_double"])

p("C02", "A periodic job runs when due, once, and is rescheduled exactly one period later",
  "Asking a scheduled-job queue for work at a time returns the first not-yet-considered enabled job whose due time equals that time, skipping every other job, and nothing when none is left. "
  "A job returned this way is rescheduled one period later, or retired when that lies beyond its stop time (unless it reschedules itself); the due times of all other jobs are untouched. "
  "The queue's next event time is exactly the earliest of the value it had and the new due times of the jobs the query passed that lie after the query time or were just rescheduled. "
  "A job's period in tics is its period in seconds times the tic rate, rounded to the nearest; giving a waiting periodic job a new period makes it next due at the first multiple of that period after now; restoring a job from a checkpoint restores its times, period, phase and enabled state.",
  ["inputs", "histories"], "for every queue content, every query time, period, start and stop time",
  "Unit tests run a few fixed periods; the rescheduling arithmetic must hold for every period, offset, stop time and mixture of jobs.",
  [SS + "ScheduledJobQueue/ScheduledJobQueue.cpp", SS + "SimObject/JobData.cpp"],
  [("find due job", "ScheduledJobQueue::find_next_job"), ("next-time bookkeeping", "ScheduledJobQueue::test_next_job_call_time"), ("period and first call", "JobData::calc_cycle_tics, JobData::set_next_call_time")],
  [("next_tics", "due time of a job", "JobData"), ("next_job_time", "earliest due time", "ScheduledJobQueue")],
  ["ScheduledJobQueue::find_next_job/find_job/get_next_job_call_time", "JobData"])

p("C03", "The main loop does all that is due, in order; time never skips pending work",
  "Advancing simulation time moves it to the earliest of: the next due time of the main thread's scheduled and top-level job queues, the end of the software frame, the next due time of every enabled child thread the main thread waits for, and the termination time. "
  "It therefore never moves past pending work, moves forward when all pending work lies in the future, and looks at a child's queue only after the child has finished. "
  "Every pass of the main loop, single- or multi-threaded: honours a freeze command first, calls the top-of-frame jobs exactly when time is at the start of a frame, synchronises with the threads that must have finished, calls the due top-level jobs, starts every child thread that is ready, once, for the current time and marked as busy, calls the due scheduled jobs, each only when the jobs it depends on are complete, ends the run when commanded, when a job fails (with its status) or when the termination time was reached, and calls the end-of-frame jobs exactly when time reaches the end of the frame, which then moves by one frame. "
  "A free-running thread that fell behind is next called at the first multiple of its cycle that is not past.",
  ["inputs", "histories", "configurations", "schedules"], "for every set of pending times, every number and kind of child threads, every sequence of commands and job results",
  "Integration sims exercise a few fixed schedules; minimality over every combination of pending times and the order of calls under every command cannot be sampled.",
  [SS + "Executive/Executive_advance_sim_time.cpp", SS + "Executive/Executive_loop_single_thread.cpp", SS + "Executive/Executive_loop_multi_thread.cpp", SS + "Executive/Executive_thread_sync.cpp", SS + "Executive/Executive_scheduled_thread_sync.cpp", SS + "Executive/Executive_isThreadReadyToRun.cpp"],
  [("advance", "Executive::advance_sim_time")], [("time_tics", "simulation time", "Executive")], ["Executive::get_time_tics"])

p("C04", "Changing the time resolution keeps every pending time",
  "Changing the number of tics per second rescales the current time, the end of the frame, the termination time, the freeze clock, every pending freeze time, every job's start, stop and next due time, every thread's time and next due time, the next event of every queue and every event's next time to the new resolution: each stands for the same time in seconds when the new resolution can represent it, and is less than a tic away otherwise; 'never' stays never. "
  "Periods and frames, which are kept in seconds, are recomputed from the seconds. Every job that wants to know about the change is called, with both resolutions known, until one fails. "
  "Conversion between seconds and tics is consistent: the time of a thread, of the simulation and of its end in seconds are exactly their tics divided by the tics per second, and a whole number of tics is converted exactly both ways.",
  ["inputs", "configurations"], "for every old and new resolution and every pending time",
  "Tests use one resolution change (1e6 to a multiple); the rescaling must hold for every ratio, including non-integer ones.",
  [SS + "Executive/Executive_set_time_tic_value.cpp", SS + "Executive/Executive_get_sim_time.cpp", SS + "Executive/Executive.cpp", SS + "Executive/Threads_set_amf_cycle_tics.cpp", SS + "EventManager/EventManager.cpp"],
  [("rescale", "Executive::set_time_tic_value, Threads::time_tic_changed, ScheduledJobQueue::time_tic_changed"), ("events", "EventManager::time_tic_changed"), ("conversion", "Executive::get_sim_time, get_time_tics, set_/get_terminate_time, set_software_frame, set_freeze_frame")], [("time_tic_value", "tics per second", "Executive")], ["Executive::set_time_tic_value/get_sim_time"])

p("C05", "Freeze, run and stop commands take effect exactly when asked",
  "A freeze requested for a future time is added to the pending ones; a request for a time that is not in the future changes nothing. When the freeze job runs (at a frame boundary only, if so configured) exactly the pending freezes that are due are taken, a freeze is commanded if and only if there was one, and the job is next called at the earliest freeze still pending. "
  "A freeze without a time is commanded once, at the end of the frame; run and stop set the command, stop at a time sets the termination time to it, and none of them changes anything else. "
  "A freeze calls the freeze_init jobs once, then, frame by frame, the jobs due on the freeze clock (which starts at zero and moves to the earlier of the next event and the end of the freeze frame) and the freeze jobs, each once and in order, then the unfreeze jobs. "
  "It lasts until a run command is seen after the freeze jobs; a further freeze command is cleared; a stop command ends the run after the freeze jobs; a freeze job that fails ends the run with its status.",
  ["inputs", "histories"], "for every set of pending freezes, every sequence of requests and every behaviour of the jobs called",
  "The tests issue single commands at fixed times.",
  [SS + "Executive/Executive_freeze.cpp", SS + "Executive/Executive_freeze_loop.cpp", SS + "Executive/Executive_init_freeze_scheduled.cpp", SS + "Executive/Executive_stop.cpp", SS + "Executive/Executive_run.cpp"],
  [("requests", "Executive::freeze, sched_freeze_to_exec_command, async_freeze_to_exec_command"), ("stop", "Executive::stop, run"), ("freeze", "Executive::freeze_loop, init_freeze_scheduled")], [("freeze_times", "pending freezes", "Executive")], ["Executive::get_mode"])

p("C06", "Bit-field reads and writes touch exactly their own bits",
  "Reading a bit field of any width and position from a storage unit of 1, 2 or 4 bytes yields the value of exactly those bits, sign-extended for signed fields. "
  "Writing a value changes exactly those bits to the low bits of the value and leaves every other bit unchanged, so that reading back what was written yields the value truncated to the width.",
  ["inputs"], "for every field width, start position, storage size, stored bits and written value",
  "Tests sample a few fields; widths and positions times all stored words cannot be enumerated by tests.",
  ["include/trick/bitfield_proto.h", SS + "MemoryManager/extract_bitfield.c", SS + "MemoryManager/insert_bitfield.c"],
  [("extract", "extract_bitfield_any / extract_unsigned_bitfield_any"), ("insert", "insert_bitfield_any")], [], ["extract_bitfield_any, insert_bitfield_any"])

p("C07", "Byte-order conversion reverses exactly the bytes of each element",
  "Converting a value or a buffer between byte orders reverses the bytes inside each element of its declared type and changes nothing else, wherever source and destination lie, in place or not. "
  "Converting twice gives back the original bytes.",
  ["inputs"], "for every value, element type and buffer length",
  "Tests cover a few values per type.",
  [TU + "comm/src/trick_byteswap.c", TU + "comm/src/trick_bswap_buffer.c", TU + "comm/src/tc_read_byteswap.c", TU + "comm/src/tc_write_byteswap.c"],
  [("swap", "trick_byteswap_*"), ("buffer walk", "trick_bswap_buffer")], [], ["trick_byteswap_*, trick_bswap_buffer"])

p("C08", "Socket reads and writes transfer exactly the bytes reported",
  "A read stores bytes only inside the caller's buffer, in stream order and without gaps however the network fragments the stream, and returns exactly the number of bytes stored; a write sends a prefix of the caller's data in order and returns its length. "
  "A transfer returns short only when the connection failed or was closed (and is then disconnected, and never otherwise), after a datagram, when the time allowed is over, or where waiting is not allowed; -1 is returned only when nothing was transferred. An interrupted call is repeated.",
  ["inputs", "fault_sequences", "schedules"], "for every size and every sequence of partial transfers, would-block results and errors of the network",
  "Tests run over loopback where transfers are rarely split; every fragmentation and error order matters.",
  [TU + "comm/src/tc_read.c", TU + "comm/src/tc_write.c"],
  [("loop", "tc_read_"), ("loop", "tc_write_")], [], ["tc_read, tc_write"])

p("C09", "Linked containers keep their structure and content",
  "Every operation of the doubly linked list, queue and stack containers leaves a well-formed chain whose forward and backward traversals visit the same elements, with the recorded count, head and tail matching. "
  "Insertion, removal and replacement change the sequence of elements exactly as requested (at the head, the tail or the current position) and DLL_GetNext and DLL_GetPrev move the position given by one element.",
  ["inputs", "histories"], "for every list length, position and element",
  "Tests build lists of a few elements.",
  [TU + "trick_adt/src/dllist.c", TU + "trick_adt/src/lqueue.c", TU + "trick_adt/src/lstack.c"],
  [("list operations", "DLL_*")], [("count/head/tail", "list structure", "DLLIST")], ["DLL_*", "LQ_*", "LS_*"])

p("C10", "Vector and matrix routines compute their algebraic definition",
  "Each fixed-size vector and matrix routine (addition, subtraction, scaling, dot and cross product, magnitude, normalisation, transpose, products in all transposed combinations, skew, inverse of a 3x3 matrix) yields the value its algebraic definition prescribes in every component, for all inputs, and reports a singular matrix instead of inverting it. "
  "Only the output is written, and documented in-place use gives the same result.",
  ["inputs"], "for every real-valued input",
  "Tests compare a few numeric examples; a wrong index or sign in one component can hide behind symmetric test data.",
  [TU + "math/src"], [("one routine per file", "dm_*, dv_*, d*x*")], [], ["trick_math.h"])

p("C11", "Attitude conversions agree with each other and preserve rotations",
  "Every Euler-sequence to matrix and Euler-sequence to quaternion conversion yields the composition of its three elementary rotations, so the matrix is a proper rotation and the quaternion has unit length and represents the same rotation. "
  "Back from a rotation matrix or unit quaternion, the recovered angles reproduce that rotation: clear of the +-90 degree singularity they are the original angles; at it, method 1 sets the last angle to zero and returns the singularity code, method 2 keeps the previous last angle and removes a full turn; an entry that no rotation can have is reported. "
  "Matrix to quaternion yields the unit quaternion of the matrix with non-negative scalar part; quaternion to matrix, quaternion products, quaternion normalisation and the rotation about a line yield the values their definitions prescribe.",
  ["inputs"], "for every triple of angles, every unit quaternion and every rotation matrix",
  "Tests use random generic angles with a loose comparison; the singular branches and the previous-value method are hit by almost no sampled angle.",
  [TU + "math/src"], [("conversions", "euler*, quat_*, mat_to_quat, RotAboutLineByAngle, dsingle_axis_rot (forward)")], [], ["trick_math.h"])

p("C12", "Table interpolation is exact multilinear interpolation inside the table only",
  "Looking up a table of any dimension at a point inside its breakpoint ranges returns the multilinear interpolation between the table entries at the breakpoints that bracket the point, and the entry itself at a breakpoint. "
  "A point outside the range of any parameter is rejected with an error, and no memory outside the table and breakpoint arrays is read.",
  ["inputs", "configurations"], "for every number of parameters, breakpoint grid, table and point",
  "Tests use one or two small tables.",
  [TU + "interpolator/src/Interpolator.cpp"], [("recursive evaluation", "Interpolator::eval")], [], ["Interpolator::eval"])

p("C13", "Each integration method performs the step its scheme defines",
  "For any number of state variables, any derivative function and any step size (positive for RKF45), one step of each stand-alone integrator (Euler, Heun, RK2, RK4, 3/8 RK4, RKF45, Euler-Cromer, Adams-Bashforth-Moulton) produces the new state its published scheme defines, evaluating derivatives at the stage times and stage states of that scheme. "
  "The independent variable advances by exactly the step, loading and unloading copy every state variable in order, and undoing a step restores the input state and time.",
  ["inputs", "programs"], "for every state size, derivative function, state, time and step size",
  "Tests integrate a few smooth functions to a tolerance; a wrong stage time or coefficient hides below the tolerance or behind autonomous test functions.",
  [TU + "SAIntegrator/src/SAIntegrator.cpp"], [("schemes", "*::variable_step, *::step")], [], ["SA::Integrator"])

p("C14", "Event-time estimators keep a bracket and propose its secant",
  "Whenever an event-time estimator (regula_falsi, RootFinder::find_roots) has seen values of both signs in the direction asked for, it proposes exactly the secant step through its bracket, which lands inside the bracket; otherwise it reports no estimate. Bracket end points are always the most recent negative and positive samples. "
  "It reports the event as reached (zero) only when the error is within tolerance, has stalled, or the attempts allowed (20) are used up, and in a direction-constrained mode only after the starting side was seen. Resetting discards the samples.",
  ["inputs", "histories"], "for every sequence of times and errors, tolerance and direction",
  "Tests follow a few monotone functions.",
  [SS + "Integrator/src/regula_falsi.c", SS + "Integrator/src/reset_regula_falsi.c", TU + "SAIntegrator/src/RootFinder.cpp"], [("secant", "regula_falsi"), ("secant", "RootFinder::find_roots"), ("reset", "reset_regula_falsi")], [], ["regula_falsi"])

p("C15", "Recorded samples reach the writer once, in order, and on schedule",
  "Every sample recorded into the buffer is handed to the file writer exactly once and in order, with the values the variables had when it was recorded (pointers followed anew each time), whatever the interleaving of record and write calls, whatever the buffer size and wherever the circular buffer wraps; samples are dropped only from a ring buffer (written when the simulation ends), and then exactly the oldest beyond its size. "
  "Recording on changes records the first call and then exactly the calls at which a watched variable differs from the call before; in step mode the previous values, at the present time, are recorded first. "
  "The next recording time is always the first scheduled one after the current time.",
  ["inputs", "histories", "schedules"], "for every buffer size, sample count and interleaving of record and write calls",
  "Tests record a few samples that never wrap the buffer.",
  [SS + "DataRecord/DataRecordGroup.cpp"], [("ring arithmetic", "DataRecordGroup::data_record, write_data")], [("buffer_num/writer_num/max_num", "ring state", "DataRecordGroup")], ["recorded file"])

p("C16", "Real-time overruns are counted and acted on exactly",
  "At every frame end in real-time mode the frame is an overrun exactly when the clock is past simulation time; consecutive overruns, total overruns and overrun time are counted exactly, and an on-time frame resets the consecutive count. "
  "The simulation is frozen or terminated exactly when the overrun count or the overrun time reaches its limit. An on-time frame waits for the sleep timer and then for the clock to reach simulation time. "
  "Enabling and disabling take effect at the next frame end (enabling not before time zero); starting, restarting, freezing and unfreezing set the clock and the timer so that simulation or freeze time continues without a jump.",
  ["inputs", "histories"], "for every sequence of clock readings, mode changes and every limit",
  "Timing cannot be controlled in tests; limits are hardly ever hit.",
  [SS + "RealtimeSync/RealtimeSync.cpp"], [("monitor", "RealtimeSync::rt_monitor"), ("start", "RealtimeSync::start_realtime, start_sleep_timer, restart"), ("freeze", "RealtimeSync::freeze_init, freeze_pause, unfreeze")], [], ["RealtimeSync"])

p("C17", "Unicode conversion encodes every code point correctly and stays in its buffer",
  "Encoding a Unicode code point as UTF-8, UTF-16 or UTF-32 yields the encoding the Unicode standard defines, so that decoding it gives back the code point; surrogates and values above 0x10ffff are refused and store nothing. "
  "The string conversions (UTF-8 to wchar_t, wchar_t to UTF-8, ASCII escapes to UTF-8, UTF-8 to ASCII escapes) never read past the input's terminator or write outside the output array, whatever the input bytes and the (positive) output size, and always terminate the output at the length they return. "
  "For well-formed input that fits, the output is exactly the concatenation of the conversions of its characters and escapes and the returned length is its length; input with stray, missing or truncated continuation bytes, incomplete or unknown escapes or values that are no code points, and output that does not fit, give length 0. "
  "The _len functions return the length the conversion would produce.",
  ["inputs"], "for every code point, every input string and every output size",
  "Tests convert a few strings with ample buffers.",
  [TU + "unicode/src/unicode_utils.c"], [("encoders", "ucodepoint_to_utf8, ucodepoint_to_utf16, ucodepoint_to_utf32"), ("string converters", "utf8_to_wchar, wchar_to_utf8, unescape_to_utf8, escape_to_ascii and their _len forms")], [], ["unicode_utils.h"])

p("C18", "Real clock readings scale consistently",
  "Clock time is elapsed wall-clock time since the reference, scaled by the tic ratio and the real-time ratio and rounded towards zero; resetting the clock to a time makes the clock read that time (to one wall-clock tic), adjusting the reference moves it by the wall-clock length of the adjustment, and changing the ratio does not make the reading jump. "
  "Aligning to the wall clock puts the reference on the next multiple of the alignment. Waiting for a time returns only once the clock has reached it.",
  ["inputs", "histories"], "for every ratio, tic rate, wall-clock reading and reference",
  "Tests cannot control the wall clock and use ratio one.",
  [SS + "Clock/Clock.cpp", SS + "Clock/GetTimeOfDayClock.cpp"], [("scaling", "Clock::clock_time, clock_reset, adjust_ref_time, set_rt_clock_ratio"), ("waiting", "Clock::clock_spin, sync_to_wall_clock"), ("source", "GetTimeOfDayClock::wall_clock_time")], [], ["Clock"])

p("C19", "Near-equality of floating-point numbers is a sound tolerance test",
  "The near-equality test is symmetric in its two values, true for identical finite values, false whenever a value is NaN or infinite, and otherwise true exactly when the values differ by no more than the effective tolerance and the tolerance is resolvable at their magnitude.",
  ["inputs"], "for every pair of doubles (floats) and every tolerance",
  "Floating-point corner cases are too many to sample.",
  [TU + "compareFloatingPoint/src/compareFloatingPoint.cpp"], [("comparison", "dbl_is_near, flt_is_near")], [], ["dbl_is_near"])

p("C20", "An address resolves to the allocation that contains it",
  "Looking up an address finds an allocation exactly when the address lies inside it, and then the one that contains it; looking up an exact start or a name finds only that allocation.",
  ["inputs", "histories"], "for every set of disjoint allocations and every address",
  "Tests look up a few addresses.",
  [SS + "MemoryManager/MemoryManager_alloc_info_map.cpp"], [("lookup", "MemoryManager::get_alloc_info_of")], [("alloc_info_map", "allocations by address", "MemoryManager")], ["MemoryManager::get_alloc_info_of"])

p("C21", "Variable-server binary messages are well formed and complete",
  "Every binary message the variable server sends has a header whose size and variable count match its content, never exceeds the maximum message size, and the messages of one update together contain every requested variable that fits in a message exactly once and in order.",
  ["inputs", "configurations"], "for every list of variables, sizes and names",
  "Tests send a few small variables.",
  [SS + "VariableServer/VariableServerSession_write_data.cpp"], [("chunking", "VariableServerSession::write_binary_data")], [], ["client socket"])

p("C22", "Checkpoint save and restore round-trips the simulation state",
  "Restoring a checkpoint gives every managed variable the value it had when the checkpoint was written.",
  ["histories", "crash_points", "programs"], "for every set of managed objects and every value",
  "Tests dump and reload a few objects.",
  [SS + "CheckPointAgent/ClassicCheckPointAgent.cpp"], [("dump and parse", "ClassicCheckPointAgent")], [], ["checkpoint file"])

p("C23", "Concurrent job threads neither deadlock nor run out of turn",
  "Child threads run each of their frames exactly once per trigger and the main thread waits for every thread it must synchronise with, without deadlock.",
  ["schedules"], "for every interleaving of the threads",
  "Tests see only the interleavings the machine happens to produce.",
  [SS + "Executive/Threads_child.cpp", SS + "Executive/ThreadTrigger.cpp"], [("trigger", "ThreadTriggerContainer")], [], ["Threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
