# level notes of the claimed properties, reasons of the others (read by manifest.py)
NOTES.update({
 "C06": "All five helper functions, every width, position, storage size and stored word: fully unrolled bit-vector obligations, no bound. Assumes only that clang's IR front end preserves the meaning of the source.",
 "C07": "Every scalar swap, the buffer walk (inferred and checked loop invariant, any length) and the single-parameter dispatch; tc_read/tc_write are assumed contracts inside tc_read_byteswap/tc_write_byteswap. Element size of at least 1.",
 "C10": "Doubles are treated as exact reals. Fixed-size routines: proof for all inputs; n x n routines: bounded, n <= 4 (labelled bounded in the evidence).",
})
NOTES["C11"] = "Doubles are exact reals; sin, cos, asin and atan2 by their defining identities. Method 1 within 1e-6 rad of (but not at) a singularity and method 2 within 1e-6 of it are outside the contract. Backward dsingle_axis_rot and RotVectorToNewOrientation are only tested natively, not proved."

NOTES["C01"] = "Any number of jobs (below 2^31), any keys, any position of the walk; libstdc++'s std::upper_bound is verified as compiled in. Assumes a pushed job is not already in the queue, allocation succeeds, and (execute_all_jobs) that a job does not itself change the queue it runs from. write_*_queue and instrument_* are not under contract."
NOTES["C02"] = "Any number of jobs; times and periods up to 2^61 tics so that no sum overflows; cycle * rate is a real product. Assumes a job is in a queue once."
NOTES["C03"] = "Any number of threads (below 2^31), any queues, any commands and job results. Queue walks are the contracts of C01/C02; a called job may change any command or time of the executive; other threads may finish at any moment (rely: child_complete and complete only go up). Fairness (that a thread finishes) is not decided: waiting loops are shown safe, not terminating. Termination on exec_terminate is the throw, not what follows."
NOTES["C14"] = "Doubles are exact reals; tolerance, direction, history and samples are arbitrary. The secant is only specified for distinct end times."
NOTES["C16"] = "Any clock, any timer, any executive (their results are unconstrained values below 2^60); doubles are exact reals. The run-ratio display (class Run_Ratio) is not under contract."
NOTES["C18"] = "Any wall clock; doubles are exact reals, tics stay below 2^52. clock_spin: partial correctness (a clock that never advances is waited for forever). Hardware clocks other than GetTimeOfDayClock are not under contract."
NOTES["C19"] = "IEEE comparison, classification and rounding-free operations are exact; addition and multiplication are arbitrary commutative functions (no conclusion needs more), so 'differs by more' is judged after rounding of smaller + tolerance."
NOTES["C04"] = "Any resolutions, any number of jobs, threads, events and pending freezes; doubles are exact reals (times below 2^60 tics). std::priority_queue is an assumed contract (a sorted sequence). The jobs told about the change are assumed to leave the executive's times alone."
NOTES["C05"] = "Any pending freezes (std::priority_queue is an assumed contract: a sorted sequence), any jobs, any commands given by them; queue walks are the contracts of C01/C02. Doubles are exact reals. That the freeze ends (a run command comes) is not decided. Termination is the throw, not what follows."
NOTES["C13"] = "Doubles are exact reals. Any number of state variables (below 2^30), any derivative function (a new unconstrained value on every call; it writes only its output array), any state and time, any step size (RKF45: step and tolerance positive); pow of a positive number is positive. State, derivative and output variables are pairwise different. Constructors, copies, assignment and stream output are not under contract. Histories of the Adams-Bashforth-Moulton methods are unrolled to the order of each method (5, 2 and 4), which is all there are."
NOTES["C17"] = "Any input string, any positive output size, any bytes: inferred and checked loop invariants, no bound. isprint is the C locale's; reading hex digits (strtol/sscanf) is an uninterpreted function of the digits read. Lead bytes 0xf8-0xff and overlong UTF-8 forms are unspecified input (memory safety is still proved). The high surrogate of ucodepoint_to_utf16 is a known finding."
NOTES["C15"] = "Any number of variables, watched variables and cycles, any buffer size, any position of the ring, any sizes of variables (8, 4, 2, 1 bytes and blocks): inferred and checked loop invariants, no bound. In step mode a buffer of one sample cannot hold the point before the step (not claimed). format_specific_write_data (the file formats), init/restart (allocation) and the dispatcher are not under contract; times are exact reals."
NOTES["C08"] = "Any size, any sequence of answers of the network (partial transfers, interruptions, would-block, errors, closing), any clock: inferred and checked loop invariants, no bound. Partial correctness: a network that never answers is waited for forever in blocking mode."
NOTES["C12"] = "Any number of parameters, any sizes, any table, any point (recursion by its own contract, the search by an inferred and checked loop invariant): no bound. Doubles are exact reals (no NaN). The variable-argument form only copies its arguments; it is run natively, not under contract."
NOTES["C09"] = "Any list length (below 2^31 - 1), any position (also one that is not in the list, or none), any data: the list is a sequence of node addresses (ghost), loops by inferred and checked invariants, no bound. The private search of dllist.c is proved once and used by its contract. The sort (bubble_sort) is only run natively; the string map (MapStrToPtr) is not covered."
NA["C20"] = "Decidable with this technique (contracts over a ghost set of disjoint intervals) but not built: the address look-up works on std::map<void*, ALLOC_INFO*> and the contracts of its red-black tree would have to be assumed for everything the property says."
NA["C21"] = "Not built: the messages are assembled in std::stringstream and std::vector of reference objects whose values come through the unit conversion library; nearly every callee would be an assumed contract, leaving little of the property proved."
NA["C22"] = "A round trip through text written by ClassicCheckPointAgent and read by a bison/flex grammar plus the generated attributes: parser tables are outside what contracts on functions can be discharged for here."
NA["C23"] = "Freedom from deadlock and turn-taking are liveness over pthread schedules; the contracts here decide safety of each function (C03 proves the hand-shake of each side against a rely condition), not that a turn eventually comes."
