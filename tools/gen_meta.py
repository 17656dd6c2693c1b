#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM, EXP, IDX = "sparsesim/src/lib.rs", "sparsesim/src/exp.rs", "sparsesim/src/index_map.rs"
BE, BEXP, RB = "backend/src/lib.rs", "backend/src/exp.rs", "backend/src/result_bool.rs"
STD = "stdlib/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, tech=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, tech=tech, na=na, level=level))

LOCK = "exhaustive lock-step exploration of the real implementation against a reference model (bounded, all operation sequences)"

# ---------------------------------------------------------------- simulator
prop("C01", "Every gate history acts as the product of its unitaries",
 "After any sequence of (multi-controlled) X, Y, Z, H, S, T, their adjoints, Rx/Ry/Rz rotations, phase gates and swaps on allocated qubits, the state the simulator holds equals the mathematical product of those unitaries applied to the initial state, up to one global phase. Which gates the simulator defers, merges, reorders or rewrites internally never changes that state.",
 ["programs","inputs"], "all gate sequences over all ordered choices of distinct qubits, all rotation angles, all prior states and identifier layouts",
 "unit tests run a few fixed circuits; the deferral rules interact per qubit pair (pending H x pending Rx x pending Ry x next gate x controls) and only some combinations, angles or identifiers misbehave",
 [SIM, IDX], [("gate entry points and deferral rules", SIM+": x/y/z/h/rx/ry/mc* functions"), ("flush", SIM+": flush_queue, flush_rx, flush_ry, apply_mch, mcrotation, apply_ops"), ("queue limit", SIM+": enqueue_op")],
 "Real QuantumSim executed on every gate sequence of the stated bounds (1-3 qubits full gate set, 4 qubits multi-controlled, every combination of deferred operations, special and very small angles, up to 6 control qubits densely and 513 otherwise, registers of 7-12 qubits, identifiers up to 300, walks of hundreds of gates, queue limit); dense reference state vector; tolerance 1e-8, global phase ignored.")
prop("C02", "Pauli exponentials act as exp(i theta P), with and without controls",
 "Applying an Exp rotation with Pauli string P and angle theta on targets transforms the state by exactly exp(i*theta*P), and the controlled form does so only on the subspace where every control is 1. This holds for every Pauli string (including identities), target order, angle, control set and prior state.",
 ["inputs","programs"], "all Pauli strings, targets, controls, angles and prior states, including pending deferred operations",
 "the single unit test uses one two-qubit string at one angle; sign and parity rules depend on the number of Y factors, on masks and on whether partner basis states are present",
 [EXP, BEXP], [("exponential", EXP+": exp, mcexp")],
 "All Pauli strings up to 3 (quick) / 4 (thorough) targets, 0-2 controls, 13 special and several very small angles, several prior states, deferred operations pending, strings of up to 513 letters, registers of 7-12 qubits, far identifiers; reference: dense exp(i theta P).")
prop("C03", "Applying an arbitrary unitary matrix has exactly its matrix semantics",
 "Applying a 2^k x 2^k unitary to k target qubits, optionally with controls, multiplies the state by that matrix with the first target as the most significant index bit, acting only where all controls are 1. The result is independent of how the qubits are laid out internally and of earlier allocations, releases and swaps.",
 ["inputs","histories"], "all unitaries, target/control lists, qubit layouts produced by any allocate/release/swap history",
 "tests use fresh registers in identity layout; layouts with holes, permuted or re-used locations are produced only by histories no test has",
 [SIM], [("matrix application and relocation", SIM+": apply, controlled, swap_qubit_state")],
 "Fixed library of non-symmetric unitaries x all target/control lists x layouts (identity, permuted, holes, reused, wide, far) x pending operations, up to 6 operands in all orders and registers of up to 20 qubits; reference matrix application.")
prop("C04", "Observing the simulator never changes what it computes",
 "State snapshots, dumps, probability and is-zero queries inserted anywhere in a program leave every later observation of that program unchanged (up to global phase). In particular forcing deferred work to be carried out early is invisible.",
 ["programs","histories"], "all programs and all positions and kinds of inserted observations",
 "tests observe at the end only; an observation that flushes partially or permutes the layout corrupts only certain later gates",
 [SIM], [("observations", SIM+": get_state, dump, joint_probability, qubit_is_zero")],
 "Every program of the bounds is executed twice on the real simulator, without and with every placement of observations (lists of up to 6 qubits, registers of up to 12); the two final states must agree.")
prop("C05", "Measurement obeys the Born rule and collapses consistently",
 "A (joint) measurement reports odd parity with exactly the probability the current state assigns to it, over the uniformly distributed random draw, and afterwards the state is the normalised projection onto the reported outcome, so repeating it gives the same answer. Forced collapse projects likewise and reports the prior probability, and no outcome of probability zero is ever reported.",
 ["programs","inputs","fault_sequences"], "all prior states and gate histories, all qubit subsets, all answers of the random number generator",
 "tests sample a handful of random outcomes; bias, off-by-epsilon outcomes and missing normalisation show only for particular states and draws",
 [SIM], [("measurement", SIM+": measure, joint_measure, force_collapse, check_joint_probability, joint_collapse")],
 "The harness owns the random number generator (scripted answers in a vendored rand): extremes and a grid k/N of draws are enumerated, outcome counts are compared with N*p (also for outcomes as rare as 1e-4, with draws around the threshold), post-states with the projection; up to 6 qubits densely, joint measurements of up to 513, post-selected walks of hundreds of measurements.")
prop("C06", "Probability and zero queries are exact in the presence of pending work",
 "At any point of any program the joint parity probability of any set of distinct allocated qubits equals the value defined by the state that history produces, and the is-zero query is true exactly when the qubit is certainly 0. Pending deferred operations, entanglement and the order of the qubit list never influence the answer.",
 ["programs","inputs"], "all programs, all qubit subsets in all orders",
 "tests query one or two fixed circuits with one ordering",
 [SIM], [("queries", SIM+": joint_probability, qubit_is_zero, maybe_flush_queue")],
 "Every query on every subset after every program of the bounds (1-4 qubits, then registers of up to 12 and lists of up to 513) is compared with the reference probability.")
prop("C07", "Qubit allocation and release preserve identity, freshness and the rest",
 "Allocation always returns the lowest identifier not in use and the new qubit is in state 0, unentangled, whatever happened to earlier holders of that identifier. Release measures the qubit away without disturbing the (conditional) state of all others, in any order and any number of times.",
 ["histories"], "all histories of allocate, release, swap, gates and measurements",
 "one test allocates and releases in one order; leftover deferred operations, stale locations and phase bookkeeping show up only for particular histories",
 [SIM, IDX], [("lifecycle", SIM+": allocate, release"), ("identifier map", IDX)],
 "All operation sequences over allocate/release/gates/swap/measure up to the depth bound with both outcomes of the hidden measurement followed in the reference; up to 300 qubits alive, long walks, and every kind of pending work on a qubit while others are allocated.")
prop("C08", "Invalid qubit use is rejected and never silently changes the state",
 "Any operation naming a qubit that is not allocated, or naming the same qubit twice where distinct qubits are required, fails loudly at the call; it is never applied to another qubit, silently ignored, or remembered for a later one.",
 ["inputs","histories"], "all operations, all invalid operand choices, all prior histories",
 "a few should_panic tests cover some operations in one state, most only at a later dump",
 [SIM, EXP], [("checks", SIM+": resolve_and_check_qubits, check_for_duplicates, enqueue_op, release"), ("exp checks", EXP)],
 "Every operation x every placement of an invalid or duplicate operand x a set of prior histories (pending operations, holes, one qubit, none, identifiers up to 300) must panic, and what follows a refused call behaves as if it had not been made; valid ones must not.")
prop("C09", "State snapshots and dumps are canonical and faithful",
 "A snapshot lists each basis state with non-zero amplitude exactly once, in ascending order, with total probability 1, where bit i belongs to the i-th smallest allocated identifier, and reports the number of allocated qubits; the textual dump lists the same states and amplitudes.",
 ["histories","programs"], "all histories of allocation, release, swaps, gates and measurements",
 "tests look at snapshots of small fresh registers; ordering, stale bits and negligible entries depend on the history",
 [SIM], [("snapshot", SIM+": get_state, dump, dump_impl")],
 "Snapshot and dump after every history of the bounds (and on registers of 7-12 qubits, far identifiers and long walks), checked for form and against the reference; repeated snapshots must agree.")
prop("C10", "Swapping qubit identifiers is exactly a swap of the qubits",
 "Swapping two identifiers exchanges the complete states of the two qubits, including all work still deferred on either of them, and affects no other qubit.",
 ["programs"], "all deferred-operation combinations on both qubits, all programs before and after",
 "the tests swap with at most one pending kind; each pending kind is moved by separate code",
 [SIM], [("swap", SIM+": swap_qubit_ids")],
 "All pairs of deferred-operation combinations x swaps (chains of swaps) x following gates, registers of up to 20 qubits and identifiers up to 300, in lock step with the reference.")
prop("C11", "Seeded simulations are reproducible",
 "Setting the same seed before the same program gives the same measurement results every time, and the random stream continues (is not restarted or replaced) when the simulator is re-initialised between shots. Different positions in the program draw fresh random numbers, different seeds give different random streams, and simulators without a seed do not share one.",
 ["programs","configurations","histories"], "all seeds, programs and numbers of shots",
 "a test compares one seed on one program; loss of the generator on one path needs a specific sequence of calls",
 [SIM, BE], [("seed", SIM+": set_rng_seed, take_rng, new"), ("backend", BE+": set_rng_seed, __quantum__rt__initialize")],
 "For every seed of a range and every program/shot split in the bounds, outcome words of repeated real runs are compared (same seed: equal; continuing after re-initialisation: equal to the unsplit run; positions within a run not all equal). Outcomes are not compared with any particular generator's stream.")
# ---------------------------------------------------------------- backend
prop("C12", "QIR gate intrinsics apply the named gate to the named qubits",
 "Every QIR gate entry point (body, adjoint, controlled, controlled-adjoint, rotations, two-qubit rotations, SX, swap, CCX, Exp) applies the unitary its name denotes to exactly the operands given, in the given roles. Qubits referenced statically come into existence in state 0 on first use.",
 ["inputs","programs"], "all intrinsics, operand choices, angles, control-array lengths and sequences",
 "tests touch a handful of intrinsics with one operand order; a swapped operand or sign in a rarely used variant passes",
 [BE, BEXP], [("intrinsics", BE+": gate macros, r/rxx/ryy/rzz/sx/swap"), ("exp", BEXP)],
 "All intrinsics x operand permutations x angles x control counts on generic prior states, all pairs and selected triples of intrinsics, very small angles, operand arrays of up to 513 qubits and far identifiers, executed through the C ABI; reference unitaries.")
prop("C13", "Result registers are independent memory cells",
 "Reading a result identifier returns the value most recently written or measured into that identifier, 0 if there was none, regardless of the order and magnitude of identifiers used; no access disturbs another identifier or the quantum state.",
 ["histories"], "all histories of measurements into, writes to and reads of result identifiers of any size",
 "tests use two or three small identifiers in order; growth of the register happens on several separate code paths",
 [BE], [("result register", BE+": mz, mresetz, read_result, write_result, result_record_output")],
 "All histories of write/measure/read/record over identifiers {0,1,2,63,64,200} up to depth 4 (quick) / 5, all pairs of identifiers, identifiers beyond 16 bits, and walks of hundreds of accesses.")
prop("C14", "Measurement and reset intrinsics act as specified",
 "m, mz, mresetz, reset and Pauli-basis measure report an outcome allowed by the state, leave the corresponding projection (rotated back to the original basis), and reset variants leave the qubit in state 0 without disturbing others. The stored or returned result is exactly the reported outcome.",
 ["programs","fault_sequences"], "all prior states, Pauli strings, qubits, result identifiers and random draws",
 "tests use eigenstates so that only one outcome occurs",
 [BE], [("measure intrinsics", BE+": m, mz, mresetz, reset, measure, map_to_z_basis")],
 "All Pauli strings up to 3 qubits x prior states x both random extremes, sequences of measurement intrinsics, strings of up to 513 letters and outcome counts on a grid of draws, in lock step with the reference.")
prop("C15", "Probability assertions accept exactly the right values and change nothing",
 "An assertmeasurementprobability call passes if and only if the probability of the given Pauli-parity result is within the given (finite) tolerance of the expected one; passing leaves the state unchanged, failing records the given message and stops the program. The controlled form behaves identically.",
 ["inputs","programs"], "all Pauli strings, results, expected probabilities, tolerances and prior states",
 "tests use the passing side only, on simple states",
 [BE], [("assertion", BE+": assertmeasurementprobability body/ctl")],
 "Pauli strings x results x expected probabilities on both sides of the tolerance (from 1e-13 on) x states, strings of up to 513 letters; failing cases run in forked processes and must abort with the message.")
prop("C16", "Initialising the runtime isolates shots from each other",
 "After re-initialisation no qubit, result, amplitude, pending operation or identifier of the previous program remains: any program then behaves exactly as in a fresh process (apart from the random stream).",
 ["histories"], "all pairs of a preceding partial program and a following program",
 "multi-shot tests repeat one well-behaved program that cleans up after itself",
 [BE], [("initialise", BE+": __quantum__rt__initialize")],
 "All (dirty history, probe program) pairs of the bounds: the probe's observations after initialise equal those in a fresh thread.")
prop("C17", "Simulations on different threads do not influence each other",
 "Whatever the interleaving of runtime calls from different threads, each thread observes exactly what it would observe if it ran alone: qubits, results, recorded output and states are private to a thread.",
 ["schedules"], "all interleavings of the threads' call sequences",
 "no test runs two simulations concurrently with checks on both",
 [BE, STD+"output_recording.rs"], [("thread-local simulator", BE+": SIM_STATE"), ("thread-local output", STD+"output_recording.rs: OUTPUT")],
 "A controlled scheduler executes every interleaving of the calls of two and three threads, and within calls every placement of one preemption (and bounded ones of two, and of alternation) at allocations, deallocations and random draws and at every instruction that is atomic or touches the executable's statics (found by single-stepping); every observation is compared with the solo run.")
prop("C18", "Qubit arrays own their qubits and memory exactly once",
 "Allocating a qubit array yields that many distinct fresh qubits in one array object; releasing it releases each qubit and the creator's reference exactly once, so memory is freed iff no other reference exists and other references remain usable.",
 ["histories"], "all sizes, reference/alias histories and orders of release",
 "tests never look at memory and never hold a second reference",
 [BE, STD+"arrays.rs"], [("arrays of qubits", BE+": qubit_allocate_array, qubit_release_array")],
 "All operation histories over allocate array/release array/retain/copy up to a depth under a tracking allocator (leak, double free, use after free) plus identifier checks.")
prop("C19", "Recorded results and machine dumps describe the true values",
 "Recording a result emits 1 or 0 according to the value held for that identifier (or the dynamic result constant when no static results exist), for both output dialects, with the tag verbatim; dumping the machine emits the result register and the state the simulator holds.",
 ["histories"], "all histories of measurements, writes and recordings; all tags",
 "tests inspect a single result at a time",
 [BE, RB, STD+"output_recording.rs"], [("record", BE+": result_record_output, legacy_output, dumpmachine"), ("dynamic results", RB)],
 "All histories of result operations followed by recordings in both dialects; the output bytes are compared with the model's.")
# ---------------------------------------------------------------- stdlib
prop("C20", "Reference counting frees each runtime object exactly once, at zero",
 "A runtime object (array, tuple, callable, string, big integer) stays intact as long as its reference count is positive and its memory is released exactly when the count reaches zero, for every history of count updates of any size and sign; alias counts given back before the last reference never free or leak anything, and an alias count below zero is refused.",
 ["histories"], "all histories of reference and alias count updates, copies and uses",
 "tests do a create and a single decrement; leaks and early frees are invisible to them",
 [STD+"lib.rs", STD+"arrays.rs", STD+"tuples.rs", STD+"callables.rs", STD+"strings.rs", STD+"bigints.rs"], [("counts", STD+"lib.rs: update_counts")],
 "All update histories up to the depth bound per object kind under a tracking, poisoning allocator; model: the two counters.")
prop("C21", "Copies are private exactly when they have to be",
 "Copying an array, tuple or callable returns a distinct object with equal contents when forced or when an alias exists, and otherwise the same object with one more reference; a write or functor change through one object is seen by another iff they are the same object.",
 ["histories"], "all histories of alias, copy, write and release",
 "tests check one aliased and one unaliased copy",
 [STD+"arrays.rs", STD+"tuples.rs", STD+"callables.rs"], [("copy", STD+"arrays.rs: array_copy; tuples.rs: tuple_copy; callables.rs: callable_copy")],
 "All histories over two handles of create/alias/copy/write/release up to the depth bound; model: a heap of objects.")
prop("C22", "Array contents: creation, indexing, concatenation and slicing are exact",
 "New arrays are zero-filled with the requested length; element i is a distinct in-bounds cell; concatenation is the sequence of the first's then the second's elements, leaving both unchanged; slicing by any range with non-zero step yields exactly the elements the range denotes, in order.",
 ["inputs"], "all element sizes, lengths, contents and ranges (start, step, end)",
 "tests slice one array with a few ranges",
 [STD+"arrays.rs", STD+"range_support.rs"], [("arrays", STD+"arrays.rs"), ("slices", STD+"range_support.rs: quantum__rt__array_slice_1d")],
 "All lengths <= 7 (10) x element sizes 1-24 x all ranges whose elements exist plus empty ranges (bounds and steps up to the 64-bit limits), all pairs of arrays for concatenation, long arrays with every step, elements and lengths beyond 16 bits, against plain vectors.")
prop("C23", "Big integers behave as mathematical integers",
 "Creation from 64-bit values and byte arrays, arithmetic, bitwise operations, shifts, powers, comparisons and conversion to text or bytes give the mathematically defined result of unbounded signed integers, without modifying their operands.",
 ["inputs"], "all operands of any magnitude and sign",
 "tests use a few small operands per operation",
 [STD+"bigints.rs"], [("big integers", STD+"bigints.rs")],
 "All operand pairs from a boundary grid (small values, powers of two +-1 up to 2^130, both signs, operands of several hundred digits) for every operation against an independent digit-vector implementation.")
prop("C24", "Strings and conversions to text are exact and reversible",
 "Strings are created, measured, compared and concatenated byte-exactly; integers, doubles, booleans, Paulis, ranges, big integers, qubits and results convert to text that denotes exactly that value (a double's text parses back to the same double and is distinguishable from an integer).",
 ["inputs"], "all byte strings and all values",
 "tests convert a few values",
 [STD+"strings.rs", STD+"range_support.rs", RB, BE], [("strings", STD+"strings.rs"), ("range", STD+"range_support.rs: range_to_string")],
 "All strings up to length 3 over a byte alphabet incl. non-UTF-8; doubles over all exponents x boundary mantissas x signs (and specials) parsed back; boundary integers; all small ranges.")
prop("C25", "Callables dispatch to the right specialisation with flattened controls",
 "Invoking a callable runs the body, adjoint, controlled or controlled-adjoint entry according to how many times adjoint (parity) and controlled (any) were applied, passes the captured tuple and arguments unchanged, merges nested control lists in order outermost first, and leaves no memory behind; capture count updates reach the registered functions.",
 ["histories","inputs"], "all sequences of functor applications and copies, all nested control list lengths, null or present arguments and tables",
 "tests have one nesting of controls and one adjoint",
 [STD+"callables.rs"], [("invoke", STD+"callables.rs: callable_invoke, make_adjoint, make_controlled, capture_update_*")],
 "All functor words up to length 4/6 x control-list lengths 0-3 per level, with copies and invocations in between, up to 300 levels and 2000 controls, invocations from within invocations, under the tracking allocator; model: (parity, depth).")
prop("C26", "Output recording is lossless, ordered and goes to the selected stream",
 "Every recording call appends exactly one record of the documented form (type, value, optional tag, line end) to the currently selected destination in call order; in buffered mode draining or reading returns every byte exactly once, and switching destination loses or duplicates nothing.",
 ["histories","inputs"], "all sequences of recording calls, destination switches, drains and partial reads; all values and tags",
 "tests check single records in the buffer",
 [STD+"output_recording.rs"], [("recorder", STD+"output_recording.rs: OutputRecorder, record_output, legacy")],
 "All call sequences up to the depth bound over all record kinds, destination switches, drains and reads of several sizes, records of up to a megabyte and thousands of records, standard output captured in a forked process; model: two byte streams.")
prop("C27", "Math intrinsics return the mathematically specified values",
 "Elementary functions return the host's correctly specified value for every input including NaN, infinities and signed zeros; the IEEE remainder is exact; classification predicates are true exactly for their class; random draws lie within the inclusive bounds, an integer draw can reach every value of its range, and an inverted range is refused.",
 ["inputs","fault_sequences"], "all doubles and integer bounds, all random draws",
 "tests check few ordinary values; remainder ties and special values are untested",
 [STD+"math.rs"], [("math", STD+"math.rs")],
 "Exhaustive grid of boundary doubles (pairs for binary functions) against exact rational arithmetic for the remainder and libm for the rest; random draws enumerated over scripted generator answers.")
prop("C28", "Failures are reported once and stop the program",
 "A failing runtime call (explicit fail, mismatched arrays, bad bounds, double release, overlong or unimplemented requests) records the message as an INFO record when it has one and then terminates; control never returns to the program and earlier output is preserved.",
 ["inputs","fault_sequences"], "all failing calls and messages, after any earlier output",
 "failure tests are ignored or only see the panic message",
 [STD+"lib.rs", STD+"math.rs", STD+"arrays.rs", BE], [("fail", STD+"lib.rs: __quantum__rt__fail, __quantum__rt__message")],
 "Every failing entry point x messages x preceding outputs in a forked process: output bytes, abnormal termination and non-return are checked.")
prop("C32", "Runtime calls only borrow their arguments and leave no memory behind",
 "A runtime call that is given an array, tuple, string or big integer to read leaves its contents, reference count and alias count as they were; an object a call returns has exactly one reference; and a program that gives up what it created leaves nothing behind, so running it any number of times (with the runtime re-initialised and the output drained in between) needs no more memory than running it twice.",
 ["histories","inputs"], "all runtime functions, argument values and sequences of calls and runs",
 "no test looks at memory across calls of gates, measurements, assertions, conversions or arithmetic; a leaked or doubly released temporary shows only in long runs or in the caller's next use",
 [BE, BEXP, STD+"strings.rs", STD+"bigints.rs", STD+"arrays.rs", STD+"tuples.rs", STD+"range_support.rs", STD+"output_recording.rs"], [("temporaries of controlled and adjoint forms", BE+": r__ctl, r__ctladj, assertmeasurementprobability, measure; "+BEXP+": exp__ctladj"), ("returned objects", STD+"strings.rs, "+STD+"bigints.rs, "+STD+"arrays.rs")],
 "All sequences of up to 2 (thorough 3) calls over one representative of every runtime function and operand shape, each sequence run three times in a fresh thread under the tracking allocator; every lent object is inspected and released after the call, live blocks after runs two and three are compared.")
prop("C33", "Foreign programs get the declared runtime functions and their own handlers",
 "Every function the C header declares is listed in the module definition file and exported by the static library under its C name, and a program compiled against the header gets the behaviour the header describes for every argument its types can express. This holds for every selection of the library's features: without fail-support or message-support the library builds, calls the program's own failure or message handler exactly once with the message, and never continues past a failure; with them it reports the message itself. Every function the runner binds by name is exported under that name.",
 ["inputs","histories","configurations"], "all declared functions, argument values, sequences of calls and feature selections",
 "all tests are Rust programs that find the functions by their Rust path, with the default features: exported names, the header, the types in it and the other feature selections are never used",
 [STD+"lib.rs", STD+"arrays.rs", STD+"math.rs", "stdlib/include/qir_stdlib.h", "stdlib/include/qir_stdlib.def"], [("declarations", "stdlib/include/qir_stdlib.h"), ("handlers by feature", STD+"lib.rs, "+STD+"arrays.rs, "+STD+"math.rs: cfg(feature = ...) of fail and message"), ("exported names", "stdlib/src, backend/src: no_mangle functions")],
 "A C++ program compiled against the real header is linked with the static library built with each of three feature selections; all boundary argument combinations per function, all words over sharing operations of length 4 (thorough 5) for arrays and tuples and over functors and copies of length 4 (6) for callables, all failing calls in a child process; every declared, listed and bound name is looked up in the library.")
# ---------------------------------------------------------------- runner
prop("C29", "The runner executes the selected entry point the requested number of times",
 "For a module given as text, bitcode or file, through any of the runner's functions or its command line, exactly the selected entry point (or the only one) is run once per shot. Every shot starts from freshly initialised qubits and results and prints START, one METADATA line per string attribute of the entry point, the records the program made in order, and END, and the same seed gives the same measurement results. A missing, ambiguous or parameterised entry point, an unreadable or invalid module and wrong arguments are errors, a shot that fails stops the run without an END, and nothing of one run carries over into the next.",
 ["programs","configurations","histories"], "all modules and input forms, sets of entry points, names, attributes, shot counts, seeds, arguments and sequences of runs",
 "integration tests need the LLVM binding and run one program each; selection, metadata, shots, failure points and left-over state multiply",
 ["runner/src/lib.rs", "runner/src/cli.rs"], [("run loop", "runner/src/lib.rs: run_module, run_entry_point"), ("selection", "runner/src/lib.rs: choose_entry_point, is_entry_point"), ("inputs", "runner/src/lib.rs: run_file, run_input, run_bytes, run_bitcode, load_file"), ("command line", "runner/src/cli.rs: main")],
 "The real runner, compiled against a stand-in for inkwell over the installed LLVM 18, runs every module of the bounds: all sets of 1-2 (thorough 3) functions x attributes x parameters x selections, all attribute sets, all programs of 3 (4) operations x shot counts and seeds compared with direct calls, 14 input forms, every truncation, every failing shot, all command-line combinations, all sequences of 2 (3) runs.")
prop("C30", "Every declared runtime function of a program is bound to its implementation",
 "A program may call any function the README documents, in the labelled or the unlabelled output dialect, and each call acts exactly as a direct call of the function of that name with the same arguments. A program that uses an unknown function, a known one with a wrong number of parameters, or both output dialects is refused, naming the functions, before anything runs; functions that the program defines itself or does not use need no binding.",
 ["programs"], "all functions, numbers of parameters, names, combinations of output functions and argument values",
 "no test declares every function; a swapped or missing binding shows only for the program that uses it",
 ["runner/src/lib.rs"], [("binding", "runner/src/lib.rs: bind_functions")],
 "Every documented function x its argument choices, and all pairs of functions, as LLVM IR executed by the real runner and by direct calls, outputs and final state compared; every name with 0-7 parameters, every combination of the output functions in both dialects, all near names.")
prop("C31", "The Python package gives what the runner prints",
 "Running a module through the Python API gives the same records as the runner for the same module, entry point, shots and seed: all of them to the callback, in order and nothing to standard output, or to standard output when there is no callback, whatever calls came before. An error of the runner becomes a RuntimeError with its message, and the output handler returns the concatenation of what it received.",
 ["programs","configurations","histories"], "all modules, shots, seeds, callbacks and sequences of calls",
 "the Python tests do not run here and use two programs; routing of the output depends on the mode left by earlier calls",
 ["pip/src/python.rs", "pip/qirrunner/__init__.py"], [("python binding", "pip/src/python.rs: run, run_bytes, main, OptionalCallbackReceiver"), ("output handler", "pip/qirrunner/__init__.py: OutputHandler")],
 "The real binding, compiled against a stand-in for pyo3, is called with every combination of program, form, entry point, shots, seed and output mode of the bounds and in every sequence of 3 (4) calls and compared with the runner; the real Python handler is run on every sequence of up to 5 (7) chunks.")

DONE = sys.argv[1:] or json.load(open(os.path.join(V, "tools/done.json")))
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
        if p["id"] in DONE:
            checks.append(dict(property=p["id"], quick_cmd=f"bash /verif/run.sh run {p['id']} quick",
                thorough_cmd=f"bash /verif/run.sh run {p['id']} thorough",
                technique=p["tech"] or LOCK, level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] if p["na"] and p["na"] != "pending" else "check not built yet"))
m = dict(version=1, setup_cmd="bash /verif/run.sh build",
    hooks=dict(guard="none", enable="no hooks are needed: the harness uses the crates' public API and C ABI", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
