import json
L="sparsesim/src/lib.rs"; X="sparsesim/src/exp.rs"; B="backend/src/lib.rs"; BX="backend/src/exp.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
Q=[("pending gates","per-qubit pending H/Rx/Ry and a list of pending gates that have been requested and not yet applied",L+" struct QuantumSim"),("amplitudes","sparse list of basis states and complex amplitudes",L+" struct QuantumSim")]
p("C01","Single-qubit gates act as their exact unitaries in program order",
 "For every sequence of single-qubit gates X, Y, Z, H, S, S-adjoint, T, T-adjoint, SX, Rx, Ry and Rz (any angles), in any interleaving over any qubits, the quantum state seen when it is next observed equals the one obtained by applying each gate's unitary matrix immediately and in program order, up to one global phase. How many gates were requested since the last observation, and which ones, makes no difference.",
 ["programs","inputs"],"all gate sequences, all starting states, all rotation angles, all placements of observations between the gates",
 "The tests compare a handful of fixed sequences; which gates are applied lazily, commuted, merged or cancelled depends on the whole sequence since the last flush, and a wrong sign or lost gate shows only for particular combinations.",
 [L,B],[("x/y/z/h/rx/ry and the commutation rules",L+" fn x, y, z, h, rx, ry"),("flushing",L+" fn flush_queue, flush_rx, flush_ry, flush_ops, mcrotation, apply_mch"),("QIR entry points",B+" single_qubit_gate!, single_qubit_rotation!, sx")],Q,["QuantumSim::get_state","capture_quantum_state"])
p("C02","Controlled gates act as their exact controlled unitaries in program order",
 "For every gate with a controlled form (X, Y, Z, H, S, T and adjoints, Rx, Ry, Rz, phase; CNOT, CX, CY, CZ, CCX), any number of controls, and whatever gates are still pending on the controls and target, the state equals the one obtained by applying the controlled unitary at that point of the program, up to one global phase (so relative phases between control branches are exact). A controlled gate with an empty control list equals the plain gate.",
 ["programs","inputs"],"all programs mixing controlled and uncontrolled gates, all control counts and orders, all pending-gate situations on each operand",
 "Tests apply each controlled gate to qubits in few pending situations (mostly none, or H); the special cases (control/target exchange, extra phases on controls, one-H rewriting) depend on the joint pending situation of all operands.",
 [L,B],[("multi-controlled gates",L+" fn mcx, mcy, mcz, mch, mcs, mct, mcrx, mcry, mcrz, mcphase"),("QIR entry points",B+" controlled_qubit_gate!, multicontrolled_qubit_gate!, multicontrolled_qubit_rotation!")],Q,["QuantumSim::get_state","capture_quantum_state"])
p("C03","Pauli rotations and exponentials act as exp of the named Pauli string",
 "For every Pauli string, angle, list of distinct targets and list of controls, the Pauli exponential, the single-Pauli rotation, the two-qubit XX, YY and ZZ rotations, and their adjoint, controlled and controlled-adjoint forms change the state by exactly exp(i*theta*P) (exponential) or exp(-i*theta/2*P) (rotations), restricted to the branch where all controls are one, up to one global phase. Identity factors contribute only a phase, which is relative when there are controls.",
 ["inputs","programs"],"all Pauli strings and angles, all target and control orders, all preceding programs",
 "Tests use a few strings, angles and control counts; the sign and phase depend on the parity and number of Y factors, on the sparsity pattern of the state and on the order of targets.",
 [X,L,BX,B],[("Pauli exponential",X+" fn mcexp"),("joint rotations",B+" rxx, ryy, rzz, r body/adj/ctl/ctladj"),("QIR exponentials",BX+" exp body/adj/ctl/ctladj")],Q)
p("C04","Applying a user-supplied unitary acts as that matrix on the named qubits",
 "For every unitary matrix of matching size, ordered list of distinct targets (first target most significant) and optional controls, applying it changes the state by exactly that matrix on those qubits, controlled when controls are given, whatever the qubits' identifiers, their order, the history of allocations, releases and swaps, and the gates pending on any qubit. No other qubit is affected.",
 ["inputs","histories","programs"],"all unitaries on up to the supported number of qubits, all target and control orders, all allocation histories",
 "The tests apply matrices to freshly allocated registers with adjacent, ordered qubits; operand permutation, holes left by released qubits and pending gates elsewhere are not sampled.",
 [L],[("apply",L+" fn apply, controlled, swap_qubit_state")],Q)
p("C05","Measurement follows the Born rule, collapses, and repeats",
 "Measuring a qubit, or jointly measuring the parity of qubits in any Pauli bases, returns each outcome with exactly its quantum-mechanical probability, leaves the state projected onto the returned outcome and normalised with all other relative amplitudes kept, and the same measurement repeated immediately returns the same outcome. An outcome of probability zero is never returned.",
 ["programs","inputs","histories"],"all programs before the measurement, all qubits and Pauli strings, all random seeds",
 "Tests check a few states and outcomes; the probability and post-measurement state depend on gates still pending at the time of measurement, on entanglement and on the random source.",
 [L,B],[("measure",L+" fn measure, joint_measure, collapse, joint_collapse, check_joint_probability"),("Pauli bases",B+" map_to_z_basis, unmap_from_z_basis, measure, m, mz")],Q)
p("C06","Allocation gives fresh zero qubits; release disturbs no other qubit",
 "For every history of allocations, releases and gates, an allocation returns the lowest identifier not in use and a qubit in state |0> unentangled with everything, and leaves the state of all other qubits unchanged; a release removes the qubit exactly as measuring and discarding it would, leaving every other qubit (identifier, state and pending gates) as that measurement leaves it. Array forms allocate and release exactly the given number of distinct qubits.",
 ["histories","programs"],"all interleavings of allocate, release and gates, all subsets of identifiers in use",
 "The tests release a few qubits in a fixed order, all in basis states; identifier and storage reuse after releases in superposition, with pending gates or after swaps is not sampled.",
 [L,B],[("allocate/release",L+" fn allocate, release"),("QIR lifecycle",B+" qubit_allocate, qubit_allocate_array, qubit_release, qubit_release_array")],
 Q+[("id map","which storage location holds each identifier",L+" id_map")])
p("C07","Swapping exchanges exactly two qubits; observing the state never changes it",
 "Swapping two qubits exchanges their roles exactly (including gates still pending on either) and touches nothing else. Taking a state snapshot, dumping the machine, or querying a probability never changes the result of anything done afterwards, and the snapshot is sorted, normalised, lists each basis state once, reports the number of allocated qubits and numbers qubits by increasing identifier whatever the history of swaps, allocations and releases.",
 ["histories","programs"],"all histories of swaps, allocations, releases and gates, and all placements of observations among them",
 "Tests observe the state at most at the end and after at most one swap; the snapshot itself rearranges internal storage, so its effect on what follows depends on the history.",
 [L,B],[("swap",L+" fn swap_qubit_ids, swap_qubit_state"),("snapshot and dump",L+" fn get_state, dump"),("QIR",B+" swap, capture_quantum_state, dumpmachine")],Q)
p("C08","Statically addressed qubits and results behave like a register of slots",
 "Programs that name qubits and results by constant numbers see every qubit start in |0> on first use, whatever the order or gaps in the numbers; measuring into a result number stores that outcome there until it is overwritten, never-written results read as zero, and each result number is independent. Reset, and measure-and-reset, always leave the qubit in |0> and return or store the outcome of the measurement made.",
 ["programs","histories"],"all programs over static qubit and result numbers in any order of first use",
 "Tests use a few numbers in increasing order; growth of the result store and of the qubit register depends on the order and size of the numbers used.",
 [B],[("qubit register growth",B+" ensure_sufficient_qubits"),("result store",B+" mz, mresetz, reset, read_result, write_result, result_record_output")],
 [("results","stored measurement outcomes by number",B+" SimulatorState.res")])
p("C09","Same seed gives the same outcomes; initialisation isolates shots",
 "With the random seed set, the whole sequence of measurement outcomes of a program run for any number of shots is reproducible, and it does not depend on anything executed before the seed was set. Initialising the runtime gives a program a state with no qubits, no stored results and nothing pending left over from what ran before, while continuing the random sequence so that successive shots draw fresh outcomes.",
 ["histories","programs","configurations"],"all programs, seeds, shot counts and prior histories",
 "Tests seed once and compare one stored output of one program; leftovers from an earlier shot, or randomness from another source, show only for particular histories.",
 [L,B],[("seeding",L+" fn set_rng_seed, take_rng"),("initialize",B+" set_rng_seed, __quantum__rt__initialize")])
p("C10","Probability queries, zero checks, assertions and forced collapse are exact",
 "For every state, qubit list and Pauli string, the reported parity probability equals the quantum-mechanical one, the zero check is true exactly when the qubit is certainly |0>, and a measurement-probability assertion passes exactly when the true probability is within the tolerance, without changing the state. Forcing an outcome returns its probability beforehand and leaves the projected normalised state, or leaves the state unchanged when that probability is zero.",
 ["inputs","programs"],"all programs before the query, all qubit subsets, Pauli strings, tolerances and outcomes",
 "Tests query few states in the computational basis; results depend on gates pending at the time of the query and on the whole list of qubits.",
 [L,B],[("queries",L+" fn joint_probability, qubit_is_zero, force_collapse"),("assertion",B+" assertmeasurementprobability body/ctl, qubit_is_zero")],Q)
p("C11","Invalid qubit use fails and never silently changes a state",
 "An operation on a qubit that is not allocated (never allocated, or released), one naming the same qubit twice among its controls and targets, or a unitary whose matrix is not square or does not match its targets ends in failure no later than the next observation of the state, for every operation and every history. It never takes effect on another qubit or on a qubit allocated afterwards.",
 ["histories","inputs","fault_sequences"],"all operations with at least one invalid operand, after all histories",
 "Tests check duplicates for a few gates on a fresh simulator; requests are validated lazily, so whether an invalid one is caught depends on the operation and on what follows it.",
 [L,X],[("operand checks",L+" fn check_for_duplicates, resolve_and_check_qubits, check_allocated, take_ops, release, apply"),("exponential",X+" fn mcexp")],Q)
p("C12","Every recorded output appears once, in order, in its documented form",
 "For every sequence of output-recording calls (result, bool, int, double, array, tuple with or without a label; legacy forms; messages), the output is exactly one line per call, in call order, with the record type, the exact value and the label when one is given. In buffered mode the lines accumulate until drained and draining returns each byte exactly once; values are rendered so that they can be read back exactly.",
 ["programs","inputs","histories"],"all call sequences, values, labels and drain points",
 "Tests render one value per record kind; ordering, label handling and draining across several calls and shots are histories.",
 ["stdlib/src/output_recording.rs",B,"stdlib/src/lib.rs"],[("recorder","stdlib/src/output_recording.rs OutputRecorder, record_output, record_output_str, legacy"),("results",B+" result_record_output, legacy_output")])
p("C13","Runtime objects live exactly while referenced",
 "For every balanced sequence of creations, copies and reference-count updates of arrays, tuples, callables, strings, big integers and qubit arrays, an object stays readable and unchanged as long as its reference count is positive and all its memory is returned when the count reaches zero, whatever happens to its alias count. Alias updates never change the contents or free the object, and driving an alias count below zero fails.",
 ["histories"],"all interleavings of create, copy, derive, alias and reference updates of any size over any number of objects",
 "Tests create and drop single objects with updates of one; early frees, leaks and double frees need particular combinations of counts, and no test observes deallocation.",
 ["stdlib/src/lib.rs","stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/callables.rs","stdlib/src/strings.rs","stdlib/src/bigints.rs",B],[("counting","stdlib/src/lib.rs fn update_counts"),("constructors","stdlib/src/{arrays,tuples,callables,strings,bigints}.rs"),("qubit arrays",B+" qubit_release_array")],
 [("counts","reference and alias count per object","stdlib/src/lib.rs update_counts")])
p("C14","Arrays and tuples keep their contents; copies are independent when they must be",
 "For every element size, length and content, arrays and tuples start zeroed, hold exactly what is stored, report their length, and concatenation and slicing by any valid range (any start, step of either sign and end, including empty ones) give new arrays with exactly the selected elements in order. A copy is a distinct, equal and independent object when it is forced or the original has aliases, and otherwise the same object with one more reference.",
 ["inputs","histories"],"all element sizes, lengths, contents, ranges, and alias and reference states at the time of copying",
 "Tests use arrays of a few bytes and five ranges; byte arithmetic on element sizes, negative steps and non-dividing ranges, and copies under each alias state are not sampled.",
 ["stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/range_support.rs"],[("arrays","stdlib/src/arrays.rs"),("tuples","stdlib/src/tuples.rs"),("slices","stdlib/src/range_support.rs array_slice_1d")])
p("C15","Callables dispatch to the right specialisation with flattened controls",
 "For every sequence of adjoint and controlled functor applications and copies, invoking a callable runs the body, adjoint, controlled or controlled-adjoint implementation according to the parity of adjoints and whether any control was added, once, with the original captured values, a single control list that concatenates the nested lists outermost first, the innermost arguments and the caller's result location. The caller's argument tuples and arrays are left unchanged with unchanged counts, copies are independent, and capture callbacks run with the given change exactly when present.",
 ["programs","histories"],"all functor sequences, nesting depths, control list lengths, copies and capture tables",
 "Tests nest at most two controls and one adjoint in fixed orders; argument restructuring and the matching reference counts depend on depth and on who else holds the lists.",
 ["stdlib/src/callables.rs"],[("invoke","stdlib/src/callables.rs callable_invoke"),("functors","stdlib/src/callables.rs make_adjoint, make_controlled, copy"),("captures","stdlib/src/callables.rs capture_update_*_count")])
p("C16","Strings and value-to-text conversions are exact",
 "For every text, created strings keep their exact bytes and length, equality is byte equality, and concatenation is byte concatenation leaving its operands unchanged. For every integer, double, boolean, Pauli, result, range, qubit and big integer the text form is the canonical one and distinct values have distinct texts; whole doubles show one decimal digit and parsing a finite double's text gives back the same double.",
 ["inputs"],"all byte strings and all values of each convertible type",
 "Tests convert one or two values per type; extremes, signs, non-ASCII text and large doubles are not sampled.",
 ["stdlib/src/strings.rs","stdlib/src/range_support.rs","backend/src/result_bool.rs",B],[("strings","stdlib/src/strings.rs"),("ranges","stdlib/src/range_support.rs range_to_string"),("results and qubits","backend/src/result_bool.rs; "+B+" qubit_to_string")])
p("C17","Big-integer operations are exact integer arithmetic",
 "For all integers of any size and sign, negation, addition, subtraction, multiplication, power, shifts, bitwise operations on infinite two's complement, comparisons and equality give the mathematically exact result; division truncates toward zero with a remainder of the dividend's sign such that dividend = quotient*divisor + remainder. Creation from and export to little-endian two's-complement bytes round-trip, operands are never modified, and text is exact decimal.",
 ["inputs"],"all pairs of integers of any length and sign, all shift amounts and exponents",
 "Tests use small positive examples; sign combinations, byte-boundary lengths and shifts of negative numbers are not sampled.",
 ["stdlib/src/bigints.rs"],[("operations","stdlib/src/bigints.rs")])
p("C18","Math functions and random draws honour their contracts",
 "NaN and infinity constructors and tests classify every double correctly, the elementary functions agree with their mathematical definitions at every argument (including symmetry, quadrant and domain edge behaviour), and the IEEE remainder is x - n*y with n the nearest integer to x/y and ties to even. Random draws lie within the inclusive bounds, reach every value of a small range and every quarter of a wide one, and fail when minimum exceeds maximum.",
 ["inputs"],"all doubles, all integer bounds, all draws",
 "Tests evaluate each function at a few points; ties, quadrants and single-value or full-width ranges are not sampled.",
 ["stdlib/src/math.rs"],[("functions","stdlib/src/math.rs")])
p("C19","A failing program reports its message and stops",
 "For every message text, failing records the message exactly once as an informational line (escaped so that it stays one line) after everything recorded before and nothing after, and ends the program abnormally; this holds for explicit failure and for every documented failing condition (size mismatches, failed assertions, invalid random bounds). Recording a message does not consume or change the string and lets the program continue.",
 ["fault_sequences","inputs"],"all message texts, all failing conditions, all outputs recorded before",
 "The one test of failure is ignored, and no test observes what is written before the abort.",
 ["stdlib/src/lib.rs","stdlib/src/arrays.rs","stdlib/src/math.rs",B],[("fail/message","stdlib/src/lib.rs __quantum__rt__fail, __quantum__rt__message"),("callers","stdlib/src/arrays.rs array_concatenate; stdlib/src/math.rs draws; "+B+" map_to_z_basis, assertmeasurementprobability")])
p("C20","The runner frames every shot and links or rejects programs correctly",
 "For every program, entry-point choice and shot count, each shot's output is a start line, the entry point's attributes as metadata lines, the records of that shot only and an end line, exactly as many times as shots requested. A missing or ambiguous entry point, an unknown or mis-declared runtime function, mixed legacy and current output calls, or malformed input is rejected with an error before anything runs.",
 ["programs","configurations"],"all modules, entry-point filters, shot counts, seeds and input forms",
 "Tests run a handful of stored modules and compare stored outputs.",
 ["runner/src/lib.rs","runner/src/cli.rs"],[("shots","runner/src/lib.rs run_module"),("entry point","runner/src/lib.rs choose_entry_point, is_entry_point"),("linking","runner/src/lib.rs bind_functions"),("command line","runner/src/cli.rs main")])
p("C21","Adjoint and inverse operations undo exactly",
 "For every operation with an adjoint form and every operand choice, applying it and then its adjoint (or a rotation and its negation, in any split of the angle) returns exactly the state before, whatever is pending on the operands and elsewhere and whether or not the state was observed in between. Self-inverse gates applied twice do the same, and undoing a whole program gate by gate returns a freshly allocated register to all zeros, so that every qubit then reads zero.",
 ["programs","inputs"],"all programs built from invertible operations, followed by their reversal",
 "Tests undo a single operation on a few states; cancellation of pending operations and dropping of vanishing amplitudes interact over whole programs.",
 [L,X,B,BX],[("adjoints",L+" fn sadj, tadj, rx, ry, rz, apply_mch, mcrotation"),("QIR adjoints",B+" r__adj, r__ctladj, s__adj, t__adj; "+BX+" exp__adj, exp__ctladj")],Q)
p("C22","Semantics do not depend on identifiers, register size or program length",
 "The effect of a program does not change when its qubits get other identifiers or positions, when idle or entangled bystander qubits are present (including registers wider than a machine word), when arbitrarily long stretches of cancelling gates are inserted, or when states of the same program are interleaved with independent work on other qubits. Sparse states over hundreds of qubits are handled exactly.",
 ["configurations","programs","histories"],"all embeddings of all programs into registers of any size, any renaming of qubits, any padding",
 "Tests use small registers with identifiers below 64 and short sequences, apart from a few fixed large-register cases.",
 [L,"sparsesim/src/index_map.rs"],[("arbitrary-width indices",L+" SparseState keys"),("bounded queue",L+" fn enqueue_op"),("maps","sparsesim/src/index_map.rs")],Q)
p("C23","Simulations on different threads or instances never interact",
 "Programs running concurrently on different threads, or on different simulator instances in one thread, each see exactly the quantum state, results, random sequence (when seeded) and recorded output they would see running alone, for every interleaving. Nothing recorded, measured, seeded or initialised in one shows in another.",
 ["schedules"],"all interleavings of operations of two or more simulations",
 "Every test runs one simulation per thread and never looks at another one's state.",
 [B,L,"stdlib/src/output_recording.rs"],[("thread-local state",B+" SIM_STATE"),("thread-local output","stdlib/src/output_recording.rs OUTPUT")])
p("C24","Python runs hand over the whole output, to the callback or to standard output",
 "For every history of runs in a Python session (a file or bytes, any entry point, shot count and seed, given by position, by keyword or left to their defaults), a run with a callback hands it the complete output of the run in order as output objects, whose text, representation and HTML show exactly what they carry, and writes nothing to standard output; without a callback the same bytes go to standard output. A run that is rejected raises a runtime error before any output. What a run delivers never depends on earlier runs: not on where their output went, on their failing, or on a callback of theirs that raised.",
 ["histories","configurations"],"all sequences of runs over all programs, argument forms, callbacks, failing callbacks and threads",
 "The Python tests make five single calls on two stored programs, are not part of the Rust test suite, and never mix destinations or failures in one session.",
 ["pip/src/python.rs","pip/qirrunner/__init__.py","runner/src/lib.rs","stdlib/src/output_recording.rs"],[("calls","pip/src/python.rs run, run_bytes, main"),("callback","pip/src/python.rs OptionalCallbackReceiver"),("output objects","pip/src/python.rs Output"),("collecting","pip/qirrunner/__init__.py OutputHandler")])
p("C25","Programs linked with the runtime library record what the runner records",
 "For every program whose output calls are the current ones, compiled at any optimization level and linked with the runtime library instead of being handed to the runner, every function of the runtime that it names is found with the parameters the runner gives it, and each call of an entry point after initialize writes exactly the records, messages and dumps that a shot of the same program writes in the runner, starting from a blank state. A program that fails writes its message last and ends with an error.",
 ["programs","configurations"],"all programs, entry points, optimization levels and numbers of calls",
 "The tests call the functions from Rust by path or through the runner's table of addresses; none links a program with the library, so nothing sees its symbols or what it does under a compiler's optimizations.",
 [B,"backend/src/exp.rs","stdlib/src/lib.rs","stdlib/src/output_recording.rs"],[("exported functions",B+" and stdlib/src: the extern C functions"),("blank state",B+" __quantum__rt__initialize"),("output",B+" legacy_output, stdlib/src/output_recording.rs"),("library","backend/Cargo.toml crate-type staticlib")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
