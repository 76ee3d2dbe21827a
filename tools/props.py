#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe if isinstance(observe, list) else [observe])))

p("C01", "Circuit equality and hash identify exactly the dataflow graph",
  "Two circuits compare equal (and have the same circuit hash) if they contain the same operations, parameters and constants wired in the same way, whatever order their operations were inserted in and whatever their node numbering. Circuits that differ in an operation, an operation parameter, a constant that is loaded, a function that is called, a nested region, a port that a wire uses, or the order in which qubits reach the outputs compare unequal.",
  ["programs"], "every small dataflow circuit over an alphabet with symmetric and asymmetric gates, constants, nested regions, and every insertion order of it",
  "Unit tests compare a handful of hand-built circuits; optimiser deduplication depends on the hash being right on all pairs.",
  ["tket/src/circuit/hash.rs", "tket/src/circuit.rs"],
  [("circuit hash", "tket/src/circuit/hash.rs circuit_hash/hash_node"), ("PartialEq for Circuit", "tket/src/circuit.rs")],
  "Circuit::circuit_hash and ==")

p("C02", "Circuit traversal reports every operation once with the right qubits",
  "Iterating over a circuit's commands yields every operation of the top-level region exactly once, after everything it depends on, and the qubits (linear units) reported for each command follow the qubit wires from the circuit inputs, with a fresh unit for each newly created linear value. Operation counts, the qubit count and the sum of per-operation costs agree with that listing, forwards and when the counts are asked in the middle of the iteration.",
  ["programs"], "every small circuit over gates, allocation/free/measure, classical constants shared between consumers, nested containers and non-linear wires",
  "Tests fix three or four circuits; the delayed-constant and fresh-unit bookkeeping depends on the order the graph is walked in.",
  ["tket/src/circuit/command.rs", "tket/src/circuit/units.rs", "tket/src/circuit.rs", "tket/src/circuit/cost.rs"],
  [("command iterator", "tket/src/circuit/command.rs CommandIterator"), ("units", "tket/src/circuit/units.rs")],
  "Circuit::commands, operations, units, num_operations, circuit_cost")

p("C03", "Greedy depth reduction by commutation keeps the program's meaning",
  "Running the commutation-based depth reduction on a circuit succeeds, leaves a valid program with the same operations and the same input/output behaviour (including the joint distribution of measurement results), never increases the depth, and reports the number of moves it made. It never moves a gate past an operation it does not commute with, past one it knows nothing about, or past a value it depends on.",
  ["programs"], "every circuit up to the depth bound over the gate set, qubit allocation, measurement, opaque qubit operations, classically computed angles and nested regions",
  "The tests have a few fixed circuits; which gates can jump depends on the whole neighbourhood of every slice.",
  ["tket/src/passes/commutation.rs", "tket/src/ops.rs"],
  [("greedy commutation", "tket/src/passes/commutation.rs apply_greedy_commutation"), ("commutation table", "tket/src/ops.rs qubit_commutation")],
  "apply_greedy_commutation")

p("C04", "Splitting a circuit into chunks and reassembling it gives it back",
  "Splitting a circuit into chunks by size or by cost never loses, duplicates or reorders dependent operations: reassembling the chunks gives a valid circuit equivalent to the original, also after each chunk was replaced by an equivalent circuit. No chunk that has more than one operation exceeds the requested size or cost.",
  ["programs", "configurations"], "every small circuit (crossing wires, classical values used in several later chunks, wires going straight through), every chunk limit, every set of replaced chunks",
  "The one round-trip test uses a single circuit and limit.",
  ["tket/src/passes/chunks.rs"],
  [("split and reassemble", "tket/src/passes/chunks.rs CircuitChunks")],
  "CircuitChunks::split, split_with_cost, reassemble")

p("C05", "Pattern matching finds exactly the convex occurrences of a pattern",
  "Matching a set of patterns against a circuit reports a match exactly for every place where the pattern's operations occur in the circuit with the same operations, parameters and wiring and with nothing in between; each reported match names the right pattern, and rewriting it with a replacement substitutes exactly those operations. Every other operation, and the order of inputs and outputs, stays as it was.",
  ["programs", "inputs"], "every small pattern and every small circuit over the alphabet, all sets of patterns sharing prefixes, all circuit roots",
  "Tests use half a dozen pattern/circuit pairs; the automaton shares states between patterns, so each extra pattern changes the search for all.",
  ["tket/src/portmatching/matcher.rs", "tket/src/portmatching/pattern.rs", "tket/src/portmatching.rs"],
  [("pattern matcher", "tket/src/portmatching/matcher.rs PatternMatcher"), ("pattern building", "tket/src/portmatching/pattern.rs CircuitPattern")],
  "PatternMatcher::find_matches")

p("C06", "Rewrites proposed from equivalence classes never change the unitary",
  "Every rewrite proposed by a rewriter built from circuit equivalence classes, applied to the circuit it was proposed for, gives a valid circuit with the same unitary up to global phase, and its reported change in operations matches what it does to the circuit. Wherever a class member that is a valid pattern occurs, a rewrite is offered to the representative of its class, and for the representative itself to every other member (as far as wires that the member leaves idle are idle there too); nothing else is offered, and a rewriter that was saved and loaded again proposes the same rewrites.",
  ["programs", "inputs"], "every small circuit over the gate set of the shipped equivalence-class files, and every rewrite at every position",
  "Tests check counts on one or two circuits with one class file.",
  ["tket/src/rewrite/ecc_rewriter.rs", "tket/src/rewrite.rs", "tket/src/optimiser/badger/eq_circ_class.rs", "tket/src/optimiser/badger/qtz_circuit.rs"],
  [("ECC rewriter", "tket/src/rewrite/ecc_rewriter.rs"), ("class file loading", "tket/src/optimiser/badger/eq_circ_class.rs, qtz_circuit.rs")],
  "ECCRewriter::get_rewrites, CircuitRewrite::apply, save_binary/load_binary")

p("C07", "Rewrite strategies apply the rewrites they select, and cost them exactly",
  "Given a set of candidate rewrites for a circuit, each circuit a rewrite strategy returns is obtained from the input by applying a set of non-overlapping candidates, and the cost change it reports equals the cost of the new circuit minus the cost of the old one. The greedy strategy only applies rewrites that reduce the size, the exhaustive strategies produce every circuit their predicate allows, and the input circuit is left as it was.",
  ["programs", "histories"], "every set of candidate rewrites (overlapping and disjoint) of every small circuit, for every strategy and cost function shipped",
  "Tests fix one circuit with cx gates and one candidate list per strategy.",
  ["tket/src/rewrite/strategy.rs", "tket/src/rewrite/trace.rs", "tket/src/circuit/cost.rs"],
  [("strategies", "tket/src/rewrite/strategy.rs"), ("costs", "tket/src/circuit/cost.rs")],
  "RewriteStrategy::apply_rewrites")

p("C08", "The search queue and backtracking optimiser keep the best and lose nothing",
  "The bounded priority queue of the search behaves like a sorted collection that discards only its worst entries when full. The backtracking search, given enough queue space and no limits, visits every state reachable through the offered rewrites exactly once and returns one of the least cost; with limits it still never returns anything worse than the input or something unreachable.",
  ["histories", "programs"], "every operation sequence on the queue up to a depth; every small transition graph with every cost labelling for the search, and every limit",
  "Tests push a few entries; search correctness depends on eviction, duplicate detection and limits acting together.",
  ["tket/src/optimiser/pqueue.rs", "tket/src/optimiser/backtracking.rs", "tket/src/optimiser.rs"],
  [("priority queue", "tket/src/optimiser/pqueue.rs StatePQueue"), ("backtracking", "tket/src/optimiser/backtracking.rs")],
  "BacktrackingOptimiser::optimise, StatePQueue")

p("C09", "Multi-threaded optimisation is safe under every interleaving",
  "However its worker threads, the shared priority-queue thread and the coordinating thread are interleaved, the multi-threaded optimiser terminates when it is told to or its time runs out, without deadlock or panic, hands each distinct circuit to at most one worker and never loses one that the queue accepted. The circuit it returns is the best one reported before the stop, reachable by rewrites from the input and never costlier than the input.",
  ["schedules"], "all thread interleavings (bounded preemptions) of the coordinator, queue worker and two or three workers, over small rewrite graphs, with every instant at which a time-out can fire",
  "A test run sees one schedule; the protocol has bounded channels, a shared cost bound and early close.",
  ["tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/badger/worker.rs", "tket/src/optimiser/badger.rs", "tket/src/optimiser/pqueue.rs"],
  [("shared queue worker", "tket/src/optimiser/pqueue_worker.rs"), ("worker", "tket/src/optimiser/badger/worker.rs"), ("coordinator", "tket/src/optimiser/badger.rs badger_multithreaded")],
  "BadgerOptimiser::optimise with n_threads > 1")

p("C10", "Circuit optimisation preserves the unitary and never raises the cost",
  "Optimising a circuit with the shipped default optimiser and rewrite sets, with any combination of limits, split or whole, gives a valid circuit with the same signature and the same unitary up to global phase whose cost is not above that of the input.",
  ["programs", "configurations"], "every small circuit over the rewrite set's gates and every combination of limits and options",
  "Tests optimise two or three circuits and compare counts.",
  ["tket/src/optimiser/badger.rs", "tket/src/rewrite/strategy.rs", "tket/src/passes/chunks.rs", "badger-optimiser/src/main.rs"],
  [("badger", "tket/src/optimiser/badger.rs BadgerOptimiser")],
  "BadgerOptimiser::optimise, optimise_with_log")

p("C11", "Array borrow elision keeps array programs' meaning",
  "Removing matching pairs of array borrow and return operations leaves a valid program with exactly the same behaviour: the same element ends up at each index of each array, the same gates act on each qubit, and the program fails on a bad, repeated or missing index in exactly the cases in which it failed before. Elements are only matched up when the indices are known to be equal, and pairs of accesses at the same constant index are removed when no other operation on that array comes between.",
  ["programs"], "every sequence of borrow, return, get, set, swap and gate operations with constant, equal, different and out-of-range or unknown indices up to a length, over one or two arrays and nested regions",
  "Tests cover eight hand-written functions; elision depends on every index seen so far on the array.",
  ["tket/src/passes/borrow_squash.rs"],
  [("borrow squash", "tket/src/passes/borrow_squash.rs BorrowSquashPass")],
  "BorrowSquashPass::run")

p("C12", "Normalising front-end programs keeps their meaning",
  "Normalising a program produced by a front-end (simplifying control flow, inlining nested regions, removing tuple packing, folding constants, removing dead functions and array borrows) gives a valid program with the same signature and the same behaviour for every input and measurement outcome. With tuple removal switched on, no tuple that was packed and directly unpacked in one region is left there; with inlining switched on, no nested plain region is left.",
  ["programs", "configurations"], "every small program over tuple packing/unpacking (partially used, reordered, several consumers), calls, conditionals, control-flow blocks and quantum operations, and every combination of the pass's options",
  "Tests run the pass on a few fixed programs and count nodes.",
  ["tket/src/passes/guppy.rs", "tket/src/passes/tuple_unpack.rs"],
  [("NormalizeGuppy", "tket/src/passes/guppy.rs"), ("tuple unpack rewrites", "tket/src/passes/tuple_unpack.rs")],
  "NormalizeGuppy::run, find_tuple_unpack_rewrites")

p("C13", "Modified functions compute exactly the controlled/adjoint unitary",
  "Resolving control and dagger modifiers, nested in any order and number, gives a valid program without modifiers whose function applies exactly the controlled and/or adjoint version of the original function's unitary, including relative phases (global phases become phases of the control) and parametrised, classically controlled and nested regions. Controls and targets come out in the order they went in, functions called from the modified body are modified too, and unmodified callers of the same function keep the original.",
  ["programs"], "every gate, global phase, call, conditional, array and nested-region body up to a length, under every stack of modifiers up to two or three with one to three controls in one or several arrays",
  "Tests only check that the result validates and compare a few structures; none simulates the unitary.",
  ["tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver/tket_op_modify.rs", "tket/src/modifier/modifier_resolver/dfg_modify.rs", "tket/src/modifier/modifier_resolver/call_modify.rs", "tket/src/modifier/modifier_resolver/global_phase_modify.rs", "tket/src/modifier/modifier_resolver/array_modify.rs"],
  [("modifier resolver", "tket/src/modifier/modifier_resolver.rs resolve_modifier_with_entrypoints")],
  "resolve_modifier_with_entrypoints")

p("C14", "Programs survive being exported to pytket and read back",
  "Encoding any valid program as a pytket circuit and decoding it again gives a valid program with the same signature and the same behaviour for every input and measurement outcome, whatever mixture of translatable and untranslatable operations, nested regions, bits, parameters and discarded or newly created qubits it has. The encoded circuit's own gates act on its qubits and bits as the program's do. Preparing the program for the export keeps its behaviour as well.",
  ["programs", "configurations"], "every small program over gates, rotations computed at run time, measurements, qubit allocation and release, opaque operations between gates, booleans, tuples, function calls and nested regions; every encoding option",
  "Round-trip tests use twenty fixed programs; tracking of qubits, bits and opaque subgraphs is history dependent.",
  ["tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/encoder/value_tracker.rs", "tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/opaque.rs", "tket/src/serialize/pytket/circuit.rs"],
  [("encoder", "tket/src/serialize/pytket/encoder.rs"), ("decoder", "tket/src/serialize/pytket/decoder.rs"), ("opaque subgraphs", "tket/src/serialize/pytket/opaque")],
  "EncodedCircuit::new, reassemble; SerialCircuit encode/decode")

p("C15", "pytket circuits survive being imported and exported again",
  "Decoding a pytket circuit gives a valid program that applies the same gates to the same qubits, with the same parameters, and writes the same bits, honouring conditions on bits and the implicit qubit permutation; re-encoding it gives an equivalent pytket circuit with its name, phase, qubit and bit registers. Commands the importer does not know are carried through unchanged in the same dependency order.",
  ["inputs"], "every pytket circuit up to a number of commands over each supported gate, measurements, conditional gates, unknown gates, parameter expressions, registers and permutations",
  "Tests import about fifteen fixed circuits and compare structure.",
  ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/decoder/wires.rs", "tket/src/serialize/pytket/extension", "tket-qsystem/src/pytket"],
  [("decoder", "tket/src/serialize/pytket/decoder.rs"), ("gate translation", "tket/src/serialize/pytket/extension")],
  "SerialCircuit::decode, encode")

p("C16", "Parameter expressions keep their value across pytket import and export",
  "A gate parameter given as an arithmetic expression over numbers, pi and symbols is imported as a computation with the same value in half-turns as ordinary arithmetic precedence gives it, and a computed rotation is exported as an expression that evaluates to the same value. Expressions that are not understood are kept verbatim.",
  ["inputs"], "every expression up to a number of operators over the grammar, and every small rotation computation graph",
  "Tests list about thirty expressions.",
  ["tket/src/serialize/pytket/decoder/param/parser.rs", "tket/src/serialize/pytket/decoder/param.rs", "tket/src/serialize/pytket/decoder/wires.rs", "tket/src/serialize/pytket/extension/rotation.rs", "tket/src/serialize/pytket/extension/float.rs"],
  [("parameter parser", "tket/src/serialize/pytket/decoder/param/parser.rs"), ("rotation encoders", "tket/src/serialize/pytket/extension/rotation.rs, float.rs")],
  "SerialCircuit::decode/encode of parameters")

p("C17", "Resource tracking follows each qubit and orders operations consistently",
  "In any circuit region each linear value belongs to exactly one resource; a resource's operations are listed in wire order with strictly increasing positions, resources are preserved exactly through the ports that carry the same qubit, and copyable values are never resources. An expression recovered for a copyable value evaluates to that value.",
  ["programs"], "every small region over gates, qubit creation and release, opaque and multi-qubit operations, copyable values with several consumers, nested regions, and every sub-selection of its nodes",
  "Tests assert on three fixed circuits.",
  ["tket/src/resource/scope.rs", "tket/src/resource/flow.rs", "tket/src/resource/types.rs", "tket/src/subcircuit/expression.rs", "tket/src/subcircuit/interval.rs"],
  [("resource scope", "tket/src/resource/scope.rs"), ("flow", "tket/src/resource/flow.rs"), ("copyable expressions", "tket/src/subcircuit/expression.rs")],
  "ResourceScope queries, CopyableExpr")

p("C18", "Compiling for the target hardware preserves program behaviour",
  "Running the full hardware compilation pass on a program gives a valid program that uses only native operations and has the same observable behaviour, for every input and every measurement outcome: the same result stream with the same joint probabilities, the same returned values and qubit states, and the same failures. Every gate of the source gate set, with every angle, is replaced by native operations that implement the same unitary up to global phase.",
  ["programs", "configurations"], "every source operation at a grid of angles, every program up to a length over gates, measurements, resets, allocation, control flow, calls, results and booleans, for every combination of pass options",
  "Tests check that op names disappear; only a handful of gates' matrices were ever compared, by hand.",
  ["tket-qsystem/src/lib.rs", "tket-qsystem/src/extension/qsystem/lower.rs", "tket-qsystem/src/extension/qsystem.rs"],
  [("QSystemPass", "tket-qsystem/src/lib.rs"), ("gate lowering", "tket-qsystem/src/extension/qsystem/lower.rs")],
  "QSystemPass::run, LowerTketToQSystemPass")

p("C19", "Lazy measurement keeps every boolean's value and reads each future once",
  "Replacing booleans by lazily read measurement results gives a valid program in which every boolean keeps its value wherever it is used, for every measurement outcome: in logic, in conditionals, in arrays and static arrays, through calls, loops and nested regions, copied or discarded. On every path each measurement handle is read or freed exactly once and never used again afterwards.",
  ["programs"], "every small program over measurement, boolean logic, constants, copies, arrays of booleans, conditionals, loops, calls and discards, with every measurement outcome",
  "Tests check that the pass validates on several programs; none executes the result.",
  ["tket-qsystem/src/replace_bools.rs", "tket-qsystem/src/replace_bools/static_array.rs"],
  [("ReplaceBoolPass", "tket-qsystem/src/replace_bools.rs")],
  "ReplaceBoolPass::run, QSystemPass::run")

p("C20", "A runtime barrier covers every qubit it is given and changes nothing else",
  "Lowering a barrier over any mixture of values makes one runtime barrier over exactly the qubits given to it, directly or within tuples and arrays however nested (and within arrays of optional qubits that are all present), and returns every value unchanged and in its original place; values of other types pass through untouched. A barrier with no such qubits has no effect, and operations on a covered qubit that come before or after the barrier stay before or after it.",
  ["inputs", "programs"], "every type row up to a nesting depth and width over qubit, classical, tuple, option and array types, with gates around the barrier, several barriers, and barriers in nested regions",
  "Tests fix about ten type rows and count nodes.",
  ["tket-qsystem/src/extension/qsystem/barrier.rs", "tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs", "tket-qsystem/src/extension/qsystem/barrier/wrapped_barrier.rs", "tket/src/passes/unpack_container.rs", "tket/src/passes/unpack_container/type_unpack.rs"],
  [("barrier lowering", "tket-qsystem/src/extension/qsystem/barrier"), ("container unpacking", "tket/src/passes/unpack_container")],
  "QSystemPass::run on programs with barriers")

p("C21", "Compiled programs neither leak nor free a qubit or handle twice",
  "After compilation for the target, on every path and for every measurement outcome each qubit is released exactly where the source program releases it and none is used after release; every measurement handle, array and other linear value that the source program drops or discards is freed exactly once, and values that are copied are duplicated explicitly, with no effect on the other values. Dropping a value of a type that contains qubits is refused with an error instead of leaking them, and no generic drop operation remains in the result.",
  ["programs", "inputs"], "every type up to a nesting depth for the dropped or copied value, dropped alone or next to values that stay live, in straight-line code and regions",
  "Tests check that drop operations vanish on two types.",
  ["tket-qsystem/src/lower_drops.rs", "tket-qsystem/src/replace_bools.rs", "tket-qsystem/src/lib.rs"],
  [("LowerDropsPass", "tket-qsystem/src/lower_drops.rs"), ("linearize arrays", "tket-qsystem/src/lib.rs")],
  "LowerDropsPass::run, QSystemPass::run")

p("C22", "Forced operation order is total, consistent and follows the priorities",
  "After order forcing, the operations of every region are totally ordered by explicit order edges, the program is still valid and acyclic, and all earlier data and order dependencies still hold. Among operations that are ready at the same time, releases of qubits come before gates, those before qubit allocation, and everything else after, with reading a measurement result as late as possible.",
  ["programs"], "every small region over allocation, gates, release, measurement, future reads, and classical operations, with every pattern of existing order edges",
  "Tests check one function with three ranks.",
  ["tket-qsystem/src/lib.rs"],
  [("force_order", "tket-qsystem/src/lib.rs force_order")],
  "QSystemPass::run")

p("C23", "Generated LLVM code makes exactly the program's runtime calls",
  "The LLVM module generated for a program performs, for every measurement outcome, the same quantum runtime calls in the same per-qubit order with the same operands, makes the same calls of the GPU library, prints the same results with the same tags, and stops with the same exit or panic message and code as the program prescribes. Computed values (integers, floats, booleans, arrays, rotations, random numbers) passed to those calls are those of the source program.",
  ["programs"], "every small program over the quantum, result, random, future, debug, boolean, rotation and array operations with every measurement outcome",
  "LLVM snapshot tests compare IR text for one program per op; nothing runs it.",
  ["tket-qsystem/src/llvm", "tket/src/llvm", "qis-compiler/rust/lib.rs"],
  [("LLVM code generation", "tket-qsystem/src/llvm/*.rs, tket/src/llvm/*.rs"), ("compile entry", "qis-compiler/rust/lib.rs")],
  "compile_to_llvm_ir / compile_to_bitcode")

p("C24", "Circuits and extensions survive being stored and loaded",
  "Storing a circuit as an envelope, in any format, and loading it back gives an equal circuit with the same entry point and name, whichever function of a module is selected. Every operation the library defines can be serialised, loaded with the default registry and recognised again as the same operation with the same arguments; the declared types and signatures are those of the published extension files. Constants of the library's types are loaded as the value that was stored.",
  ["inputs", "configurations"], "every operation of every extension over a grid of its arguments, every circuit root kind, every envelope format and compression",
  "Tests store one or two circuits.",
  ["tket/src/serialize.rs", "tket/src/extension", "tket-qsystem/src/extension", "tket-exts/src"],
  [("circuit storage", "tket/src/serialize.rs"), ("extension definitions", "tket/src/extension, tket-qsystem/src/extension")],
  "Circuit::load/store, MakeExtensionOp::from_optype")

path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(path, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
