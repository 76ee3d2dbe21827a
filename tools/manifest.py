#!/usr/bin/env python3
"""Source of MANIFEST.json. A property without an entry in CLAIMS is listed as not applicable with the reason in NOT."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
ORACLE = ("Exhaustive within the stated bounds on the real code. Trusted: the reference interpreter mc/core/src/interp.rs "
          "(meaning of each operation, dense state vectors with tolerance 1e-6) and hugr's own builder/validator. ")
CLAIMS = {
 "C09": ("stateless model checking of the real multi-threaded optimiser under a controlled scheduler: all interleavings of its threads, channel operations and timers, with sleep sets",
         "Exhaustive within the stated bounds on the real code. Trusted: the stand-in for crossbeam-channel in mc/xchan (semantics of its channels; scheduling only at channel operations, timers, joins and, in one mode, at reads of the shared cost bound), the partial-order reduction (compared with full enumeration when built). Bounds: 10 rewrite graphs of up to 4 states x both kinds of time-out x queue sizes 1, 2, 10 x 2-3 threads; thorough: all graphs of 3 states. Outside: running without any limit (documented not to end), the rayon-based split mode."),
 "C14": ("bounded exhaustive enumeration of programs through the real encoder and decoder, in place and standalone; every measurement branch of the program, the encoded circuit (reference semantics of its JSON) and the decoded program compared",
         ORACLE + "Also trusted: reference semantics of pytket JSON in mc/core/src/pyt.rs. Bounds: all programs of up to 2-3 statements (4 thorough) per alphabet over translatable, opaque and unknown operations, bits, parameters, tuples, arrays, futures, nested regions, allocations and discards. Documented refusals are out of scope: opaque operations without any qubit or bit to attach to, nested or non-local regions when standalone."),
 "C01": ("bounded exhaustive enumeration of programs in every insertion order; hash and equality of every region compared with an exact canonical form of its graph, over all pairs",
         "Exhaustive within the stated bounds on the real code. Trusted: the canonical form in mc/core/src/c01.rs. Bounds: all programs of up to 3-4 statements (5 thorough) over alphabets of gates, allocations and measurements, constants, nested regions and every kind of operation; other node numbers. A collision of the 64-bit hash itself would be reported."),
 "C02": ("bounded exhaustive enumeration of programs; the real command iterator and counters compared with an independent traversal of every dataflow region",
         ORACLE + "Bounds: all programs up to 3-5 statements over several alphabets; counts are asked at every point of the iteration."),
 "C15": ("bounded exhaustive enumeration of pytket circuits through the real importer and exporter; every measurement branch of the circuit (reference semantics of the JSON), the imported program and the exported circuit compared",
         "Exhaustive within the stated bounds on the real code. Trusted: reference semantics of pytket operations in mc/core/src/pyt.rs, the interpreter. Bounds: every gate on all orders of three qubits, conditions, classical expressions, boxes, permutations, registers and names; all circuits of up to 2-3 commands (4 thorough) per alphabet; default and qsystem configurations. Operations unknown to the importer act as one fixed action. Circuits with boxes are not exported alone (documented error)."),
 "C16": ("bounded exhaustive enumeration of parameter expressions and of programs computing angles; values compared with an independent parser and evaluator at several assignments",
         "Exhaustive within the stated bounds on the real code. Trusted: the parser and evaluator in mc/core/src/c16.rs. Bounds: all expressions of up to depth 2-3 over every operator, function and kind of literal and their spellings; programs of up to 3-4 arithmetic statements; default and qsystem configurations."),
 "C11": ("bounded exhaustive enumeration of sequences of array accesses run through the real pass; every measurement branch of input and output executed by a reference interpreter with the real failure semantics of borrowed elements",
         ORACLE + "Bounds: all sequences of up to 4-5 (6-7 thorough) statements per alphabet over one or two arrays, constant, unknown and out-of-range indices. All failures count as equal; the claim about which pairs are gone is checked on arrays that are not nested."),
 "C05": ("bounded exhaustive enumeration of patterns, sets of patterns and circuits; the matches reported by the real matcher compared with a brute-force search for all occurrences, and every rewrite of a match with the expected graph of terms",
         "Exhaustive within the stated bounds on the real code. Trusted: the brute-force search in mc/core/src/c05.rs. Bounds: patterns of up to 3-4 operations, circuits of up to 3-5, five alphabets (gates, angles, measurement and allocation, nested regions); all patterns in one matcher, each alone, pairs. Not decided: occurrences where two inputs of the pattern are the same value or an output is not used."),
 "C06": ("bounded exhaustive enumeration of circuits against the shipped and own sets of equivalence classes; every proposed rewrite applied and its unitary compared by a reference interpreter, the set of proposals compared with a brute-force search for all occurrences of all class members",
         ORACLE + "Bounds: all shipped class files (the largest in thorough), classes of all circuits of up to 2-3 gates that do the same; circuits of up to 3-5 statements and every class member with an operation inserted everywhere. Members that the matcher refuses are only required to be accepted when one operation shares a wire with every other."),
 "C07": ("bounded exhaustive enumeration of circuits and sets of candidate rewrites; the results of every real strategy compared with independently applied sets of candidates and independently computed costs",
         "Exhaustive within the stated bounds on the real code. Trusted: the cost and graph comparison in mc/core/src/c07.rs, CircuitRewrite::apply (C06). Bounds: circuits of up to 3 statements, sub-circuits of up to 3 nodes, all single candidates and pairs in both orders, a grid of triples. Nested regions inside a replaced part are excluded (rejected by hugr)."),
 "C08": ("bounded exhaustive enumeration of transition graphs, costs and queue/limit configurations; the real search visits every one and its visits are replayed on a nondeterministic model of the bounded queue, of which every state is explored",
         "Exhaustive within the stated bounds on the real search. Bounds: all graphs up to 4-5 states with costs and duplicates as listed in the evidence, queue sizes 1-3, all limits; ties are resolved nondeterministically by the model. Time-outs only with extreme values (0, 1000 s)."),
 "C10": ("bounded exhaustive enumeration of circuits and option combinations run through the real optimiser with the shipped rewrite sets; the unitary compared by a reference interpreter, the cost counted independently",
         ORACLE + "Bounds: all circuits of up to 3-4 gates over the set the default optimiser is for and others, 14 option combinations (split modes, queue sizes, limits, time-outs). Interleavings of the worker threads are C09's subject."),
 "C17": ("bounded exhaustive enumeration of circuits, of all convex sets of their operations and of expression boundaries; the real resource scope and expressions compared with an independent traversal",
         "Exhaustive within the stated bounds on the real code. Trusted: the traversal in mc/core/src/c17.rs. Bounds: programs of up to 3-4 statements (5 thorough) per alphabet with nested regions, every convex subset of up to seven operations, the default and an own flow, every pair of start and end ports, every output with up to two boundary inputs and two excluded operations. No explicit order edges."),
 "C12": ("bounded exhaustive enumeration of programs and option sets run through the real pass; every measurement branch of input and output executed by a reference interpreter under two schedules",
         ORACLE + "Bounds: all programs of up to 3-5 statements per alphabet; 14 option sets (all 64 in thorough), function and module entry points (the latter without removal of dead functions, which then removes everything)."),
 "C04": ("bounded exhaustive enumeration of circuits, limits and combinations of replaced chunks run through the real splitter; behaviours compared by a reference interpreter",
         ORACLE + "Bounds: circuits of up to 3-7 statements, every limit, all combinations of three variants of each of up to four chunks. No explicit order edges."),
 "C03": ("bounded exhaustive enumeration of circuits run through the real pass; every measurement branch of input and output compared by a reference interpreter",
         ORACLE + "Bounds: all well-formed sequences up to 3-7 statements over 2-4 qubits per alphabet."),
 "C18": ("bounded exhaustive enumeration of programs run through the real compilation pass with five option sets; every measurement branch of input and output executed by a reference interpreter under two schedules",
         ORACLE + "Bounds: every gate at a grid of angles, all programs of up to 2-5 statements per alphabet; qubit allocation never fails."),
 "C19": ("bounded exhaustive enumeration of programs with booleans run through the real pass (alone, in the whole compilation, with constant folding); every measurement branch executed by a reference interpreter that tracks each measurement handle",
         ORACLE + "Bounds: all programs of up to 3-4 (5 thorough) statements per alphabet. Arrays are whole when cloned or discarded; reading single elements is covered for borrow_array and static_array (the pass rejects `array.get` on booleans with an error); no tket.bool inputs to main."),
 "C20": ("bounded exhaustive enumeration of type rows and of programs with barriers run through the real compilation; the log of operations on every qubit and every measurement branch compared by a reference interpreter",
         ORACLE + "Bounds: every row of up to two types of nesting depth 1, one type of depth 2 (3 in thorough) between other values, up to 5-6 qubits; programs of up to 3-4 statements. Arrays are whole and optional array elements present (documented as a runtime error otherwise)."),
 "C21": ("bounded exhaustive enumeration of dropped and copied types and of the programs around them, run through the real passes; every measurement branch executed by a reference interpreter that tracks each linear value",
         ORACLE + "Bounds: every type of the grammar up to nesting depth 2 (3 in thorough), programs of up to 3-4 statements. Value-semantics arrays are not mixed with drop operations and are copied at most twice (a panic in a dependency, hugr-passes, on more)."),
 "C22": ("bounded exhaustive enumeration of programs and of sets of existing order edges run through the real pass; the resulting order compared with the graph before and executed by a reference interpreter",
         ORACLE + "Bounds: all programs of up to 3-5 statements per alphabet, every subset of order edges over programs of up to 3-4 operations. Priorities are checked on programs that are already native, where operations keep their identity."),
 "C24": ("bounded exhaustive enumeration of every operation definition over a grid of type arguments, of constants and of programs with every region as entry point, stored and loaded in every format by the real code",
         "Everything is exact comparison of what was stored with what was loaded (a canonical form of the graph that ignores numbering, written for the check). Bounds: arguments from a fixed grid of types, strings and numbers; programs of up to 2-3 statements; seven envelope configurations (two for most programs in quick)."),
 "C23": ("bounded exhaustive enumeration of programs and of their measurement outcomes; the code generated by the real compiler is executed against a recording runtime and its calls compared with the traces of a reference interpreter",
         "Model = the reference interpreter on the program after the real lowering pass (whose own faithfulness C18, C21 and C22 decide), following every measurement outcome and, in two families, every failure of an allocation or of a call of the GPU library. Each model trace is replayed against the implementation: the bitcode returned by the published compile_to_bitcode is run with a simulating runtime and the two sequences of runtime calls, with operands, tags, codes and messages, must be equal. Bounds: programs of up to 2-4 statements per alphabet (quick; 3-5 thorough), optimisation levels 0 and 2 (quick) or all. Native qubits are simulated exactly; only the contents of freshly allocated memory are arbitrary."),
 "C13": ("bounded exhaustive enumeration of modified functions and modifier stacks run through the real resolver; full unitary compared with a reference interpreter's controlled/adjoint semantics",
         ORACLE + "Bounds: bodies of one or two statements (three in thorough), stacks of up to four modifiers, up to six controls."),
}
NOT = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the checks use public interfaces only", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. Repaired defects and known findings: known_findings.json.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
