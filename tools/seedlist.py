OPS = "tket/src/ops.rs"
BS = "tket/src/passes/borrow_squash.rs"
MR = "tket/src/modifier/modifier_resolver/"
QS = "tket-qsystem/src/"
seed("c03_cy_commutes", "C03",
  [(OPS, "            CZ => vec![(0, Pauli::Z), (1, Pauli::Z)],\n", "            CZ => vec![(0, Pauli::Z), (1, Pauli::Z)],\n            CY => vec![(0, Pauli::Z), (1, Pauli::X)],\n")],
  "a CY whose target is followed by an X-type gate that has a free place in an earlier slice",
  "the commutation pass moves X rotations through the target of a CY",
  """fn main() {
    compare("fn main(q0,q1)->(q0,q1){H q0; CY q0 q1; Rx(0.3) q1}", &Opts::default(), |h| {
        let mut c = Circuit::new(h.clone());
        tket::passes::apply_greedy_commutation(&mut c).unwrap();
        *h = c.into_hugr();
    });
}
""")
seed("c11_double_return", "C11",
  [(BS, "                    oe.remove_entry(); // double return - this will panic, don't bother optimizing\n", "                    // the element that was returned last wins\n")],
  "an index that is returned twice and then borrowed again",
  "the second return (which fails at run time) is removed together with the borrow, so the program no longer fails",
  """fn main() {
    compare("fn main(q0,q1,q4)->(*){u(0) -> u1; anew q0 q1 -> A2q0; borrow A2q0 u1 -> A2q0 q2; return A2q0 u1 q2 -> A2q0; return A2q0 u1 q4 -> A2q0; borrow A2q0 u1 -> A2q0 q2}",
        &Opts { hide_panic: true, ..Opts::default() }, |h| {
        tket::passes::BorrowSquashPass::default().run(h).unwrap();
    });
}
""")
seed("c13_crz_dagger", "C13",
  [(MR + "tket_op_modify.rs", "                if dagger {\n                    mem::swap(&mut angle_pos, &mut angle_neg);\n                }\n", "                if dagger && control == 0 {\n                    mem::swap(&mut angle_pos, &mut angle_neg);\n                }\n"),
   ],
  "a CRz in a function that is both controlled and daggered",
  "the rotation angle of a controlled CRz is not negated under a dagger",
  """fn main() {
    compare("fn f(q0,q1)->(q0,q1)@7{CRz(0.3) q0 q1} fn main(V1q10,q0,q1)->(V1q10,q0,q1){mod d c1 : f V1q10 q0 q1 -> V1q10 q0 q1}", &Opts::default(), |h| {
        let main = h.entrypoint();
        tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints(h, [main]).unwrap();
    });
}
""")
seed("c18_toffoli_angle", "C18",
  [(QS + "extension/qsystem.rs", "        let a = self.add_phased_x(a, pi, pi_4)?;\n", "        let a = self.add_phased_x(a, pi, pi_minus_4)?;\n")],
  "a Toffoli whose first control is in a superposition",
  "the native decomposition of Toffoli applies a wrong relative phase",
  """fn main() {
    compare("fn main(q0,q1,q2)->(q0,q1,q2){Toffoli q0 q1 q2}", &Opts::default(), |h| tket_qsystem::QSystemPass::default().run(h).unwrap());
}
""")
seed("c19_last_element", "C19",
  [(QS + "replace_bools.rs", "    let bound = dfb.add_load_value(ConstInt::new_u(6, size).unwrap());\n", "    let bound = dfb.add_load_value(ConstInt::new_u(6, size.saturating_sub(1)).unwrap());\n")],
  "reading the last element of a borrow array of measurement results with `get`",
  "`get` reports the last index of an array of booleans as out of range",
  """fn main() {
    compare("fn main(q0,q1)->(*){MeasureFree q0 -> t0; MeasureFree q1 -> t1; anew t0 t1 -> A2t0; u(1) -> u0; aget A2t0 u0 -> Ot0 A2t0; drop A2t0 ->}", &Opts::default(), |h| tket_qsystem::QSystemPass::default().run(h).unwrap());
}
""")
seed("c20_first_array", "C20",
  [(QS + "extension/qsystem/barrier/barrier_inserter.rs", "        if let [(ty, target)] = filtered_qbs.as_slice() {\n", "        if let Some((ty, target)) = filtered_qbs.first() {\n")],
  "a barrier whose first qubit container is an array of qubits, with further qubits after it",
  "only the array takes part in the runtime barrier, the other qubits are left out",
  """fn main() {
    let b = prog::build("fn main(q0,q1,q2)->(*){anew q0 q1 -> V2q0; barrier V2q0 q2}").unwrap();
    let mut h = b.hugr.clone();
    h.set_entrypoint(b.main);
    tket_qsystem::QSystemPass::default().run(&mut h).unwrap();
    let l = behaviour(&h, h.entrypoint(), &Opts { log_ops: true, ..Opts::default() });
    let n: Vec<usize> = l.oplogs.iter().flatten().filter(|x| x.0 == "RuntimeBarrier").map(|x| x.1.len()).collect();
    assert!(!n.is_empty() && n.iter().all(|x| *x == 3), "qubits in the barriers: {n:?}");
}
""")
T = "tket/src/"
seed("c06_idle_elsewhere", "C06",
  [(T + "rewrite/ecc_rewriter.rs", "                        pattern_empty_wires\n                            .iter()\n                            .all(|&w| target_empty_wires.contains(&w))\n", "                        pattern_empty_wires.is_empty()\n                            || pattern_empty_wires.len() <= target_empty_wires.len()\n")],
  "a class whose members leave different qubits idle",
  "a member that leaves one qubit idle is offered another member that uses that qubit and leaves a different one idle",
  """fn main() {
    use tket::rewrite::{ecc_rewriter::ECCRewriter, Rewriter};
    use tket::optimiser::badger::EqCircClass;
    let class = EqCircClass::new(build_main("fn main(q0,q1)->(q0,q1){H q0; H q0; X q0; X q0}"), vec![build_main("fn main(q0,q1)->(q0,q1){H q1; H q1}")]);
    let rw = ECCRewriter::from_eccs(vec![class]);
    let n = build_main("fn main(q0,q1)->(q0,q1){H q1; H q1; CX q1 q0}");
    assert_eq!(rw.get_rewrites(&n).len(), 0);
}
""")
seed("c07_skipped_delta", "C07",
  [(T + "rewrite/strategy.rs", "            for (rewrite, delta) in &rewrites[i..] {\n                if !changed_nodes.is_empty()\n", "            for (rewrite, delta) in &rewrites[i..] {\n                cost_delta += delta.clone();\n                if !changed_nodes.is_empty()\n"),
   (T + "rewrite/strategy.rs", "                changed_nodes.extend(rewrite.invalidation_set());\n                cost_delta += delta.clone();\n", "                changed_nodes.extend(rewrite.invalidation_set());\n")],
  "two candidate rewrites that overlap",
  "the cost change reported by the exhaustive strategy counts rewrites that were not applied",
  """fn main() {
    use tket::portmatching::{CircuitPattern, PatternMatcher};
    use tket::rewrite::strategy::*;
    let p = build_main("fn main(q0)->(q0){H q0; H q0}");
    let m = PatternMatcher::from_patterns(vec![CircuitPattern::try_from_circuit(&p).unwrap()]);
    let c = build_main("fn main(q0)->(q0){H q0; H q0; H q0}");
    let rws: Vec<_> = m.find_matches(&c).iter().map(|x| x.to_rewrite(&c, build_main("fn main(q0)->(q0){}")).unwrap()).collect();
    assert_eq!(rws.len(), 2);
    let s = LexicographicCostFunction::default_cx_strategy();
    for r in s.apply_rewrites(rws, &c) {
        use tket::circuit::cost::{CircuitCost, LexicographicCost};
        let a: LexicographicCost<usize, 2> = s.circuit_cost(&c);
        let b: LexicographicCost<usize, 2> = s.circuit_cost(&r.circ);
        assert_eq!(b.sub_cost(&a), r.cost_delta);
    }
}
""")
seed("c22_tryqalloc", "C22",
  [(QS + "lib.rs", "            ) || optype.cast() == Some(QSystemOp::TryQAlloc);\n", "            ) || optype.cast() == Some(QSystemOp::ZZPhase);\n")],
  "a qubit allocation that is ready at the same time as a gate",
  "qubits are allocated before gates that are ready, and two-qubit gates are delayed",
  """fn main() {
    let mut h = build_main("fn main(q0,q1,f0)->(*){qsTryQAlloc -> Oq2; ZZPhase q0 q1 f0}").into_hugr();
    let main = h.entrypoint();
    tket_qsystem::QSystemPass::default().run(&mut h).unwrap();
    let find = |s: &str| h.children(main).find(|&n| h.get_optype(n).to_string().contains(s)).unwrap();
    let (mut todo, end) = (vec![find("ZZPhase")], find("TryQAlloc"));
    while let Some(n) = todo.pop() {
        if n == end {
            return;
        }
        todo.extend(h.output_neighbours(n));
    }
    panic!("the allocation is not after the gate");
}
""")
seed("c04_same_wire_twice", "C04",
  [(T + "passes/chunks.rs", "                            targets.entry(connection).or_default().push((node, port));\n", "                            let uses: &mut Vec<_> = targets.entry(connection).or_default();\n                            if uses.iter().all(|&(n, _)| n != node) {\n                                uses.push((node, port));\n                            }\n")],
  "an operation that uses the same copyable value twice, from another chunk",
  "the second use is not connected when the chunks are put together again",
  """fn main() {
    let c = build_main("fn main(q0,a0)->(q0,a1){Rz q0 a0; radd a0 a0 -> a1}");
    let c = tket::passes::CircuitChunks::split(&c, 1).reassemble().unwrap();
    c.hugr().validate().unwrap();
}
""")
seed("c05_first_arg", "C05",
  [(T + "portmatching/matcher.rs", "            rmp_serde::encode::write(&mut encoded, op.args()).ok()?;\n", "            rmp_serde::encode::write(&mut encoded, &op.args()[..op.args().len().min(1)]).ok()?;\n")],
  "a pattern with an operation that has several type arguments, and a circuit with the same operation where the last one differs",
  "patterns match operations that differ in an argument",
  """fn main() {
    use tket::portmatching::{CircuitPattern, PatternMatcher};
    let p = build_main("fn main(b0,b1)->(A2b0){anew b0 b1 -> A2b0}");
    let m = PatternMatcher::from_patterns(vec![CircuitPattern::try_from_circuit(&p).unwrap()]);
    let count = |t: &str| m.find_matches(&build_main(t)).len();
    assert_eq!(count("fn main(b0,b1)->(A2b0){anew b0 b1 -> A2b0}"), 1);
    assert_eq!(count("fn main(u0,u1)->(A2u0){anew u0 u1 -> A2u0}"), 0);
}
""")
seed("c08_prune", "C08",
  [(T + "optimiser/backtracking.rs", "                if pq.push(new_state, &context).is_some() {\n", "                if new_state.cost(&context).is_some_and(|c| c > best_cost) {\n                    continue;\n                }\n                if pq.push(new_state, &context).is_some() {\n")],
  "a search space whose best state is only reached through a state that costs more than the start",
  "states that cost more than the best one so far are never visited",
  """use tket::optimiser::*;
#[derive(Clone, Debug)]
struct S(u64);
impl State<()> for S {
    type Cost = u64;
    fn hash(&self, _: &()) -> Option<u64> { Some(self.0) }
    fn cost(&self, _: &()) -> Option<u64> { Some(self.0) }
    fn next_states(&self, _: &mut ()) -> Vec<S> {
        match self.0 {
            5 => vec![S(9)],
            9 => vec![S(1)],
            _ => vec![],
        }
    }
}
fn main() {
    let r = BacktrackingOptimiser::default().optimise_with_options(S(5), (), OptimiserOptions::default()).unwrap();
    assert_eq!(r.best_state.0, 1);
}
""")
seed("c17_last_position", "C17",
  [(T + "resource/scope.rs", "            if self.get_position(node).is_none_or(|p| p > max_end) || !visited_nodes.insert(node) {\n", "            if self.get_position(node).is_none_or(|p| p >= max_end) || !visited_nodes.insert(node) {\n")],
  "a copyable value whose computation leaves the resource scope and comes back at its last operation",
  "an expression is not recognised as non-convex, as the operation at the end position is not reached",
  """fn main() {
    use tket::resource::ResourceScope;
    let c = build_main("fn main(q0,q1)->(q0,q1){CX q0 q1; H q1}");
    let s = ResourceScope::from_circuit_ref(&c);
    let n: Vec<_> = c.commands().map(|c| c.node()).collect();
    assert!(s.any_reachable_from([(n[0], 1.into())], [(n[1], 0.into())]));
}
""")
seed("c01_source_port", "C01",
  [("tket/src/circuit/hash.rs", "fxhash::hash64(&(pred_node_hash, pred_port, input))", "fxhash::hash64(&(pred_node_hash, input))")],
  "two circuits that differ only in which output of one operation each input of a later one is connected to",
  "the hash ignores the source port of a wire, so circuits with exchanged wires between two operations compare equal",
  """use tket::circuit::CircuitHash;
fn main() {
    let hash = |t: &str| { let c = build_main(t); c.circuit_hash(c.parent()).unwrap() };
    assert_eq!(hash("fn main(q0,q1)->(q0,q1){CX q0 q1; H q0; CX q0 q1}"), hash("fn main(q0,q1)->(q0,q1){CX q0 q1; H q0; CX q0 q1}"));
    assert_ne!(hash("fn main(q0,q1,q2)->(q0,q1,q2){CX q0 q1; Toffoli q0 q1 q2}"), hash("fn main(q0,q1,q2)->(q1,q0,q2){CX q0 q1; Toffoli q1 q0 q2}"));
}
""")
seed("c09_drain", "C09",
  [("tket/src/optimiser/badger.rs", "        while let Ok(log) = rx_log.recv() {\n", "        while let Ok(log) = rx_log.try_recv() {\n")],
  "the time limit is reached while the queue thread is still busy with a batch that contains a better circuit",
  "the coordinator does not wait for the queue thread to finish, so the best circuit found before the stop is lost",
  '''use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;
use tket::circuit::cost::{CircuitCost, LexicographicCost};
use tket::hugr::ops::OpType;
use tket::optimiser::badger::{BadgerOptimiser, BadgerOptions};
use tket::rewrite::strategy::{RewriteResult, RewriteStrategy};
use tket::rewrite::{CircuitRewrite, Rewriter};
type L = LexicographicCost<usize, 1>;
/// A cost that the queue thread takes long to compare, once
#[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize)]
struct Slow(L);
static DONE: AtomicBool = AtomicBool::new(false);
impl Ord for Slow {
    fn cmp(&self, o: &Self) -> Ordering {
        if *self != *o && std::thread::current().name() == Some("priority-channel") && !DONE.swap(true, SeqCst) {
            std::thread::sleep(Duration::from_secs(4));
        }
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Slow {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl std::ops::Add for Slow {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Slow(self.0 + o.0)
    }
}
impl std::iter::Sum for Slow {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        Slow(i.map(|x| x.0).sum())
    }
}
impl CircuitCost for Slow {
    type CostDelta = LexicographicCost<isize, 1>;
    fn as_usize(&self) -> usize {
        self.0.as_usize()
    }
    fn sub_cost(&self, o: &Self) -> Self::CostDelta {
        self.0.sub_cost(&o.0)
    }
    fn add_delta(&self, d: &Self::CostDelta) -> Self {
        Slow(self.0.add_delta(d))
    }
    fn div_cost(&self, n: std::num::NonZeroUsize) -> Self {
        Slow(self.0.div_cost(n))
    }
}
/// Rewrites two gates to one
#[derive(Clone)]
struct Two(Circuit);
impl Rewriter for Two {
    fn get_rewrites(&self, _: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        vec![]
    }
}
impl RewriteStrategy for Two {
    type Cost = Slow;
    fn apply_rewrites(&self, _: impl IntoIterator<Item = CircuitRewrite>, c: &Circuit) -> impl Iterator<Item = RewriteResult<Slow>> {
        let d = Slow([1].into()).sub_cost(&Slow([2].into()));
        (c.num_operations() == 2).then(|| RewriteResult { circ: self.0.clone(), cost_delta: d }).into_iter()
    }
    fn op_cost(&self, _: &OpType) -> Slow {
        Slow([1].into())
    }
    fn circuit_cost(&self, c: &Circuit<impl HugrView<Node = Node>>) -> Slow {
        Slow([c.num_operations()].into())
    }
}
fn main() {
    let two = build_main("fn main(q0)->(q0){H q0; X q0}");
    let one = build_main("fn main(q0)->(q0){Y q0}");
    let o = BadgerOptimiser::new(Two(one.clone()), Two(one));
    let r = o.optimise(&two, BadgerOptions { n_threads: 2.try_into().unwrap(), timeout: Some(2), ..Default::default() });
    assert!(DONE.load(SeqCst));
    assert_eq!(r.num_operations(), 1);
}
''')
seed("c10_chunk_order", "C10",
  [("tket/src/optimiser/badger.rs", "        let (joins, rx_work): (Vec<_>, Vec<_>) = chunks\n", "        let (tx_done, rx_done) = crossbeam_channel::unbounded();\n        let joins: Vec<_> = chunks\n"),
   ("tket/src/optimiser/badger.rs", "                let (tx, rx) = crossbeam_channel::unbounded();\n                let badger", "                let tx = tx_done.clone();\n                let badger"),
   ("tket/src/optimiser/badger.rs", "                (join, rx)\n            })\n            .unzip();\n", "                join\n            })\n            .collect();\n"),
   ("tket/src/optimiser/badger.rs", "            let res = rx_work[i]\n", "            let res = rx_done\n")],
  "a circuit that is split into chunks whose optimisation ends in another order than that of the chunks",
  "the optimised chunks are put together in the order in which their threads finish",
  '''use tket::optimiser::badger::{BadgerOptimiser, BadgerOptions, DefaultBadgerStrategy};
use tket::rewrite::{CircuitRewrite, Rewriter};
/// Nothing to rewrite; slow in the first chunk
#[derive(Clone)]
struct Sleepy;
impl Rewriter for Sleepy {
    fn get_rewrites(&self, _: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        if std::thread::current().name() == Some("chunk-0") {
            std::thread::sleep(std::time::Duration::from_secs(2));
        }
        vec![]
    }
}
fn main() {
    compare("fn main(q0,q1)->(q0,q1){CX q0 q1; H q0; CX q1 q0; T q0; CX q0 q1; H q1; CX q0 q1}", &Opts::default(), |h| {
        let o = BadgerOptimiser::new(Sleepy, DefaultBadgerStrategy::default());
        *h = o.optimise(&Circuit::new(h.clone()), BadgerOptions { n_threads: 2.try_into().unwrap(), split_circuit: true, ..Default::default() }).into_hugr();
    });
}
''')
seed("c16_negation", "C16",
  [("tket/src/serialize/pytket/extension/float.rs", 'FloatOps::fneg => format!("-({})", inputs[0]),', 'FloatOps::fneg => format!("-{}", inputs[0]),')],
  "a negation whose operand is itself computed by an operation of lower precedence",
  "the negation of a sum is written so that it only applies to the first term",
  '''use tket::serialize::pytket::{default_encoder_config, save_tk1_json_str, load_tk1_json_str, DecodeOptions, EncodeOptions};
fn main() {
    compare("fn main(q0)->(q0){f64(0.25) -> f0; f64(0.125) -> f1; fadd f0 f1 -> f0; fneg f0 -> f0; from_halfturns_unchecked f0 -> a0; Rx q0 a0; H q0}", &Opts::default(), |h| {
        let s = save_tk1_json_str(&tket::Circuit::new(h.clone()), EncodeOptions::new().with_config(default_encoder_config())).unwrap();
        let name = "main".to_string();
        *h = load_tk1_json_str(&s, DecodeOptions::new()).unwrap().into_hugr();
        let _ = name;
    });
}
''')
seed("c14_float_input", "C14",
  [("tket/src/serialize/pytket/decoder.rs", "                    LoadedParameter::float_half_turns(wire)\n                };\n                match input_params", "                    LoadedParameter::float_radians(wire)\n                };\n                match input_params")],
  "a program with a float input from which an angle is made",
  "float inputs of a decoded program are taken for radians, so that a rotation made from them has another angle",
  '''use tket::serialize::pytket::{EncodedCircuit, EncodeOptions};
fn main() {
    compare("fn main(q0,f0)->(q0){from_halfturns_unchecked f0 -> a0; Rx q0 a0; H q0}", &Opts::default(), |h| {
        let e = EncodedCircuit::new(&tket::Circuit::new(h.clone()), EncodeOptions::new()).unwrap();
        e.reassemble_inplace(h, None).unwrap();
    });
}
''')

seed("c23_signal_range", "C23",
  [("tket-qsystem/src/llvm/prelude.rs", ".const_int(u64::from(err.signal), false);", ".const_int(u64::from(err.signal.clamp(1, 1000)), false);")],
  "an error whose signal is above 1000",
  "a panic with a code beyond the range of exit codes stops with another code",
  '''mod llvm;
fn main() {
    let t = llvm::llvm("fn main()->(){QAlloc -> q0; H q0; Measure q0 -> q0 b0; if b0 {err(1234,m) -> E0; panic E0 ->}; QFree q0 ->}");
    assert!(t.contains("i32 2234"), "the code of the panic is missing:\\n{t}");
}
''', aux=("llvm.rs",), sh="demo_llvm.sh")
seed("c23_gpu_cache", "C23",
  [("qis-compiler/rust/gpu.rs", '''        let module = ctx.get_current_module();
        let flag_name = format!("gpu_cache_is_set_function_id_{}", name);
        let stored_id_name = format!("gpu_cache_function_id_{}", name);
        let function_name = format!("gpu_function_id_{}", name);''', '''        let module = ctx.get_current_module();
        // Only use characters that every object format accepts.
        let symbol = name.replace(|c: char| !c.is_ascii_alphanumeric(), "_");
        let flag_name = format!("gpu_cache_is_set_function_id_{}", symbol);
        let stored_id_name = format!("gpu_cache_function_id_{}", symbol);
        let function_name = format!("gpu_function_id_{}", symbol);''')],
  "two GPU functions whose names differ only in a punctuation character",
  "a lookup of the second function returns the id of the first",
  '''mod llvm;
fn main() {
    let t = llvm::llvm("fn main()->(){gmod -> M0; u(0) -> u0; gctx u0 -> Oc0; unwrap Oc0 -> c0; glookup(f.c) M0 -> K0v0; glookup(f_c) M0 -> K0v1; gcall c0 K0v0 -> Rv0; gread Rv0 -> c0; gcall c0 K0v1 -> Rv0; gread Rv0 -> c0; gdispose c0 ->}");
    assert!(t.contains("c\\"f.c\\\\00\\"") && t.contains("c\\"f_c\\\\00\\""), "a name is never looked up:\\n{t}");
}
''', aux=("llvm.rs",), sh="demo_llvm.sh")

seed("c19_get_bound", "C19",
  [(QS + "replace_bools.rs", "IntOpDef::ilt_u.with_log_width(6), [idx_as_int, bound]", "IntOpDef::ilt_s.with_log_width(6), [idx_as_int, bound]")],
  "reading a borrow array of measurement results with `get` at an index of 2^63 or more",
  "`get` stops the program with a panic instead of reporting that such an index is out of range",
  """fn main() {
    compare("fn main(q0,q1)->(*){MeasureFree q0 -> t0; MeasureFree q1 -> t1; anew t0 t1 -> A2t0; u(18446744073709551615) -> u0; aget A2t0 u0 -> Ot0 A2t0; drop A2t0 ->}", &Opts::default(), |h| tket_qsystem::QSystemPass::default().run(h).unwrap());
}
""")
seed("c13_phase_half", "C13",
  [(MR + "global_phase_modify.rs", "ConstF64::new(if dagger { -0.5 } else { 0.5 })", "ConstF64::new(0.5)")],
  "a global phase in a function that is both controlled and daggered",
  "the relative phase between the control's values has the wrong sign",
  """fn main() {
    compare("fn f(q0)->(q0)@7{phase(0.3); H q0} fn main(V2q10,q0)->(V2q10,q0){mod d c2 : f V2q10 q0 -> V2q10 q0}", &Opts::default(), |h| {
        let main = h.entrypoint();
        tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints(h, [main]).unwrap();
    });
}
""")
seed("c16_precedence", "C16",
  [("tket/src/serialize/pytket/decoder/param/parser.rs", "            .op(Op::infix(multiply, Left) | Op::infix(divide, Left))\n", "            .op(Op::infix(divide, Left))\n            .op(Op::infix(multiply, Left))\n")],
  "an expression that multiplies after dividing, without parentheses",
  "`a/b*c` is read as `a/(b*c)`",
  '''fn main() {
    let s = r#"{"bits": [], "commands": [{"args": [["q", [0]]], "op": {"params": ["a/b*c"], "type": "Rx"}}], "created_qubits": [], "discarded_qubits": [], "implicit_permutation": [[["q", [0]], ["q", [0]]]], "phase": "0.0", "qubits": [["q", [0]]]}"#;
    let d = tket::serialize::pytket::load_tk1_json_str(s, tket::serialize::pytket::DecodeOptions::new()).unwrap();
    // the division comes first: its first operand is the parameter `a`, so it does not depend on any other operation
    let h = d.hugr();
    let op = |n: Node| h.get_optype(n).as_extension_op().map(|x| x.def().name().to_string()).unwrap_or_default();
    let div = h.nodes().find(|n| op(*n) == "fdiv").expect("a division");
    for m in h.input_neighbours(div) {
        assert_ne!(op(m), "fmul");
    }
}
''')
seed("c16_pi", "C16",
  [("tket/src/serialize/pytket/extension/rotation.rs", '(-3. * PI / 4., "-3pi/4")', '(-3. * PI / 4., "-3pi/2")')],
  "a constant angle of -3*pi/4 half turns",
  "the angle is exported as another one",
  '''use tket::serialize::pytket::{default_encoder_config, save_tk1_json_str, load_tk1_json_str, DecodeOptions, EncodeOptions};
fn main() {
    let a = -3.0 * std::f64::consts::PI / 4.0;
    compare(&format!("fn main(q0)->(q0){{Rx({a}) q0; H q0}}"), &Opts::default(), |h| {
        let s = save_tk1_json_str(&tket::Circuit::new(h.clone()), EncodeOptions::new().with_config(default_encoder_config())).unwrap();
        *h = load_tk1_json_str(&s, DecodeOptions::new()).unwrap().into_hugr();
    });
}
''')
seed("c15_signature", "C15",
  [("tket/src/serialize/pytket/extension/tk1.rs", "        if op.signature.is_none() {\n            op.signature =\n                Some([vec![\"Q\".into(); num_qubits], vec![\"B\".into(); num_bits]].concat());\n        }\n", "        op.signature = Some([vec![\"Q\".into(); num_qubits], vec![\"B\".into(); num_bits]].concat());\n")],
  "a command that the importer does not know and that declares a signature of its own, such as one that only reads its bits",
  "the command comes back with another signature",
  '''fn main() {
    let s = r#"{"bits": [["c", [0]], ["c", [1]]], "commands": [{"args": [["c", [0]], ["c", [1]]], "op": {"type": "RangePredicate", "signature": ["I", "B"], "classical": {"lower": 1, "upper": 1, "n_i": 1}}}], "created_qubits": [], "discarded_qubits": [], "implicit_permutation": [], "phase": "0.0", "qubits": []}"#;
    use tket::serialize::pytket::*;
    let d = load_tk1_json_str(s, DecodeOptions::new()).unwrap();
    let t = save_tk1_json_str(&d, EncodeOptions::new()).unwrap();
    let j: serde_json::Value = serde_json::from_str(&t).unwrap();
    assert_eq!(j["commands"][0]["op"]["signature"], serde_json::json!(["I", "B"]), "{t}");
}
''')
seed("c21_strict_drops", "C21",
  [(QS + "lib.rs", "            self.replace_bools().run(hugr)?;\n        }\n", "            self.replace_bools().run(hugr)?;\n            self.lower_drops().run(hugr)?;\n        }\n"),
   (QS + "lib.rs", "        self.lower_drops().run(hugr)?;\n        self.linearize_arrays()", "        self.linearize_arrays()")],
  "compiling without lazy measurement a program that drops a value",
  "generic drop operations are left in the result",
  """fn main() {
    let mut h = build_main("fn main(q0,q1)->(*){Measure q0 -> q0 b0; anew b0 b0 -> V2b0; drop V2b0 ->; H q0}").into_hugr();
    tket_qsystem::QSystemPass::default().with_lazify(false).run(&mut h).unwrap();
    assert!(!h.nodes().any(|n| h.get_optype(n).as_extension_op().is_some_and(|x| x.def().name() == "drop")));
}
""")
seed("c24_str_registry", "C24",
  [("tket/src/serialize.rs", "        envelope: impl AsRef<str>,\n        extensions: Option<&ExtensionRegistry>,\n    ) -> Result<Self, CircuitLoadError> {\n        let extensions = extensions.unwrap_or(&REGISTRY);\n", "        envelope: impl AsRef<str>,\n        extensions: Option<&ExtensionRegistry>,\n    ) -> Result<Self, CircuitLoadError> {\n        let extensions = extensions.filter(|e| e.len() < REGISTRY.len()).unwrap_or(&REGISTRY);\n")],
  "loading from a string a program with operations of an extension that only the given registry has",
  "the given registry is only used when it is smaller than the default one",
  """fn main() {
    let c = build_main("fn main(q0)->(q0){PhasedX(0.5,0.25) q0}");
    let s = c.store_str(tket::hugr::envelope::EnvelopeConfig::text()).unwrap();
    let d = Circuit::load_str(&s, Some(&prog::REG)).unwrap();
    assert!(c == d);
}
""")
seed("c17_swapped_kinds", "C17",
  [("tket/src/resource/flow.rs", "            if !input_ty.copyable() || !output_ty.copyable() {\n", "            if !input_ty.copyable() && !output_ty.copyable() {\n")],
  "an operation that gives a qubit at a position where it takes a value, or the other way around",
  "such an operation is taken to pass its qubits on, so that resources end and begin in the wrong places or the scope cannot be built",
  """fn main() {
    use tket::resource::ResourceScope;
    let c = build_main("fn g(q0,q1)->(q0,b0){Measure q1 -> q1 b0;QFree q1 ->} fn l(q0,b0)->(q0,q1){QAlloc -> q1} fn main(q0,q1)->(q0,q1){call g q0 q1 -> q0 b0; call l q0 b0 -> q0 q1; H q1}");
    let s = ResourceScope::from_circuit_ref(&c);
    let mut seen = 0;
    for cmd in c.commands().filter(|cmd| cmd.optype().is_call()) {
        // Neither callee passes its arguments on position by position, so
        // every qubit that a call gives is a new resource.
        let n = cmd.node();
        let before: Vec<_> = c.hugr().in_value_types(n).filter_map(|(p, _)| s.get_resource_id(n, p)).collect();
        for (p, _) in c.hugr().out_value_types(n) {
            if let Some(id) = s.get_resource_id(n, p) {
                assert!(!before.contains(&id), "{p:?} of {n} goes on with {id:?}");
                seen += 1;
            }
        }
    }
    assert_eq!(seen, 3);
}
""")
seed("c02_cost", "C02",
  [("tket/src/circuit.rs", "        self.commands().map(|cmd| op_cost(cmd.optype())).sum()\n", "        self.operations().map(|cmd| op_cost(cmd.optype())).sum()\n")],
  "a cost function that gives a cost to something else than an extension operation, such as a nested region or a call",
  "the sum of the costs skips the commands that are not extension operations",
  """fn main() {
    let c = build_main("fn f(q0)->(q0){H q0} fn main(q0)->(q0){H q0; call f q0; dfg {H q0}}");
    assert_eq!(c.circuit_cost(|_| 1usize), c.commands().count());
}
""")
