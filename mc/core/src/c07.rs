//! C07: rewrite strategies over every small set of candidate rewrites, against independently applied sets.
use crate::c05::{graph, Terms};
use crate::ctx::*;
use crate::gen::*;
use std::collections::{BTreeSet, HashMap};
use tket::hugr::builder::{DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer};
use tket::hugr::extension::simple_op::MakeExtensionOp;
use tket::hugr::hugr::views::SiblingSubgraph;
use tket::hugr::ops::OpType;
use tket::hugr::types::Signature;
use tket::hugr::extension::prelude::qb_t;
use tket::hugr::{Hugr, HugrView, Node, Wire};
use tket::rewrite::strategy::*;
use tket::rewrite::CircuitRewrite;
use tket::{Circuit, TketOp};

fn form(c: &Circuit) -> String {
    let g = graph(c.hugr(), c.parent());
    let mut l = g.label[2..].to_vec();
    l.sort();
    format!("{:?} {:?}", Terms::plain(&g).outputs(), l)
}
fn name(o: &OpType) -> Option<String> {
    match o {
        OpType::ExtensionOp(e) => Some(format!("{}", e.def().name())),
        _ => None,
    }
}
/// operations of the region (not inside nested regions), by name
fn ops(c: &Circuit) -> Vec<String> {
    c.hugr().children(c.parent()).filter_map(|n| name(c.hugr().get_optype(n))).collect()
}
/// gates anywhere below, without tuples and identities
fn size(c: &Circuit) -> i64 {
    c.hugr().descendants(c.parent()).filter(|n| is_gate(c.hugr().get_optype(*n))).count() as i64
}
fn is_gate(o: &OpType) -> bool {
    name(o).is_some_and(|n| !["MakeTuple", "UnpackTuple", "Noop"].contains(&n.as_str()))
}
fn cx(v: &[String]) -> i64 {
    v.iter().filter(|s| *s == "CX").count() as i64
}
fn rz(v: &[String]) -> i64 {
    v.iter().filter(|s| *s == "Rz").count() as i64
}
fn quantum(v: &[String]) -> i64 {
    v.iter().filter(|s| ["CX", "H", "Rz", "T", "CZ"].contains(&s.as_str())).count() as i64
}
/// Circuits of the given type that a subgraph may be replaced with
fn replacements(sig: &Signature, th: bool) -> Vec<(String, Circuit)> {
    let mut out = vec![];
    let quant: Vec<usize> = (0..sig.input.len()).filter(|i| !sig.input[*i].copyable()).collect();
    // rewrites of nothing but classical values, and of containers (refused by hugr), are not offered
    let linear: Vec<_> = quant.iter().map(|i| &sig.input[*i]).collect();
    if quant.is_empty() || linear != sig.output.iter().collect::<Vec<_>>() || linear.iter().any(|t| **t != qb_t()) {
        return out;
    }
    let mut kinds: Vec<Vec<(TketOp, Vec<usize>)>> = vec![vec![], vec![(TketOp::H, vec![0])]];
    if th {
        kinds.push(vec![(TketOp::T, vec![0]), (TketOp::H, vec![0])]);
    }
    if quant.len() > 1 {
        kinds.push(vec![(TketOp::CX, vec![1, 0])]);
        kinds.push(vec![(TketOp::CX, vec![0, 1]), (TketOp::H, vec![1]), (TketOp::T, vec![1])]);
    } else {
        kinds.push(vec![(TketOp::T, vec![0]), (TketOp::T, vec![0]), (TketOp::T, vec![0])]);
    }
    for nested in [false, true] {
        for k in &kinds {
            if nested && k.len() != 1 {
                continue;
            }
            let mut b = DFGBuilder::new(sig.clone()).unwrap();
            let ins: Vec<_> = b.input_wires().collect();
            let mut w: Vec<_> = quant.iter().map(|i| ins[*i]).collect();
            if nested {
                let tys: Vec<_> = sig.output.iter().cloned().collect();
                let mut d = b.dfg_builder(Signature::new_endo(tys), w.clone()).unwrap();
                let iw = d.input_wires().collect();
                let iw = gates(&mut d, k, iw);
                w = d.finish_with_outputs(iw).unwrap().outputs().collect();
            } else {
                w = gates(&mut b, k, w);
            }
            let t = format!("{}{}", if nested { "dfg" } else { "" }, k.iter().map(|(o, q)| format!("{o:?}{q:?}")).collect::<Vec<_>>().join(""));
            out.push((t, Circuit::new(b.finish_hugr_with_outputs(w).unwrap())));
        }
    }
    out
}
fn gates(b: &mut impl Dataflow, k: &[(TketOp, Vec<usize>)], mut w: Vec<Wire>) -> Vec<Wire> {
    for (op, qs) in k {
        let o = b.add_dataflow_op(*op, qs.iter().map(|q| w[*q]).collect::<Vec<_>>()).unwrap();
        for (q, x) in qs.iter().zip(o.outputs()) {
            w[*q] = x;
        }
    }
    w
}
/// A subgraph including the loads of constants that only its operations use
fn with_loads(h: &Hugr, nodes: &[Node]) -> Option<SiblingSubgraph> {
    let (mut ins, mut outs) = (vec![], vec![]);
    for n in nodes {
        for p in h.node_inputs(*n).filter(|p| h.get_optype(*n).port_kind(*p).is_some_and(|k| k.is_value())) {
            if !nodes.contains(&h.single_linked_output(*n, p)?.0) {
                ins.push(vec![(*n, p)]);
            }
        }
        for p in h.node_outputs(*n).filter(|p| h.get_optype(*n).port_kind(*p).is_some_and(|k| k.is_value())) {
            if h.linked_inputs(*n, p).any(|(t, _)| !nodes.contains(&t)) {
                outs.push((*n, p));
            }
        }
    }
    let sub = SiblingSubgraph::try_new(ins, outs, h).ok()?;
    (sub.nodes().iter().collect::<BTreeSet<_>>() == nodes.iter().collect::<BTreeSet<_>>()).then_some(sub)
}
struct Cand {
    text: String,
    rw: CircuitRewrite,
    nodes: BTreeSet<Node>,
    /// operations removed and added
    old: Vec<String>,
    new: Vec<String>,
    size: i64,
}
fn candidates(c: &Circuit, th: bool, max: usize) -> Vec<Cand> {
    let h = c.hugr();
    let ns: Vec<Node> = h.children(c.parent()).filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_) | OpType::Const(_))).collect();
    let mut out = vec![];
    for m in 1u32..1 << ns.len() {
        if m.count_ones() as usize > max {
            continue;
        }
        let nodes: Vec<Node> = (0..ns.len()).filter(|i| m >> i & 1 == 1).map(|i| ns[i]).collect();
        if nodes.iter().any(|n| h.children(*n).next().is_some()) {
            continue;
        }
        let loads = nodes.iter().any(|n| h.get_optype(*n).is_load_constant());
        let Some(sub) = (if loads { with_loads(h, &nodes) } else { SiblingSubgraph::try_from_nodes(nodes.clone(), h).ok() }) else { continue };
        for (t, r) in replacements(&sub.signature(h), th) {
            let Ok(rw) = CircuitRewrite::try_new(&sub, h, r.clone()) else { continue };
            let old: Vec<String> = nodes.iter().filter_map(|n| name(h.get_optype(*n))).collect();
            let osize: i64 = nodes.iter().flat_map(|n| h.descendants(*n)).filter(|n| is_gate(h.get_optype(*n))).count() as i64;
            out.push(Cand { text: format!("{:?}->{t}", nodes.iter().map(|n| n.to_string()).collect::<Vec<_>>()), rw, nodes: nodes.iter().copied().collect(), old, new: ops(&r), size: size(&r) - osize });
        }
    }
    out
}
/// Applies a set of candidates to the circuit; memoised
struct Sets<'a> {
    c: &'a Circuit,
    cands: &'a [&'a Cand],
    done: HashMap<u32, (String, Vec<String>, i64)>,
}
impl Sets<'_> {
    fn get(&mut self, set: u32) -> Result<&(String, Vec<String>, i64), String> {
        if !self.done.contains_key(&set) {
            let mut c = self.c.clone();
            for (i, k) in self.cands.iter().enumerate() {
                if set >> i & 1 == 1 {
                    k.rw.clone().apply(&mut c).map_err(|e| format!("applying candidate {}: {e}", k.text))?;
                }
            }
            c.hugr().validate().map_err(|e| format!("after candidates {set:b}: {e}"))?;
            self.done.insert(set, (form(&c), ops(&c), size(&c)));
        }
        Ok(&self.done[&set])
    }
}
/// `must`: the results are one per allowed candidate, `Some(true)` applying it alone, `Some(false)` with others;
/// `None`: a single result with as many as possible.
fn strategy<S: RewriteStrategy>(ctx: &Ctx, name: &str, s: &S, must: Option<bool>, sets: &mut Sets, cost: &dyn Fn(&[String], i64) -> Vec<i64>, allowed: &dyn Fn(&Cand) -> bool) -> Result<(), String> {
    let n = sets.cands.len();
    let before = form(sets.c);
    let res: Vec<(Circuit, String)> = s.apply_rewrites(sets.cands.iter().map(|c| c.rw.clone()).collect::<Vec<_>>(), sets.c).map(|r| (r.circ, format!("{:?}", r.cost_delta))).collect();
    if form(sets.c) != before {
        return Err(format!("{name}: the input circuit changed"));
    }
    let ok: u32 = (0..n).filter(|i| allowed(sets.cands[*i])).map(|i| 1 << i).sum();
    let disjoint = |set: u32| (0..n).all(|i| (0..i).all(|j| set >> i & 1 == 0 || set >> j & 1 == 0 || sets.cands[i].nodes.is_disjoint(&sets.cands[j].nodes)));
    let possible: Vec<u32> = (0u32..1 << n).filter(|m| m & !ok == 0 && disjoint(*m)).collect();
    let c0 = cost(&ops(sets.c), size(sets.c));
    let mut explained: Vec<Vec<u32>> = vec![];
    for (c, delta) in &res {
        c.hugr().validate().map_err(|e| format!("{name}: invalid result: {e}"))?;
        ctx.trans(1);
        let f = form(c);
        let mut here = vec![];
        for m in &possible {
            if sets.get(*m)?.0 == f {
                here.push(*m);
            }
        }
        if here.is_empty() {
            return Err(format!("{name}: a result is not the input with a set of non-overlapping allowed candidates applied: {f}"));
        }
        let (_, o, z) = sets.get(here[0])?;
        let d: Vec<i64> = cost(o, *z).iter().zip(&c0).map(|(a, b)| a - b).collect();
        let d = if d.len() == 1 { format!("{}", d[0]) } else { format!("{d:?}") };
        if d != *delta {
            return Err(format!("{name}: a result reports a change of cost of {delta}, it is {d}: {f}"));
        }
        let a = cost(&ops(c), size(c));
        if format!("{a:?}").trim_matches(['[', ']']) != format!("{:?}", s.circuit_cost(c)).trim_matches(['[', ']']) {
            return Err(format!("{name}: circuit_cost is {:?}, expected {a:?}", s.circuit_cost(c)));
        }
        explained.push(here);
    }
    let extendable = |m: u32| (0..n).any(|i| m >> i & 1 == 0 && ok >> i & 1 == 1 && disjoint(m | 1 << i));
    match must {
        None => {
            if res.len() != 1 {
                return Err(format!("{name}: {} results", res.len()));
            }
            if explained[0].iter().all(|m| extendable(*m)) {
                return Err(format!("{name}: another candidate could have been applied to {}", form(&res[0].0)));
            }
        }
        Some(alone) => {
            if res.len() != ok.count_ones() as usize {
                return Err(format!("{name}: {} results for {} allowed candidates", res.len(), ok.count_ones()));
            }
            // a different result for every allowed candidate
            let mut left: Vec<usize> = (0..res.len()).collect();
            for i in (0..n).filter(|i| ok >> i & 1 == 1) {
                let fits = |k: &usize| explained[*k].iter().any(|m| m >> i & 1 == 1 && (!alone || m.count_ones() == 1));
                match left.iter().position(|k| fits(k)) {
                    // with several candidates per result, a result may stand for another candidate too
                    Some(p) if alone => {
                        left.remove(p);
                    }
                    Some(_) => {}
                    None => return Err(format!("{name}: no result applies the candidate {}", sets.cands[i].text)),
                }
            }
        }
    }
    Ok(())
}
fn check(ctx: &Ctx, c: &Circuit, cands: &[&Cand]) -> Result<(), String> {
    let mut sets = Sets { c, cands, done: HashMap::new() };
    let lexi = |f: fn(&[String]) -> i64| move |o: &[String], _: i64| vec![f(o), quantum(o)];
    let one = |f: fn(&[String]) -> i64| move |o: &[String], _: i64| vec![f(o)];
    strategy(ctx, "greedy", &GreedyRewriteStrategy, None, &mut sets, &|_, z| vec![z], &|k| k.size < 0)?;
    let le = |f: fn(&[String]) -> i64| move |k: &Cand| f(&k.new) <= f(&k.old);
    strategy(ctx, "cx greedy", &LexicographicCostFunction::default_cx_strategy(), Some(false), &mut sets, &lexi(cx), &le(cx))?;
    strategy(ctx, "rz greedy", &LexicographicCostFunction::rz_count().into_greedy_strategy(), Some(false), &mut sets, &lexi(rz), &le(rz))?;
    strategy(ctx, "cx threshold", &LexicographicCostFunction::cx_count().into_threshold_strategy(), Some(true), &mut sets, &lexi(cx), &le(cx))?;
    strategy(ctx, "rz threshold", &LexicographicCostFunction::rz_count().into_threshold_strategy(), Some(true), &mut sets, &lexi(rz), &le(rz))?;
    for gamma in [0.5, 1.0001, 3.0] {
        let lt = move |k: &Cand| (cx(&k.new) as f64) < gamma * cx(&k.old) as f64;
        strategy(ctx, &format!("gamma {gamma}"), &GammaStrategyCost::exhaustive_cx_with_gamma(gamma), Some(true), &mut sets, &one(cx), &lt)?;
        let lt = move |k: &Cand| (quantum(&k.new) as f64) < gamma * quantum(&k.old) as f64;
        let q = |o: &OpType| o.as_extension_op().and_then(|o| TketOp::from_extension_op(o).ok()).is_some() as usize;
        strategy(ctx, &format!("gamma quantum {gamma}"), &GammaStrategyCost::new(gamma, q), Some(true), &mut sets, &one(quantum), &lt)?;
    }
    strategy(ctx, "gamma cx", &GammaStrategyCost::exhaustive_cx(), Some(true), &mut sets, &one(cx), &|k| (cx(&k.new) as f64) < 1.0001 * cx(&k.old) as f64)?;
    ctx.states(1);
    ctx.traces(sets.done.len() as u64);
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut progs: Vec<String> = vec![];
    for n in 0..=if th { 4 } else { 3 } {
        progs.extend(programs("q0,q1", "", if n < 3 || th { &["H q0", "CX q0 q1", "CX q1 q0", "T q1"] } else { &["H q0", "CX q0 q1"] }, n, ""));
        if n < 3 || th && n < 4 {
            progs.extend(programs("q0,q1,a0", "", &["CX q0 q1", "Rz q0 a0", "Rz(0.5) q1", "dfg {H q0; CX q0 q1}", "radd a0 a0 -> a1", "Rz q0 a1", "pack q0 q1 -> Pqq0; unpack Pqq0 -> q0 q1"], n, ""));
        }
    }
    progs.sort();
    progs.dedup();
    let most = std::sync::atomic::AtomicU64::new(0);
    ctx.bound("circuits", progs.len() as u64);
    ctx.par(progs.len(), |i| {
        let (_, c) = match circuit(&progs[i]) {
            Ok(x) => x,
            Err(e) if e.contains("slot") => return,
            Err(e) => return ctx.fail(&progs[i], &e),
        };
        let cs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| candidates(&c, th, 3))) {
            Ok(c) => c,
            Err(_) => return ctx.fail(&progs[i], &format!("building candidates panics: {}", PANIC.with(|p| p.borrow().clone()))),
        };
        let n = cs.len();
        most.fetch_max(n as u64, std::sync::atomic::Ordering::Relaxed);
        let go = |ix: &[usize]| {
            let list: Vec<&Cand> = ix.iter().map(|i| &cs[*i]).collect();
            let key = format!("{} @ {}", progs[i], list.iter().map(|c| c.text.as_str()).collect::<Vec<_>>().join(" & "));
            ctx.case(&key, || check(ctx, &c, &list));
        };
        go(&[]);
        for a in 0..n {
            go(&[a]);
            // both orders
            for b in (0..n).filter(|b| *b != a && (th || n < 20 || (a + b) % 4 == 0)) {
                go(&[a, b]);
            }
        }
        // three, and four, of them: the same kind of replacement everywhere or one odd one out
        let cap = if th { 24 } else { 9 };
        let step = n.div_ceil(cap).max(1);
        let pick: Vec<usize> = (0..n).step_by(step).collect();
        for (x, a) in pick.iter().enumerate() {
            for (y, b) in pick.iter().enumerate().skip(x + 1) {
                for d in pick.iter().skip(y + 1) {
                    go(&[*a, *b, *d]);
                    go(&[*d, *b, *a]);
                }
            }
        }
    });
    ctx.bound("most candidates of a circuit", most.into_inner());
}
