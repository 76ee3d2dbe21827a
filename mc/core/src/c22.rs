//! C22: order forcing. The result is compared node by node with the program given to the pass (native
//! programs keep their node ids when only order forcing acts on them).
use crate::ctx::*;
use crate::gen::*;
use crate::qs::*;
use std::collections::{BTreeMap, BTreeSet};
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::{OpTag, OpTrait, OpType};
use tket::hugr::types::EdgeKind;
use tket::hugr::{Hugr, HugrView, Node};
use tket_qsystem::QSystemPass;

/// Edges between siblings: (source, target) -> is any of them a value/const edge; order edges separately
fn edges(h: &Hugr, parent: Node) -> (BTreeSet<(Node, Node)>, BTreeSet<(Node, Node)>) {
    let (mut data, mut order) = (BTreeSet::new(), BTreeSet::new());
    for n in h.children(parent) {
        for p in h.node_outputs(n).collect::<Vec<_>>() {
            let k = h.get_optype(n).port_kind(p);
            for (t, _) in h.linked_inputs(n, p) {
                // an edge into a nested region is a dependency of the container
                let mut t = t;
                while let Some(q) = h.get_parent(t) {
                    if q == parent {
                        break;
                    }
                    t = q;
                }
                if h.get_parent(t) != Some(parent) {
                    continue;
                }
                if matches!(k, Some(EdgeKind::StateOrder)) {
                    order.insert((n, t));
                } else {
                    data.insert((n, t));
                }
            }
        }
    }
    (data, order)
}
fn orderable(o: &OpType) -> bool {
    o.other_output() == Some(EdgeKind::StateOrder) && o.other_input() == Some(EdgeKind::StateOrder)
}
fn name(h: &Hugr, n: Node) -> String {
    h.get_optype(n).as_extension_op().map(|x| format!("{}.{}", x.def().extension_id(), x.def().name())).unwrap_or_else(|| format!("{}", h.get_optype(n)))
}
fn rank(h: &Hugr, n: Node) -> i64 {
    let s = name(h, n);
    match s.as_str() {
        "tket.qsystem.QFree" | "tket.quantum.QFree" => -3,
        "tket.qsystem.TryQAlloc" | "tket.quantum.TryQAlloc" | "tket.quantum.QAlloc" => -1,
        "tket.futures.Read" => 1,
        _ if s.starts_with("tket.qsystem.") && !s.starts_with("tket.qsystem.random.") && !s.starts_with("tket.qsystem.utils.") || s.starts_with("tket.quantum.") => -2,
        _ => 0,
    }
}
/// The one order the edges of the region allow, or an error
fn total(h: &Hugr, parent: Node) -> Result<Vec<Node>, String> {
    let nodes: Vec<Node> = h.children(parent).filter(|n| orderable(h.get_optype(*n))).collect();
    let (data, order) = edges(h, parent);
    let mut succ: BTreeMap<Node, BTreeSet<Node>> = BTreeMap::new();
    let mut deg: BTreeMap<Node, usize> = nodes.iter().map(|n| (*n, 0)).collect();
    for (a, b) in data.union(&order) {
        if deg.contains_key(a) && deg.contains_key(b) && succ.entry(*a).or_default().insert(*b) {
            *deg.get_mut(b).unwrap() += 1;
        }
    }
    let mut out = vec![];
    while !deg.is_empty() {
        let ready: Vec<Node> = deg.iter().filter(|(_, d)| **d == 0).map(|(n, _)| *n).collect();
        match ready.as_slice() {
            [] => return Err("the order edges form a cycle".into()),
            [n] => {
                out.push(*n);
                deg.remove(n);
                for t in succ.get(n).into_iter().flatten() {
                    *deg.get_mut(t).unwrap() -= 1;
                }
            }
            _ => return Err(format!("not totally ordered: {} are unordered", ready.iter().map(|n| name(h, *n)).collect::<Vec<_>>().join(" and "))),
        }
    }
    for w in out.windows(2) {
        if !order.contains(&(w[0], w[1])) && !data.contains(&(w[0], w[1])) {
            return Err("successive operations have no edge".into());
        }
    }
    Ok(out)
}
fn regions(h: &Hugr) -> Vec<Node> {
    h.descendants(h.module_root()).filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent).collect()
}

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (es, prog) = match text.strip_prefix("edges:") {
            Some(t) => t.split_once(':').unwrap(),
            None => ("", text),
        };
        let (mut b, mut ord) = source(prog)?;
        if !es.is_empty() {
            // order edges between the operations of main, by program position
            let ns: Vec<Node> = b.hugr.children(b.main).filter(|n| orderable(b.hugr.get_optype(*n)) && !matches!(b.hugr.get_optype(*n), OpType::LoadConstant(_))).collect();
            for e in es.split(',') {
                let (x, y) = e.split_once('-').unwrap();
                let (Some(x), Some(y)) = (ns.get(x.parse::<usize>().unwrap()), ns.get(y.parse::<usize>().unwrap())) else { return Err("SKIP no such operation".into()) };
                b.hugr.add_other_edge(*x, *y);
            }
            b.hugr.validate().map_err(|e| format!("SKIP {e}"))?;
            ord = false;
        }
        let native = native_only(&b.hugr, true).is_ok();
        let before = behave_with(ctx, &b.hugr, b.main, &opts(ord)).map_err(|e| format!("reference program: {e}"))?;
        let pass = if native { QSystemPass::default().with_monormophize(false).with_lazify(false) } else { QSystemPass::default() };
        let h = compile(&b.hugr, b.main, pass)?;
        ctx.traces(1);
        for r in regions(&h) {
            let seq = total(&h, r)?;
            ctx.count("regions", 1);
            if !native {
                continue;
            }
            // same nodes, same dependencies
            let (d0, o0) = edges(&b.hugr, r);
            let (d1, o1) = edges(&h, r);
            if d0 != d1 {
                return Err("value edges changed".into());
            }
            if !o0.is_subset(&o1) {
                return Err("an order edge was lost".into());
            }
            let mut left: BTreeSet<Node> = seq.iter().copied().collect();
            for n in &seq {
                let ready: Vec<Node> = left.iter().copied().filter(|m| !d0.union(&o0).any(|(a, b)| b == m && left.contains(a))).collect();
                if !ready.contains(n) {
                    return Err(format!("{} comes before something it depends on", name(&h, *n)));
                }
                if let Some(m) = ready.iter().find(|m| rank(&h, **m) < rank(&h, *n)) {
                    return Err(format!("{} placed before {} although both were ready", name(&h, *n), name(&h, *m)));
                }
                left.remove(n);
            }
        }
        if native {
            let all: Vec<Node> = regions(&b.hugr);
            if all != regions(&h) {
                return Err("regions changed".into());
            }
        }
        behave_both(ctx, &h, &before, ord, true)?;
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let nat = [
        "qsTryQAlloc -> Oq0", "qsQFree q0 ->", "qsRz(0.3) q1", "LazyMeasure q1 -> m0", "Read m0 -> b0", "Free m0 ->", "iadd i0 i0 -> i0", "res_bool(x) b0 ->", "PhasedX(0.1,0.2) q0", "ZZPhase(0.2) q0 q2", "dfg {PhasedX(0.5,0.1) q2; iadd i0 i1 -> i1}",
        "if b0 {qsRz(0.1) q2}", "call f q2 -> q2", "LazyMeasureReset q2 -> q2 m1", "Read m1 -> b1", "dfg {qsRz(0.1) q1; LazyMeasureReset q1 -> q1 m0; Read m0 -> b0; int(1) -> i0; res_int(y) i0 ->}",
    ];
    let lib = "fn f(q0)->(q0){qsRz(0.7) q0; LazyMeasureReset q0 -> q0 m0; Read m0 -> b0; res_bool(f) b0 ->} ";
    for n in 1..=(if th { 5 } else { 4 }) {
        jobs.extend(programs("q0,q1,q2,i0", "false -> b0; int(2) -> i1", &nat, n, "").into_iter().filter(|s| n < 5 || !s.contains("call")).map(|s| format!("{lib}{}", s.replace("){", ")->(*){"))));
    }
    // every set of existing order edges
    let small = ["qsQFree q0 ->", "qsTryQAlloc -> Oq0", "qsReset q1", "LazyMeasure q1 -> m0", "Read m0 -> b0", "iadd i0 i0 -> i0", "res_int(r) i0 ->", "dfg {qsReset q2}"];
    for n in 2..=4 {
        for p in programs("q0,q1,q2,i0", "", &small, n, "") {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            for mask in 1..1usize << pairs.len() {
                let es: Vec<String> = pairs.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, (i, j))| format!("{i}-{j}")).collect();
                jobs.push(format!("edges:{}:{}", es.join(","), p.replace("){", ")->(*){")));
            }
        }
    }
    // source programs: the whole pass
    let src = ["H q0", "CX q0 q1", "MeasureFree q1 -> t0", "QAlloc -> q1", "QFree q0 ->", "read t0 -> b0", "res_bool(a) b0 ->", "if b0 {X q1}", "tnot t0 -> t0", "Measure q1 -> q1 b1", "res_bool(b) b1 ->", "cfg b0 {X q1; res_bool(c) b0 ->} else {H q1}", "call g q1 -> q1", "until b1 {H q1; Measure q1 -> q1 b1; true -> b1}"];
    for n in 1..=4 {
        jobs.extend(programs("q0,q1", "false -> b1; true -> b0", &src, n, "").into_iter().map(|s| format!("ord:fn g(q0)->(q0){{H q0; Measure q0 -> q0 b0; res_bool(g) b0 ->}} {s}")));
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
