//! C01: hash and equality of circuits against an exact canonical form of the dataflow graph.
use crate::ctx::*;
use crate::gen::*;
use crate::prog::build;
use itertools::Itertools;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use tket::circuit::CircuitHash;
use tket::hugr::ops::OpType;
use tket::hugr::types::EdgeKind;
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, PortIndex};
use tket::Circuit;

fn op(o: &OpType) -> String {
    match o {
        OpType::ExtensionOp(e) => format!("{}{}", e.qualified_id(), serde_json::to_string(e.args()).unwrap()),
        OpType::Const(c) => format!("const {}", serde_json::to_string(c.value()).unwrap()),
        OpType::FuncDefn(f) => format!("fn {}", f.func_name()),
        OpType::FuncDecl(f) => format!("fn {}", f.func_name()),
        o => format!("{o:?}"),
    }
}
fn data(h: &Hugr, n: Node, p: IncomingPort) -> bool {
    matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_) | EdgeKind::Const(_) | EdgeKind::Function(_)))
}
/// Operations of a region that nothing in it uses
fn sinks(h: &Hugr, r: Node) -> Vec<Node> {
    let out = h.get_io(r).map(|x| x[1]);
    h.children(r)
        .filter(|n| Some(*n) != out && !h.get_optype(*n).is_input())
        .filter(|n| h.node_outputs(*n).all(|p| h.linked_inputs(*n, p).all(|(t, q)| !data(h, t, q))))
        .collect()
}
struct Canon<'a> {
    h: &'a Hugr,
    root: Node,
    /// chosen order of the sinks of each region
    order: BTreeMap<Node, Vec<Node>>,
    num: HashMap<Node, usize>,
    list: Vec<Node>,
}
impl Canon<'_> {
    fn add(&mut self, n: Node) -> bool {
        if self.num.contains_key(&n) {
            return false;
        }
        self.num.insert(n, self.list.len());
        self.list.push(n);
        true
    }
    fn visit(&mut self, n: Node) {
        if !self.add(n) {
            return;
        }
        for p in self.h.node_inputs(n).filter(|p| data(self.h, n, *p)).collect::<Vec<_>>() {
            if let Some((s, _)) = self.h.single_linked_output(n, p) {
                // what is outside counts as an operation without inputs
                if self.h.get_parent(s).is_some_and(|p| self.below(p)) {
                    self.visit(s);
                } else {
                    self.add(s);
                }
            }
        }
        self.region(n);
    }
    fn below(&self, mut n: Node) -> bool {
        while n != self.root {
            match self.h.get_parent(n) {
                Some(p) => n = p,
                None => return false,
            }
        }
        true
    }
    fn region(&mut self, n: Node) {
        if let Some([i, o]) = self.h.get_io(n) {
            self.add(i);
            self.visit(o);
            for s in self.order.get(&n).cloned().unwrap_or_default() {
                self.visit(s);
            }
        } else {
            for c in self.h.children(n).collect::<Vec<_>>() {
                self.visit(c);
            }
        }
    }
    fn text(mut self) -> String {
        self.region(self.root);
        let mut s = String::new();
        for n in &self.list {
            let inside = self.h.get_parent(*n).is_some_and(|p| self.below(p));
            s += &op(self.h.get_optype(*n));
            if !inside {
                s += " outside;";
                continue;
            }
            let par = self.h.get_parent(*n).unwrap();
            s += &format!(" in {:?}", (par != self.root).then(|| self.num[&par]));
            for p in self.h.node_inputs(*n) {
                let mut v: Vec<(Option<usize>, usize)> = self.h.linked_outputs(*n, p).map(|(m, q)| (self.num.get(&m).copied(), q.index())).collect();
                v.sort();
                s += &format!(" {v:?}");
            }
            // successors of blocks
            for p in self.h.node_outputs(*n) {
                if matches!(self.h.get_optype(*n).port_kind(p), Some(EdgeKind::ControlFlow)) {
                    s += &format!(" to {:?}", self.h.linked_inputs(*n, p).map(|(m, _)| self.num[&m]).collect::<Vec<_>>());
                }
            }
            s += ";";
        }
        s
    }
}
/// the same for two graphs exactly if they are the same up to numbering
pub fn canon(h: &Hugr, root: Node) -> Option<String> {
    let regions: Vec<(Node, Vec<Node>)> = h.descendants(root).filter(|r| h.get_io(*r).is_some()).map(|r| (r, sinks(h, r))).filter(|x| !x.1.is_empty()).collect();
    let perms: Vec<Vec<Vec<Node>>> = regions.iter().map(|(_, s)| s.iter().copied().permutations(s.len()).collect()).collect();
    if perms.iter().map(|p| p.len()).product::<usize>() > 5040 {
        return None;
    }
    let one = |order: BTreeMap<Node, Vec<Node>>| Canon { h, root, order, num: HashMap::new(), list: vec![] }.text();
    if regions.is_empty() {
        return Some(one(BTreeMap::new()));
    }
    perms.into_iter().multi_cartesian_product().map(|c| one(regions.iter().map(|x| x.0).zip(c).collect())).min()
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut progs: Vec<String> = vec![];
    let gates = ["H q0", "H q1", "CX q0 q1", "CX q1 q0", "Rz q0 a0", "Rz q1 a1", "radd a0 a1 -> a0", "rot(0.5) -> a1", "rot(0.25) -> a0"];
    let alloc = ["QAlloc -> q2", "QAlloc -> q3", "CX q2 q3", "CX q0 q2", "H q3", "Measure q2 -> q2 b0", "Measure q3 -> q3 b1", "QFree q2 ->", "QFree q3 ->", "H q0"];
    let meas = ["QAlloc -> q1", "Measure q0 -> q0 b0", "Measure q1 -> q1 b1", "QFree q1 ->", "And b0 b1 -> b2", "Not b0 -> b1", "res_bool(r) b0 ->", "res_bool(s) b1 ->", "res_bool(r) b1 ->"];
    let nest = ["dfg {H q0}", "dfg {X q0}", "dfg {H q0;CX q0 q1}", "dfg {CX q0 q1;H q0}", "dfg {X q0;QAlloc -> q2;QFree q2 ->}", "if b0 {H q0} else {X q0}", "if b0 {X q0} else {H q0}", "if b1 {X q0} else {H q0}", "dfgx {if b0 {H q0}}", "dfgx {if b1 {H q0}}", "cfg b0 {H q0}", "cfg b0 {X q0}", "cfg b1 {X q0}", "call f q0", "call g q0", "call f q1", "until b0 {H q0}", "until b0 {X q0}", "H q0", "Not b0 -> b1"];
    let consts = [
        "rot(0.5) -> a0", "rot(0.25) -> a0", "rot(0.5) -> a1", "f64(0.5) -> f0", "f64(0.25) -> f0", "int(1) -> i0", "int(2) -> i0", "u(1) -> u0", "u(2) -> u0", "true -> b0", "false -> b0", "ttrue -> t0", "tfalse -> t0",
        "sarr(b:01) -> Hb0", "sarr(b:10) -> Hb0", "sarr(t:01) -> Ht0", "sarr(t:10) -> Ht0", "sget Hb0 u0 -> Ob1", "res_f64(r) f0 ->", "res_f64(s) f0 ->", "res_int(r) i0 ->", "res_uint(r) i0 ->",
        "err(1,a) -> E0", "err(2,a) -> E0", "err(1,b) -> E0", "panic E0 q0 -> q0", "exit E0 q0 -> q0", "Rz q0 a0", "Rz q0 a1",
    ];
    let same = ["H q0", "X q0", "Y q0", "Z q0", "S q0", "Sdg q0", "T q0", "Tdg q0", "V q0", "Vdg q0", "Rx q0 a0", "Ry q0 a0", "Rz q0 a0", "Rz q0 a1", "qsRz q0 f0", "qsRz q0 f1", "PhasedX q0 f0 f1", "PhasedX q0 f1 f0", "ZZPhase q0 q1 f0", "ZZPhase q1 q0 f0", "CX q0 q1", "CY q0 q1", "CZ q0 q1", "CRz q0 q1 a0", "CRz q1 q0 a0", "Toffoli q0 q1 q2", "Toffoli q1 q0 q2", "Toffoli q2 q1 q0", "Reset q0", "qsReset q0", "QFree q0 ->", "qsQFree q0 ->", "Measure q0 -> q0 b0", "MeasureFree q0 -> t0", "qsMeasure q0 -> t0", "LazyMeasure q0 -> m0", "MeasureReset q0 -> q0 t0", "LazyMeasureReset q0 -> q0 m0", "TryQAlloc -> Oq0", "qsTryQAlloc -> Oq0", "barrier q0 q1", "barrier q1 q0", "barrier q0", "noop q0", "noop q1", "pack q0 q1 -> Pqq0", "pack q1 q0 -> Pqq0", "radd a0 a1 -> a2", "radd a1 a0 -> a2", "fadd f0 f1 -> f2", "fsub f0 f1 -> f2", "fsub f1 f0 -> f2", "anew q0 q1 -> A2q0", "anew q1 q0 -> A2q0", "anew q0 q1 -> V2q0", "anew q0 -> A1q0", "phase(0.5)", "phase(0.25)", "opq1 q0", "opq2 q0 q1"];
    let outs = |p: &mut Vec<String>, ins: &str, alpha: &[&str], n: usize, order: &[&str]| {
        for t in programs(ins, "", alpha, n, "") {
            for o in order {
                p.push(t.replacen("){", &format!(")->({o}){{"), 1));
            }
        }
    };
    for n in 0..=if th { 5 } else { 4 } {
        if n < 5 {
            outs(&mut progs, "q0,q1,a0,a1", &gates, n, if n < 4 || th { &["q0,q1", "q1,q0", "q0,q1,a0"] } else { &["q0,q1"] });
            progs.extend(programs("q0", "", &alloc, n, ""));
        }
        progs.extend(programs("q0", "", if n < 4 { &alloc } else { &["QAlloc -> q2", "QAlloc -> q3", "H q3", "Measure q2 -> q2 b0", "Measure q3 -> q3 b1", "QFree q2 ->", "QFree q3 ->"] }, n, ""));
        outs(&mut progs, "q0,q1", if n < 5 { &["CX q0 q1", "CX q1 q0", "H q0"] } else { &["CX q0 q1", "H q1"] }, n, &["q0,q1", "q1,q0"]);
        if n < 4 {
            for t in programs("q0", "", &meas, n + 1, "") {
                progs.push(t.replacen("){", ")->(*){", 1));
            }
        }
        if n < if th { 4 } else { 3 } {
            progs.extend(programs("q0,q1,b0,b1", "", &nest, n, "").into_iter().map(|p| format!("fn f(q0){{H q0}} fn g(q0){{X q0}} {p}")));
            for t in programs("q0", "", &consts, n + 1, "") {
                progs.push(t.clone());
                progs.push(t.replacen("){", ")->(*){", 1));
            }
            if n < 3 {
                for t in programs("q0,q1,q2,a0,a1,f0,f1", "", &same, n, "") {
                    progs.push(t.clone());
                    if n < 2 || th {
                        progs.push(t.replacen("){", ")->(*){", 1));
                    }
                }
            }
        }
    }
    // values that the outputs do not depend on, used several times or made several times
    let used = ["res_bool(r) b0 ->", "res_bool(s) b0 ->", "res_bool(r) b1 ->", "res_bool(s) b1 ->", "Not b0 -> b0", "And b0 b1 -> b1", "read t0 -> b1"];
    for n in 0..=if th { 5 } else { 4 } {
        for t in programs("", "QAlloc -> q0; QAlloc -> q1; MeasureFree q0 -> t0; MeasureFree q1 -> t1; read t0 -> b0; read t1 -> b1", &used, n, "") {
            progs.push(t.clone());
            if n < 4 {
                progs.push(t.replacen("){", ")->(b0){", 1));
            }
        }
    }
    for n in 0..=if th { 4 } else { 3 } {
        progs.extend(programs("", "f64(0.25) -> f0; f64(0.25) -> f1", &["res_f64(r) f0 ->", "res_f64(s) f0 ->", "res_f64(r) f1 ->", "res_f64(s) f1 ->", "fneg f0 -> f0", "fadd f0 f1 -> f1", "f64(0.25) -> f0", "f64(0.25) -> f1"], n, ""));
    }
    progs.sort();
    progs.dedup();
    ctx.bound("programs", progs.len() as u64);
    // every region of every program: graph and hash, or what is wrong
    type Region = (Node, String, u64);
    let found: Vec<Mutex<Result<Vec<Region>, String>>> = progs.iter().map(|_| Mutex::new(Err("SKIP not reached".into()))).collect();
    ctx.par(progs.len(), |i| {
        let r = std::panic::catch_unwind(|| regions(&progs[i])).unwrap_or_else(|_| Err("panic".into()));
        *found[i].lock().unwrap() = r;
    });
    let mut by_canon: HashMap<String, (u64, String)> = HashMap::new();
    let mut by_hash: HashMap<u64, (String, String)> = HashMap::new();
    for (i, f) in found.into_iter().enumerate() {
        let f = f.into_inner().unwrap();
        // all are needed to replay one
        let mut res = Ok(());
        match f {
            Err(e) => res = Err(e),
            Ok(v) => {
                for (n, form, hash) in v {
                    ctx.states(1);
                    ctx.trans(1);
                    let what = format!("{} region {n}", progs[i]);
                    let (h2, w) = by_canon.entry(form.clone()).or_insert((hash, what.clone()));
                    if *h2 != hash {
                        res = Err(format!("region {n}: the same graph as {w} but another hash"));
                    }
                    let (f2, w) = by_hash.entry(hash).or_insert((form.clone(), what));
                    if *f2 != form {
                        res = Err(format!("region {n}: not the same graph as {w} but the same hash"));
                    }
                }
            }
        }
        if res != Err("SKIP not reached".into()) {
            ctx.case(&progs[i], || {
                ctx.traces(1);
                res
            });
        }
    }
    ctx.count("different_graphs", by_canon.len() as u64);
}
fn regions(text: &str) -> Result<Vec<(Node, String, u64)>, String> {
    use tket::hugr::hugr::hugrmut::HugrMut;
    let b = build(text)?;
    let shifted = build(&format!("fn junk(q0){{H q0;H q0}} {text}"))?;
    let other = {
        // the numbers of removed operations are used again
        let mut h = shifted.hugr.clone();
        h.remove_subtree(shifted.funcs["junk"]);
        h
    };
    let mut v = vec![];
    for n in b.hugr.descendants(b.main).collect::<Vec<_>>() {
        let o = b.hugr.get_optype(n);
        if b.hugr.get_io(n).is_none() || !(n == b.main || o.is_dfg() || o.is_case() || o.is_dataflow_block() || o.is_tail_loop()) {
            continue;
        }
        let Some(form) = canon(&b.hugr, n) else { continue };
        let hash = b.hugr.circuit_hash(n).map_err(|e| format!("region {n}: no hash: {e}"))?;
        let mut h = b.hugr.clone();
        h.set_entrypoint(n);
        let same = |h2: &Hugr, root: Node, who: &str| -> Result<(), String> {
            let mut h2 = h2.clone();
            h2.set_entrypoint(root);
            match (Circuit::try_new(h.clone()), Circuit::try_new(h2)) {
                (Ok(a), Ok(b)) if a != b => Err(format!("region {n}: {who} is not equal to it")),
                (Ok(a), Ok(b)) if a.circuit_hash(a.parent()).ok() != Some(hash) || b.circuit_hash(b.parent()).ok() != Some(hash) => Err(format!("region {n}: {who} has another hash")),
                (Ok(_), Err(e)) => Err(format!("region {n}: {who}: {e}")),
                _ => Ok(()),
            }
        };
        same(&h, n, "the circuit itself")?;
        if n == b.main {
            same(&shifted.hugr, shifted.main, "the circuit with other node numbers")?;
            same(&other, shifted.main, "the circuit with other nodes removed")?;
        }
        v.push((n, form, hash));
    }
    Ok(v)
}
