//! C05: pattern matching, against a brute-force search for all occurrences.
use crate::ctx::*;
use crate::gen::*;
use crate::prog::{build, MC};
use std::collections::{BTreeMap, BTreeSet};
use tket::hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use tket::hugr::ops::{ExtensionOp, OpTrait, OpType};
use tket::hugr::types::{EdgeKind, Signature, Type, TypeArg};
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::{Hugr, HugrView, Node, NodeIndex, PortIndex};
use portmatching::PatternID;
use tket::portmatching::{CircuitPattern, PatternMatch, PatternMatcher};
use tket::Circuit;

/// A dataflow region as a labelled graph; node 0 is the input, node 1 the output.
pub struct G {
    pub node: Vec<Node>,
    pub label: Vec<String>,
    /// per node and value input: source node, port, is it linear
    pub ins: Vec<Vec<(usize, usize, bool)>>,
    pub n_out: Vec<usize>,
}
fn label(h: &Hugr, n: Node) -> String {
    let o = h.get_optype(n);
    let mut s = match o {
        OpType::ExtensionOp(e) => format!("{}.{} {:?}", e.def().extension_id(), e.def().name(), e.args()),
        OpType::LoadConstant(_) => {
            let (c, _) = h.single_linked_output(n, 0).unwrap();
            format!("const {:?}", h.get_optype(c).as_const().unwrap().value())
        }
        OpType::Call(_) | OpType::LoadFunction(_) => {
            let f = h.static_source(n).unwrap();
            format!("{o} {f}")
        }
        o => format!("{o} {:?}", o.dataflow_signature().map(|s| s.into_owned())),
    };
    if h.children(n).next().is_some() && !o.is_case() {
        let kids: Vec<Node> = h.children(n).collect();
        s += &format!("{{{}}}", kids.iter().map(|k| sub(h, *k, n)).collect::<Vec<_>>().join("|"));
    }
    s
}
/// content of a region, up to node numbering
fn sub(h: &Hugr, k: Node, parent: Node) -> String {
    if h.get_optype(k).is_case() || h.get_optype(k).is_dataflow_block() {
        return term_of_region(h, k);
    }
    if h.first_child(parent) == Some(k) && h.get_optype(k).is_input() {
        return term_of_region(h, parent);
    }
    String::new()
}
fn term_of_region(h: &Hugr, r: Node) -> String {
    let g = graph(h, r);
    let t = Terms::plain(&g);
    format!("{:?} {:?}", t.outputs(), { let mut l = g.label[2..].to_vec(); l.sort(); l })
}
pub fn graph(h: &Hugr, region: Node) -> G {
    let [i, o] = h.get_io(region).unwrap();
    let mut node = vec![i, o];
    node.extend(h.children(region).filter(|n| *n != i && *n != o && !matches!(h.get_optype(*n), OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_)) && !(h.get_optype(*n).is_load_constant() && h.linked_inputs(*n, 0).next().is_none())));
    let idx: BTreeMap<Node, usize> = node.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut g = G { label: vec!["in".into(), "out".into()], ins: vec![], n_out: vec![], node: node.clone() };
    for n in &node[2..] {
        g.label.push(label(h, *n));
    }
    for n in &node {
        let op = h.get_optype(*n);
        let mut v = vec![];
        for p in h.node_inputs(*n).collect::<Vec<_>>() {
            if let Some(EdgeKind::Value(t)) = op.port_kind(p) {
                let (s, sp) = h.single_linked_output(*n, p).unwrap();
                match idx.get(&s) {
                    Some(s) => v.push((*s, sp.index(), !t.copyable())),
                    None => v.push((usize::MAX, s.index() * 100 + sp.index(), false)), // non-local
                }
            }
        }
        g.ins.push(v);
        g.n_out.push(h.out_value_types(*n).count());
    }
    g
}
/// Values as terms, with one subset of the nodes seen as a single operation
pub struct Terms<'a> {
    g: &'a G,
    /// matched nodes and the boundary of the match (its inputs' sources, its outputs)
    m: Option<(&'a BTreeSet<usize>, Vec<(usize, usize)>, Vec<(usize, usize)>)>,
}
impl<'a> Terms<'a> {
    pub fn plain(g: &'a G) -> Self {
        Terms { g, m: None }
    }
    fn val(&self, s: usize, p: usize) -> String {
        if s == 0 {
            return format!("in{p}");
        }
        if s == usize::MAX {
            return format!("nonlocal{p}");
        }
        if let Some((set, ins, outs)) = &self.m {
            if set.contains(&s) {
                let k = match outs.iter().position(|o| *o == (s, p)) {
                    Some(k) => k.to_string(),
                    None => "lost".into(),
                };
                let a: Vec<String> = ins.iter().map(|(s, p)| self.val(*s, *p)).collect();
                return format!("MARK({})#{k}", a.join(","));
            }
        }
        let a: Vec<String> = self.g.ins[s].iter().map(|(s, p, _)| self.val(*s, *p)).collect();
        let l = if self.g.label[s].contains(".mark ") { "MARK" } else { &self.g.label[s] };
        format!("{l}({})#{p}", a.join(","))
    }
    pub fn outputs(&self) -> Vec<String> {
        self.g.ins[1].iter().map(|(s, p, _)| self.val(*s, *p)).collect()
    }
    /// outputs, and every other operation with its inputs
    fn all(&self) -> (Vec<String>, Vec<String>) {
        let mut ops: Vec<String> = (2..self.g.node.len()).filter(|n| self.m.as_ref().is_none_or(|m| !m.0.contains(n))).filter(|n| !self.g.label[*n].contains(".mark ")).map(|n| self.val(n, 0)).collect();
        ops.sort();
        (self.outputs(), ops)
    }
}

/// All occurrences of pattern `p` in `g`, as maps from pattern nodes to circuit nodes; with whether
/// two different copyable inputs of the pattern are the same value or an output is not used.
pub fn occurrences(p: &G, g: &G) -> Vec<(Vec<usize>, bool)> {
    let mut out = vec![];
    let mut m = vec![usize::MAX; p.node.len()];
    // below[n]: nodes reachable from n
    let n = g.node.len();
    let mut reach = vec![vec![false; n]; n];
    for (t, ins) in g.ins.iter().enumerate() {
        for (s, _, _) in ins {
            if *s != usize::MAX {
                reach[*s][t] = true;
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    fn go(p: &G, g: &G, k: usize, m: &mut Vec<usize>, reach: &[Vec<bool>], out: &mut Vec<(Vec<usize>, bool)>) {
        if k == p.node.len() {
            if let Some(b) = verify(p, g, m, reach) {
                out.push((m.clone(), b));
            }
            return;
        }
        for c in 2..g.node.len() {
            if !m[2..].contains(&c) && p.label[k] == g.label[c] && p.ins[k].len() == g.ins[c].len() {
                m[k] = c;
                // edges to nodes mapped already
                let ok = (2..=k).all(|a| p.ins[a].iter().enumerate().all(|(i, (s, sp, _))| *s < 2 || *s > k || g.ins[m[a]][i].0 == m[*s] && g.ins[m[a]][i].1 == *sp));
                if ok {
                    go(p, g, k + 1, m, reach, out);
                }
                m[k] = usize::MAX;
            }
        }
    }
    go(p, g, 2, &mut m, &reach, &mut out);
    out
}
fn verify(p: &G, g: &G, m: &[usize], reach: &[Vec<bool>]) -> Option<bool> {
    let matched: BTreeSet<usize> = m[2..].iter().copied().collect();
    let mut input: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for a in 2..p.node.len() {
        for (i, (s, sp, _)) in p.ins[a].iter().enumerate() {
            let (cs, csp, _) = g.ins[m[a]][i];
            if *s == 0 {
                // from outside, and one value per pattern input
                if matched.contains(&cs) || *input.entry(*sp).or_insert((cs, csp)) != (cs, csp) {
                    return None;
                }
            } else if (cs, csp) != (m[*s], *sp) {
                return None;
            }
        }
    }
    // values used outside must be outputs of the pattern
    for c in 0..g.node.len() {
        if matched.contains(&c) {
            continue;
        }
        for (s, sp, _) in &g.ins[c] {
            if matched.contains(s) && !p.ins[1].iter().any(|(ps, pp, _)| *ps >= 2 && m[*ps] == *s && pp == sp) {
                return None;
            }
        }
    }
    // an output of the pattern that nothing uses here
    let used = |s: usize, p: usize| (0..g.node.len()).filter(|c| !matched.contains(c)).flat_map(|c| &g.ins[c]).any(|x| (x.0, x.1) == (s, p));
    let lost = p.ins[1].iter().any(|(s, sp, _)| *s >= 2 && !used(m[*s], *sp));
    // convex
    for c in 2..g.node.len() {
        if !matched.contains(&c) && matched.iter().any(|a| reach[*a][c]) && matched.iter().any(|a| reach[c][*a]) {
            return None;
        }
    }
    let vals: BTreeSet<_> = input.values().collect();
    Some(vals.len() < input.len() || lost)
}
/// A circuit of one operation with the given type
pub fn mark(sig: &Signature) -> Circuit {
    let args = |r: &[Type]| TypeArg::List(r.iter().cloned().map(|t| t.into()).collect());
    let op = ExtensionOp::new(MC.get_op("mark").unwrap().clone(), [args(&sig.input), args(&sig.output)]).unwrap();
    let mut b = DFGBuilder::new(sig.clone()).unwrap();
    let ins: Vec<_> = b.input_wires().collect();
    let o = b.add_dataflow_op(op, ins).unwrap();
    Circuit::new(b.finish_hugr_with_outputs(o.outputs()).unwrap())
}
pub struct Pat {
    pub text: String,
    pub g: G,
    pub sig: Signature,
    pub p: CircuitPattern,
}
pub fn pattern(text: &str) -> Result<Pat, String> {
    let (b, c) = circuit(text)?;
    let p = CircuitPattern::try_from_circuit(&c).map_err(|e| format!("SKIP {e:?}").split('{').next().unwrap().to_string())?;
    let sig = b.hugr.get_optype(b.main).as_func_defn().unwrap().signature().body().clone();
    Ok(Pat { text: text.into(), g: graph(&b.hugr, b.main), sig, p })
}
/// Compare the matches found in a region with the occurrences
fn check(ctx: &Ctx, pats: &[&Pat], m: &PatternMatcher, again: Option<&PatternMatcher>, circ: &Circuit) -> Result<(), String> {
    let g = graph(circ.hugr(), circ.parent());
    let idx: BTreeMap<Node, usize> = g.node.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let found = m.find_matches(circ);
    if let Some(again) = again {
        let show = |f: &PatternMatch| format!("{:?} {} {:?}", f.pattern_id(), f.root(), f.nodes());
        let (mut a, mut b): (Vec<_>, Vec<_>) = (found.iter().map(show).collect(), again.find_matches_iter(circ).map(|f| show(&f)).collect());
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("the matcher finds {a:?}; stored and loaded again it finds {b:?}"));
        }
    }
    ctx.trans(found.len() as u64);
    ctx.states(1);
    let mut got: BTreeMap<usize, Vec<BTreeSet<usize>>> = BTreeMap::new();
    for f in &found {
        let id = f.pattern_id().0;
        let set: BTreeSet<usize> = f.nodes().iter().filter_map(|n| idx.get(n).copied()).collect();
        if got.entry(id).or_default().contains(&set) && !ambiguous(&pats[id].g) {
            return Err(format!("the match of pattern {id} at {set:?} is reported twice"));
        }
        if !f.nodes().contains(&f.root()) {
            return Err(format!("the root {} is not in the match {set:?}", f.root()));
        }
        got.entry(id).or_default().push(set);
    }
    for (id, p) in pats.iter().enumerate() {
        let occ = occurrences(&p.g, &g);
        let sets: BTreeSet<BTreeSet<usize>> = occ.iter().map(|(m, _)| m[2..].iter().copied().collect()).collect();
        for s in got.get(&id).into_iter().flatten() {
            if !sets.contains(s) {
                return Err(format!("pattern {id} {} does not occur at {s:?}", p.text));
            }
        }
        for (o, shared) in &occ {
            let s: BTreeSet<usize> = o[2..].iter().copied().collect();
            if !shared && !got.get(&id).is_some_and(|g| g.contains(&s)) {
                return Err(format!("the occurrence of pattern {id} {} at {s:?} is not found", p.text));
            }
        }
        // the same, asked for each place by itself
        if let Some(again) = again {
            for n in &g.node[2..] {
                let f: Vec<_> = found.iter().filter(|f| f.pattern_id().0 == id && f.root() == *n).collect();
                let a = PatternMatch::try_from_root_match(*n, PatternID(id), circ, again);
                if f.iter().map(|f| f.nodes()).collect::<Vec<_>>() != a.iter().map(|a| a.nodes()).collect::<Vec<_>>() {
                    return Err(format!("the matches of pattern {id} {} with root {n} are {f:?}, try_from_root_match gives {a:?}", p.text));
                }
                if let (Some(f), Ok(a)) = (f.first(), &a) {
                    if f.subgraph().incoming_ports() != a.subgraph().incoming_ports() || f.subgraph().outgoing_ports() != a.subgraph().outgoing_ports() || a.pattern_id().0 != id || a.root() != *n {
                        return Err(format!("the match {f:?} of pattern {id} {} is {a:?} for try_from_root_match", p.text));
                    }
                }
            }
        }
        // rewrite
        for f in found.iter().filter(|f| f.pattern_id().0 == id) {
            let set: BTreeSet<usize> = f.nodes().iter().filter_map(|n| idx.get(n).copied()).collect();
            let rw = f.to_rewrite(circ, mark(&p.sig)).map_err(|e| format!("to_rewrite {e}"))?;
            let mut c = circ.clone();
            rw.apply(&mut c).map_err(|e| format!("apply: {e}"))?;
            c.hugr().validate().map_err(|e| format!("after the rewrite: {e}"))?;
            let after_g = graph(c.hugr(), c.parent());
            let after = Terms::plain(&after_g).all();
            let ok = occ.iter().filter(|(m, _)| m[2..].iter().copied().collect::<BTreeSet<_>>() == set).any(|(m, _)| {
                let src = |k: usize| {
                    for a in 2..p.g.node.len() {
                        for (i, (s, sp, _)) in p.g.ins[a].iter().enumerate() {
                            if *s == 0 && *sp == k {
                                let (s, sp, _) = g.ins[m[a]][i];
                                return (s, sp);
                            }
                        }
                    }
                    (0, 9999)
                };
                let ins: Vec<_> = (0..p.g.n_out[0]).map(src).collect();
                let outs: Vec<_> = p.g.ins[1].iter().map(|(s, sp, _)| (m[*s], *sp)).collect();
                Terms { g: &g, m: Some((&set, ins, outs)) }.all() == after
            });
            ctx.traces(1);
            if !ok {
                return Err(format!("rewriting pattern {id} {} at {set:?} gives {after:?}", p.text));
            }
        }
    }
    Ok(())
}
/// may one set of nodes be matched in several ways
fn ambiguous(p: &G) -> bool {
    occurrences(p, p).len() > 1
}
/// every region of the program that is a dataflow region
pub fn regions(text: &str) -> Result<Vec<Circuit>, String> {
    let b = build(text)?;
    let h = &b.hugr;
    let mut v = vec![];
    for n in h.descendants(b.main).collect::<Vec<_>>() {
        if h.get_io(n).is_some() && (n == b.main || h.get_optype(n).is_dfg() || h.get_optype(n).is_case() || h.get_optype(n).is_dataflow_block() || h.get_optype(n).is_tail_loop()) {
            let mut c = h.clone();
            c.set_entrypoint(n);
            if let Ok(c) = Circuit::try_new(c) {
                v.push(c);
            }
        }
    }
    Ok(v)
}
/// `patterns @ circuit`
fn one(ctx: &Ctx, pats: &[&Pat], m: &PatternMatcher, again: Option<&PatternMatcher>, text: &str) {
    let names: Vec<&str> = pats.iter().map(|p| p.text.as_str()).collect();
    let key = if pats.len() > 4 { format!("{} patterns: {} .. @ {text}", pats.len(), names[0]) } else { format!("{} @ {text}", names.join(" & ")) };
    ctx.case(&key, || {
        for c in regions(text)? {
            check(ctx, pats, m, again, &c)?;
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let star = |v: Vec<String>| -> Vec<String> { v.into_iter().map(|s| s.replace("){", ")->(*){")).collect() };
    struct Set {
        pats: Vec<String>,
        circs: Vec<String>,
        pairs: bool,
    }
    let gen = |ins: &[&str], start: &str, al: &[&str], lo: usize, hi: usize, post: &str| -> Vec<String> {
        let mut v: Vec<String> = ins.iter().flat_map(|i| (lo..=hi).flat_map(|n| programs(i, start, al, n, post)).collect::<Vec<_>>()).collect();
        v = star(v);
        v.dedup();
        v
    };
    let d = |a: usize, b: usize| if th { b } else { a };
    let sets = vec![
        // gates on up to three qubits
        Set {
            pats: gen(&["q0", "q0,q1", "q0,q1,q2"], "", &["H q0", "H q1", "CX q0 q1", "CX q1 q0", "CX q1 q2", "CX q2 q1", "CX q0 q2"], 1, 3, ""),
            circs: gen(&["q0,q1,q2"], "", &["H q0", "H q1", "CX q0 q1", "CX q1 q0", "CX q1 q2", "CX q2 q0"], 0, d(4, 5), ""),
            pairs: true,
        },
        Set {
            pats: gen(&["q0", "q0,q1", "q0,q1,q2"], "", &["T q0", "CZ q0 q1", "CZ q1 q0", "Toffoli q0 q1 q2", "Toffoli q2 q0 q1", "CZ q0 q2"], 1, d(3, 4), ""),
            circs: gen(&["q0,q1,q2"], "", &["T q0", "CZ q0 q1", "CZ q1 q0", "Toffoli q0 q1 q2", "Toffoli q1 q2 q0", "CZ q0 q2", "T q2"], 0, d(4, 5), ""),
            pairs: false,
        },
        // angles: given from outside, shared, computed, constant
        Set {
            pats: {
                let mut v = gen(&["q0,a0", "q0,q1,a0", "q0,a0,a1", "q0,q1,a0,a1"], "", &["Rz q0 a0", "Rz q1 a0", "Rx q0 a1", "Rz q0 a1", "CX q0 q1", "CRz q0 q1 a0", "radd a0 a1 -> a2", "Rz q0 a2"], 1, 3, "");
                v.extend(gen(&["q0", "q0,a0"], "", &["rot(0.5) -> a0", "rot(0.25) -> a0", "Rz q0 a0", "Rz(0.5) q0", "Rz(0.25) q0", "radd a0 a0 -> a1", "Rx q0 a1"], 1, 3, ""));
                // nothing but used inputs and qubits as outputs
                v.iter().map(|s| s.clone()).chain(v.iter().map(|s| { let ins = s.split("main(").nth(1).unwrap().split(')').next().unwrap(); let q: Vec<&str> = ins.split(',').filter(|x| x.starts_with('q')).collect(); s.replace("(*)", &format!("({})", q.join(","))) })).collect()
            },
            circs: gen(&["q0,q1,a0,a1"], "", &["Rz q0 a0", "Rz q1 a0", "Rx q0 a1", "CX q0 q1", "CRz q0 q1 a0", "radd a0 a1 -> a2", "Rz q0 a2", "rot(0.5) -> a0", "rot(0.25) -> a0", "Rz(0.5) q0", "radd a0 a0 -> a1"], 0, d(3, 4), ""),
            pairs: false,
        },
        // creating, measuring and releasing qubits; opaque operations; tuples
        Set {
            pats: gen(&["", "q0", "q0,q1", "q0,b0", "b0"], "", &["QAlloc -> q0", "QFree q0 ->", "Measure q0 -> q0 b0", "CX q0 q1", "opqb q0 b0 -> q0 b0", "not b0 -> b0", "not b0 -> b1", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b0", "And b0 b1 -> b2"], 1, 3, ""),
            circs: gen(&["q0,q1,b0"], "", &["QAlloc -> q2", "QFree q0 ->", "QAlloc -> q0", "Measure q0 -> q0 b0", "CX q0 q1", "opqb q0 b0 -> q0 b0", "not b0 -> b0", "not b0 -> b1", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b0", "And b0 b1 -> b2"], 0, d(3, 4), ""),
            pairs: false,
        },
        // regions inside others, as place to search and as operations
        Set {
            pats: gen(&["q0", "q0,b0", "q0,q1"], "", &["H q0", "CX q0 q1", "dfg {H q0}", "dfg {T q0}", "dfg {H q0; H q0}", "if b0 {H q0} else {T q0}", "if b0 {T q0} else {H q0}"], 1, 2, ""),
            circs: gen(&["q0,q1,b0"], "", &["H q0", "CX q0 q1", "dfg {H q0}", "dfg {T q0}", "dfg {H q0; CX q0 q1}", "if b0 {H q0} else {T q0}", "cfg b0 {CX q0 q1; H q1} else {H q0; H q0}", "dfg {dfg {H q0}; H q0}", "until b0 {H q0; true -> b0}"], 0, d(3, 4), ""),
            pairs: false,
        },
        // operations that differ in a type argument, in the first or the last
        Set {
            pats: {
                let v = gen(&["b0,b1", "u0,u1", "b0,u0", "A2b0", "A2u0"], "", &["anew b0 b1 -> A2b0", "anew u0 u1 -> A2u0", "anew b0 -> A1b0", "anew u0 -> A1u0", "res_bool(a) b0 ->", "res_bool(b) b0 ->", "aunpack A2b0 -> b0 b1", "aunpack A2u0 -> u0 u1", "not b0 -> b0", "not b0 -> b1", "And b0 b1 -> b2"], 1, 2, "");
                // all values as outputs, or one, or none
                v.iter().flat_map(|s| ["(*)", "(b1)", "(b0)", "(b2)", "()"].map(|o| s.replace("(*)", o))).collect()
            },
            circs: gen(&["b0,b1,u0,u1"], "", &["anew b0 b1 -> A2b0", "anew u0 u1 -> A2u0", "anew b0 -> A1b0", "anew u0 -> A1u0", "res_bool(a) b0 ->", "res_bool(b) b0 ->", "aunpack A2b0 -> b0 b1", "aunpack A2u0 -> u0 u1", "not b0 -> b1", "And b0 b1 -> b1"], 0, d(3, 4), ""),
            pairs: false,
        },
    ];
    let mut npat = 0u64;
    for s in &sets {
        let mut seen = BTreeSet::new();
        let mut pats: Vec<Pat> = vec![];
        for t in &s.pats {
            match std::panic::catch_unwind(|| pattern(t)) {
                Ok(Ok(p)) => {
                    // one pattern per graph
                    if seen.insert(format!("{:?} {:?}", Terms::plain(&p.g).all(), p.sig)) {
                        pats.push(p)
                    }
                }
                Ok(Err(e)) if e.starts_with("SKIP") => ctx.count(&format!("patterns refused:{}", &e[4..]), 1),
                Ok(Err(e)) if e.contains("slot") => {}
                Ok(Err(e)) => ctx.fail(t, &e),
                Err(_) => ctx.fail(t, &format!("building the pattern panics: {}", PANIC.with(|p| p.borrow().clone()))),
            }
        }
        npat += pats.len() as u64;
        let all: Vec<&Pat> = pats.iter().collect();
        let make = |ps: &[&Pat]| PatternMatcher::from_patterns(ps.iter().map(|p| p.p.clone()).collect::<Vec<_>>());
        let m = make(&all);
        // every pattern at once, each alone (on shorter circuits), and pairs
        ctx.par(s.circs.len(), |i| one(ctx, &all, &m, None, &s.circs[i]));
        let singles: Vec<(PatternMatcher, Option<PatternMatcher>)> = all
            .iter()
            .map(|p| {
                let m = make(&[p]);
                let mut v = vec![];
                let again = m.save_binary_io(&mut v).and_then(|_| PatternMatcher::load_binary_io(&mut &v[..]));
                if let Err(e) = &again {
                    ctx.fail(&p.text, &format!("the matcher cannot be stored and loaded: {e}"));
                }
                if m.n_patterns() != 1 || m.get_pattern(PatternID(0)).is_none() || m.get_pattern(PatternID(1)).is_some() {
                    ctx.fail(&p.text, "the matcher does not list its pattern");
                }
                (m, again.ok())
            })
            .collect();
        let short: Vec<&String> = s.circs.iter().filter(|c| c.matches(';').count() + 1 < if th { 5 } else { 4 }).collect();
        ctx.par(all.len(), |i| {
            for c in &short {
                one(ctx, &[all[i]], &singles[i].0, singles[i].1.as_ref(), c);
            }
        });
        if s.pairs {
            let short: Vec<&String> = s.circs.iter().filter(|c| c.matches(';').count() + 1 == 3).collect();
            let n = if th { all.len() } else { all.len().min(30) };
            ctx.par(n * n, |k| {
                let ps = [all[k / n], all[k % n]];
                let m = make(&ps);
                for c in &short {
                    one(ctx, &ps, &m, None, c);
                }
            });
        }
    }
    ctx.bound("patterns", npat);
    ctx.bound("circuits", sets.iter().map(|s| s.circs.len() as u64).sum::<u64>());
}
