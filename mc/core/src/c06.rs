//! C06: rewrites of circuits by equivalence classes: unitary, completeness, storage.
use crate::c05::{graph, occurrences, Terms, G};
use crate::ctx::*;
use crate::gen::*;
use crate::interp::{same, Behaviour};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tket::hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use tket::hugr::types::Signature;
use tket::hugr::{Hugr, HugrView, Node, Wire};
use tket::portmatching::CircuitPattern;
use tket::optimiser::badger::{load_eccs_json_file, EqCircClass};
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::Circuit;

fn form(g: &G) -> String {
    let mut l = g.label[2..].to_vec();
    l.sort();
    format!("{:?} {:?}", Terms::plain(g).outputs(), l)
}
fn graph_of(c: &Circuit) -> G {
    graph(c.hugr(), c.parent())
}
/// inputs that go nowhere but to one output
fn idle(g: &G) -> BTreeSet<usize> {
    let uses = |p: usize| -> Vec<usize> { g.ins.iter().enumerate().flat_map(|(n, v)| v.iter().filter(move |(s, sp, _)| *s == 0 && *sp == p).map(move |_| n)).collect() };
    (0..g.n_out[0]).filter(|p| { let u = uses(*p); u.is_empty() || u == [1] }).collect()
}
/// the graph without some idle inputs, and the outputs they go to
fn without(g: &G, gone: &BTreeSet<usize>) -> G {
    let mut r = G { node: g.node.clone(), label: g.label.clone(), ins: vec![], n_out: g.n_out.clone() };
    for v in &g.ins {
        r.ins.push(v.iter().filter(|(s, p, _)| *s != 0 || !gone.contains(p)).map(|(s, p, l)| if *s == 0 { (0, p - gone.range(..p).count(), *l) } else { (*s, *p, *l) }).collect());
    }
    r.n_out[0] -= gone.len();
    r
}
/// Has one operation that every other one shares a qubit's wire with; the matcher takes these at least.
fn central(g: &G) -> bool {
    let n = g.node.len();
    // the qubits an operation acts on, by the input they come from
    fn line(g: &G, x: usize, p: usize) -> Option<usize> {
        match g.ins[x].get(p)? {
            (0, q, true) => Some(*q),
            (s, q, true) if *s < g.node.len() => line(g, *s, *q),
            _ => None,
        }
    }
    let qs: Vec<BTreeSet<usize>> = (0..n).map(|x| (0..g.ins[x].len()).filter_map(|p| line(g, x, p)).collect()).collect();
    n > 2 && (2..n).any(|r| (2..n).all(|x| !qs[x].is_disjoint(&qs[r])))
}
struct Rule {
    from: G,
    targets: Vec<String>,
}
/// the rules of a list of classes: representative to each other and back
fn rules(classes: &[Vec<G>], hugrs: &[EqCircClass]) -> Vec<Rule> {
    let mut out = vec![];
    for (class, c) in classes.iter().enumerate() {
        for (i, g) in c.iter().enumerate() {
            let gone = idle(g);
            let from = without(g, &gone);
            // Beyond that, the matcher decides; it is asked with the idle wires left out
            if !central(&from) && !accepted(&from, hugrs[class].circuits().nth(i).unwrap(), &gone) {
                continue;
            }
            let others: Vec<&G> = if i == 0 { c[1..].iter().collect() } else { vec![&c[0]] };
            let targets = others.into_iter().filter(|t| gone.is_subset(&idle(t))).map(|t| form(&without(t, &gone))).collect();
            out.push(Rule { from, targets });
        }
    }
    out
}
fn accepted(from: &G, h: &Hugr, gone: &BTreeSet<usize>) -> bool {
    if from.node.len() == 2 {
        return false;
    }
    // the same circuit again without the idle inputs and their outputs
    let sig = Circuit::new(h).circuit_signature().into_owned();
    let ins: Vec<_> = sig.input.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, t)| t.clone()).collect();
    let mut w: HashMap<(usize, usize), Wire> = HashMap::new();
    let mut b = DFGBuilder::new(Signature::new(ins.clone(), ins.into_iter().filter(|t| !t.copyable()).collect::<Vec<_>>())).unwrap();
    for (i, x) in b.input_wires().enumerate() {
        w.insert((0, i), x);
    }
    let mut todo: Vec<usize> = (2..from.node.len()).collect();
    while !todo.is_empty() {
        let k = todo.iter().position(|x| from.ins[*x].iter().all(|(s, p, _)| w.contains_key(&(*s, *p)))).unwrap();
        let x = todo.remove(k);
        let o = b.add_dataflow_op(h.get_optype(from.node[x]).clone(), from.ins[x].iter().map(|(s, p, _)| w[&(*s, *p)]).collect::<Vec<_>>()).unwrap();
        for (p, v) in o.outputs().enumerate() {
            w.insert((x, p), v);
        }
    }
    let outs: Vec<Wire> = from.ins[1].iter().map(|(s, p, _)| w[&(*s, *p)]).collect();
    CircuitPattern::try_from_circuit(&Circuit::new(b.finish_hugr_with_outputs(outs).unwrap())).is_ok()
}
type Found = BTreeMap<(Vec<usize>, String), usize>;
fn found(r: &ECCRewriter, c: &Circuit) -> (Found, Vec<tket::rewrite::CircuitRewrite>) {
    let g = graph_of(c);
    let idx: BTreeMap<Node, usize> = g.node.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let v = r.get_rewrites(c);
    let mut out = Found::new();
    for w in &v {
        let mut s: Vec<usize> = w.subgraph().nodes().iter().map(|n| idx.get(n).copied().unwrap_or(99999)).collect();
        s.sort();
        *out.entry((s, form(&graph_of(&w.replacement().to_owned())))).or_default() += 1;
    }
    (out, v)
}
struct Set {
    name: String,
    /// rewriters that must offer the same; the first one's are checked in full
    rw: Vec<(String, ECCRewriter)>,
    rules: Option<Vec<Rule>>,
}
fn size(c: &Circuit) -> isize {
    c.hugr().children(c.parent()).filter(|n| c.hugr().get_optype(*n).is_extension_op()).count() as isize
}
fn check(ctx: &Ctx, set: &Set, text: &str) -> Result<(), String> {
    let (_, c) = circuit(text)?;
    let g = graph_of(&c);
    let (got, rws) = found(&set.rw[0].1, &c);
    ctx.states(1);
    ctx.trans(rws.len() as u64);
    for (n, r) in &set.rw[1..] {
        let (f, _) = found(r, &c);
        if let Some((k, v)) = got.iter().find(|(k, v)| f.get(k) != Some(v)) {
            return Err(format!("{n} offers {v} rewrites {k:?}, {} {:?}", set.rw[0].0, f.get(k)));
        }
        if let Some((k, _)) = f.iter().find(|(k, _)| !got.contains_key(k)) {
            return Err(format!("{n} offers the rewrite {k:?}, {} does not", set.rw[0].0));
        }
    }
    let before = behave(ctx, c.hugr(), c.parent())?;
    let sig = c.circuit_signature().into_owned();
    let mut seen: HashMap<String, Behaviour> = HashMap::new();
    for w in rws {
        let what = format!("the rewrite of {:?} to {}", w.subgraph().nodes(), form(&graph_of(&w.replacement().to_owned())));
        let delta = w.node_count_delta();
        let mut d = c.clone();
        w.apply(&mut d).map_err(|e| format!("{what}: {e}"))?;
        d.hugr().validate().map_err(|e| format!("{what}: {e}"))?;
        if size(&d) - size(&c) != delta {
            return Err(format!("{what} reports a change of {delta} operations, it is {}", size(&d) - size(&c)));
        }
        if *d.circuit_signature() != sig {
            return Err(format!("{what} changes the signature"));
        }
        let f = form(&graph_of(&d));
        if !seen.contains_key(&f) {
            let b = behave(ctx, d.hugr(), d.parent()).map_err(|e| format!("{what}: {e}"))?;
            same(&before, &b).map_err(|e| format!("{what} changes the circuit: {e}"))?;
            seen.insert(f, b);
            ctx.traces(1);
        }
    }
    let Some(rules) = &set.rules else { return Ok(()) };
    // per place and replacement: the least and the most times it may be offered
    let mut want: HashMap<(Vec<usize>, &str), (usize, usize)> = HashMap::new();
    let labels: BTreeMap<&str, usize> = g.label[2..].iter().fold(BTreeMap::new(), |mut m, l| { *m.entry(l.as_str()).or_default() += 1; m });
    for r in rules {
        if r.from.label.len() > g.label.len() || r.from.label[2..].iter().any(|l| !labels.contains_key(l.as_str())) {
            continue;
        }
        for (m, unsure) in occurrences(&r.from, &g) {
            let mut s = m[2..].to_vec();
            s.sort();
            for t in &r.targets {
                let e = want.entry((s.clone(), t)).or_default();
                e.0 += !unsure as usize;
                e.1 += 1;
            }
        }
    }
    for ((s, t), (lo, _)) in &want {
        // the same place may be matched in several ways
        if *lo > 0 && !got.contains_key(&(s.clone(), t.to_string())) {
            return Err(format!("the rewrite of {s:?} to {t} is not offered"));
        }
    }
    for ((s, t), n) in &got {
        let hi = want.get(&(s.clone(), t.as_str())).map_or(0, |e| e.1);
        if *n > hi {
            return Err(format!("the rewrite of {s:?} to {t} is offered {n} times, {hi} expected"));
        }
    }
    Ok(())
}
/// A class file read independently: statements and the terms of the outputs, per class and circuit
fn read(path: &str) -> Vec<Vec<(usize, usize, Vec<String>, String)>> {
    let j: J = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let name = |o: &str| match o {
        "h" => "H",
        "cx" => "CX",
        "t" => "T",
        "tdg" => "Tdg",
        "x" => "X",
        "rz" => "Rz",
        "s" => "S",
        "add" => "radd",
        o => panic!("{o}"),
    }
    .to_string();
    let mut labels: HashMap<String, String> = HashMap::new();
    let mut out = vec![];
    for c in j[1].as_object().unwrap().values() {
        let mut class = vec![];
        for d in c.as_array().unwrap() {
            let (nq, np) = (d[0][0].as_u64().unwrap() as usize, d[0][1].as_u64().unwrap() as usize);
            let mut val: HashMap<String, String> = (0..nq).map(|i| (format!("Q{i}"), format!("in{i}"))).chain((0..np).map(|i| (format!("P{i}"), format!("in{}", nq + i)))).collect();
            let mut sts = vec![];
            let mut used = vec![];
            for g in d[1].as_array().unwrap() {
                let list = |k: usize| -> Vec<String> { g[k].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect() };
                let (op, outs, ins) = (name(g[0].as_str().unwrap()), list(1), list(2));
                let slot = |s: &String| s.replace('Q', "q").replace('P', "a");
                let st = if op == "radd" { format!("{op} {} {} -> {}", slot(&ins[0]), slot(&ins[1]), slot(&outs[0])) } else { format!("{op} {}", ins.iter().map(slot).collect::<Vec<_>>().join(" ")) };
                let label = labels.entry(op.clone()).or_insert_with(|| {
                    let (_, c) = circuit(&format!("fn main(q0,q1,a0,a1){{{}}}", match op.as_str() { "radd" => "radd a0 a1 -> a0".into(), "CX" => "CX q0 q1".into(), "Rz" => "Rz q0 a0".into(), o => format!("{o} q0") })).unwrap();
                    graph_of(&c).label[2].clone()
                });
                let args: Vec<String> = ins.iter().map(|i| val[i].clone()).collect();
                for (k, o) in outs.iter().enumerate() {
                    val.insert(o.clone(), format!("{label}({})#{k}", args.join(",")));
                }
                used.push(label.clone());
                sts.push(st);
            }
            used.sort();
            let outs: Vec<String> = (0..nq).map(|i| val[&format!("Q{i}")].clone()).collect();
            class.push((nq, np, sts, format!("{outs:?} {used:?}")));
        }
        out.push(class);
    }
    out
}
fn graphs(c: &[EqCircClass]) -> Vec<Vec<G>> {
    c.iter().map(|k| k.circuits().map(|h| graph_of(&Circuit::new(h.clone()))).collect()).collect()
}
fn stored(r: &ECCRewriter) -> Result<ECCRewriter, String> {
    let mut v = vec![];
    r.save_binary_io(&mut v).map_err(|e| format!("save: {e}"))?;
    ECCRewriter::load_binary_io(&v[..]).map_err(|e| format!("load: {e}"))
}
fn file_set(ctx: &Ctx, f: &str) -> Option<(Set, Option<Set>, Vec<Vec<(usize, usize, Vec<String>, String)>>)> {
    let path = format!("/repo/test_files/eccs/{f}.json");
    let mine = read(&path);
    let classes = load_eccs_json_file(&path).ok()?;
    let gs = graphs(&classes);
    // the file's classes, the smallest circuit of each first
    ctx.case(&format!("load {f}"), || {
        let mut want: Vec<Vec<String>> = mine.iter().map(|c| c.iter().map(|x| x.3.clone()).collect::<Vec<_>>()).map(|mut v| { v.sort(); v }).collect();
        let mut got: Vec<Vec<String>> = gs.iter().map(|c| c.iter().map(form).collect::<Vec<_>>()).map(|mut v| { v.sort(); v }).collect();
        want.sort();
        got.sort();
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(format!("class read as {:?}, it is {:?}", got.get(k), want.get(k)));
        }
        for c in &gs {
            if c.iter().any(|g| g.label.len() < c[0].label.len()) {
                return Err(format!("the representative of {:?} is not the smallest", c.iter().map(form).collect::<Vec<_>>()));
            }
        }
        Ok(())
    });
    let r = ECCRewriter::from_eccs(classes.clone());
    let st = match stored(&r) {
        Ok(s) => s,
        Err(e) => {
            ctx.fail(&format!("store {f}"), &e);
            return None;
        }
    };
    let bin = format!("/repo/test_files/eccs/{f}.rwr");
    let rw = vec![("the rewriter".to_string(), r), ("the rewriter stored and loaded".to_string(), st)];
    // files written by earlier versions
    let mut old = None;
    if std::path::Path::new(&bin).exists() {
        match ECCRewriter::load_binary(&bin) {
            Ok(b) => old = Some(Set { name: format!("{f}.rwr"), rw: vec![(f.into(), b)], rules: None }),
            Err(e) => ctx.fail(&format!("load {f}.rwr"), &format!("{e}")),
        }
    }
    Some((Set { name: f.into(), rw, rules: Some(rules(&gs, &classes)) }, old, mine))
}
/// Classes made of all small circuits that do the same
fn own_set(ctx: &Ctx, name: &str, ins: &str, alpha: &[&str], n: usize) -> Option<Set> {
    let mut classes: Vec<(Behaviour, Vec<Circuit>)> = vec![];
    let mut forms = BTreeSet::new();
    // the empty circuit would be the representative of all that do nothing
    for k in name.starts_with("idle") as usize..=n {
        for p in programs(ins, "", alpha, k, "") {
            let (_, c) = circuit(&p).ok()?;
            if !forms.insert(form(&graph_of(&c))) {
                continue;
            }
            let b = behave(ctx, c.hugr(), c.parent()).ok()?;
            match classes.iter_mut().find(|(x, _)| same(x, &b).is_ok()) {
                Some((_, v)) => v.push(c),
                None => classes.push((b, vec![c])),
            }
        }
    }
    let classes: Vec<EqCircClass> = classes.into_iter().filter(|c| c.1.len() > 1).map(|(_, c)| EqCircClass::from_circuits(c.into_iter().map(|c| Circuit::new(c.extract_dfg().unwrap().into_hugr()))).unwrap()).collect();
    let gs = graphs(&classes);
    ctx.bound(&format!("{name} classes"), gs.len() as u64);
    let r = ECCRewriter::from_eccs(classes.clone());
    let st = stored(&r).map_err(|e| ctx.fail(name, &e)).ok()?;
    Some(Set { name: name.into(), rw: vec![("the rewriter".into(), r), ("the rewriter stored and loaded".into(), st)], rules: Some(rules(&gs, &classes)) })
}
fn progs(ins: &str, alpha: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..=n).flat_map(|k| programs(ins, "", alpha, k, "")).collect();
    v.sort();
    v.dedup();
    v
}
fn files(ctx: &Ctx) {
    let d = std::env::temp_dir().join(format!("tkmc-c06-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    ctx.case("file names", || {
        let r = ECCRewriter::from_eccs(load_eccs_json_file("/repo/test_files/eccs/cx_cx_eccs.json").map_err(|e| e.to_string())?);
        for n in ["plain", "with.rwr", "other.json"] {
            let p = r.save_binary(d.join(n)).map_err(|e| e.to_string())?;
            if p.extension().is_none_or(|e| e != "rwr") || p.parent() != Some(&d) || !p.is_file() {
                return Err(format!("{n} was saved as {p:?}"));
            }
            ECCRewriter::load_binary(&p).map_err(|e| format!("{n}: {e}"))?;
        }
        if ECCRewriter::load_binary(d.join("none.rwr")).is_ok() || ECCRewriter::load_binary_io(&b"junk"[..]).is_ok() {
            return Err("junk is loaded".into());
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&d);
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    files(ctx);
    let mut work: Vec<(Set, Vec<String>)> = vec![];
    let small = ["H q0", "X q0", "T q0", "Tdg q1", "CX q0 q1", "CX q1 q0"];
    let para = ["H q0", "H q1", "X q0", "Rz q0 a0", "Rz q1 a1", "radd a0 a1 -> a0", "radd a1 a1 -> a0", "CX q0 q1", "CX q1 q0"];
    let mut sets = vec!["small_eccs", "nam_4_2", "h_rz_cxcomplete_ECC_set", "cx_cx_eccs", "h_h_eccs"];
    if th {
        sets.push("T_Tdg_H_X_CX_complete_ECC_set");
    }
    for f in sets {
        let Some((set, old, mine)) = file_set(ctx, f) else { continue };
        let n = if th { 4 } else { 3 };
        let mut v = match f {
            "small_eccs" | "T_Tdg_H_X_CX_complete_ECC_set" => [progs("q0,q1", &small, n), progs("q0,q1,a0,a1", &para, n - 1)].concat(),
            "cx_cx_eccs" => progs("q0,q1,q2", &["CX q0 q1", "CX q1 q0", "CX q1 q2", "H q0"], n + 2),
            "h_h_eccs" => progs("q0,q1,q2", &["H q0", "H q1", "CX q0 q1"], n + 2),
            _ => progs("q0,q1,a0,a1", &para, n),
        };
        // every circuit of the set, with every operation inserted everywhere
        let extra = ["H q0", "X q1", "CX q0 q1", "CX q1 q2", "Rz q0 a1", "radd a0 a1 -> a1"];
        let step = if f.starts_with("T_") { 7 } else { 1 };
        for (_, _, sts, _) in mine.iter().flatten().step_by(step) {
            let ins = "q0,q1,q2,a0,a1";
            v.push(format!("fn main({ins}){{{}}}", sts.join(";")));
            for k in 0..=sts.len() {
                for e in extra.iter().take(if th { 6 } else { 4 }) {
                    let mut s = sts.clone();
                    s.insert(k, e.to_string());
                    v.push(format!("fn main({ins}){{{}}}", s.join(";")));
                }
            }
        }
        v.sort();
        v.dedup();
        if let Some(o) = old {
            work.push((o, v.clone()));
        }
        work.push((set, v));
    }
    let g1 = ["H q0", "CX q0 q1", "CX q1 q0", "X q1", "T q0", "T q1"];
    if let Some(s) = own_set(ctx, "clifford", "q0,q1", &g1, if th { 3 } else { 2 }) {
        work.push((s, [progs("q0,q1", &g1, if th { 4 } else { 3 }), progs("q0,q1,q2", &["CX q0 q1", "CX q1 q2", "CX q2 q0", "T q1"], 4)].concat()));
    }
    let g2 = ["Rz q0 a0", "Rz q0 a1", "Rz q1 a0", "radd a0 a1 -> a0", "radd a1 a0 -> a0", "CX q0 q1"];
    if let Some(s) = own_set(ctx, "rotations", "q0,q1,a0,a1", &g2, if th { 3 } else { 2 }) {
        work.push((s, progs("q0,q1,a0,a1", &g2, 3)));
    }
    let g3 = ["CX q0 q1", "CX q1 q0", "CX q1 q2", "CX q2 q1", "H q2"];
    if let Some(s) = own_set(ctx, "three qubits", "q0,q1,q2", &g3, if th { 4 } else { 3 }) {
        work.push((s, progs("q0,q1,q2", &g3, 4)));
    }
    // members of a class leave different qubits idle
    for (name, ins, g5) in [("idle", "q0,q1", &["H q0", "H q1", "X q0", "CX q1 q0"][..]), ("idle of three", "q0,q1,q2", &["H q0", "H q1", "X q2"][..]), ("idle angles", "q0,q1,a0,a1", &["Rz q0 a0", "X q1", "H q0", "radd a0 a1 -> a1"][..])] {
        if let Some(s) = own_set(ctx, name, ins, g5, if th { 4 } else { 3 }) {
            work.push((s, progs(ins, g5, 4)));
        }
    }
    // swaps
    let g4 = ["CX q0 q1", "CX q1 q0", "swap q0 q1", "H q2", "H q0"];
    if let Some(s) = own_set(ctx, "swaps", "q0,q1,q2", &g4, 3) {
        work.push((s, progs("q0,q1,q2", &g4, 4)));
    }
    let jobs: Vec<(usize, usize)> = work.iter().enumerate().flat_map(|(i, w)| (0..w.1.len()).map(move |j| (i, j))).collect();
    for w in &work {
        ctx.bound(&format!("{} circuits", w.0.name), w.1.len() as u64);
    }
    ctx.par(jobs.len(), |i| {
        let (s, p) = (&work[jobs[i].0].0, &work[jobs[i].0].1[jobs[i].1]);
        ctx.case(&format!("{} @ {p}", s.name), || match check(ctx, s, p) {
            Err(e) if e.contains("slot") => Ok(()),
            r => r,
        });
    });
}
