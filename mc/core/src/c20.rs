//! C20: barriers. The reference interpreter logs which qubits every barrier covers and which operations act
//! on every qubit; the compiled program has to give the same log with runtime barriers in place of barriers.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::qs::*;
use std::collections::{BTreeMap, BTreeSet};
use tket::hugr::algorithms::ReplaceTypes;
use tket::hugr::builder::{Container, DFGBuilder, Dataflow, DataflowHugr};
use tket::hugr::algorithms::ComposablePass;
use tket::hugr::extension::prelude::{bool_t, qb_t, Barrier};
use tket::hugr::hugr::patch::insert_cut::InsertCut;
use tket::hugr::hugr::patch::PatchHugrMut;
use tket::hugr::ops::{OpTrait, OpType};
use tket::hugr::types::{Signature, Type};
use tket::hugr::{Hugr, HugrView, Node, OutgoingPort};
use tket::passes::unpack_container::{TypeUnpacker, UnpackContainerBuilder};
use tket_qsystem::QSystemPass;

type Log = Vec<(String, Vec<usize>)>;
/// Every operation on every input qubit in order, every barrier with the set of qubits in it
fn canon(log: &Log, barrier: &str, n: usize, exact: bool) -> String {
    let mut per: BTreeMap<usize, Vec<String>> = (0..n).map(|q| (q, vec![])).collect();
    for (name, qs) in log {
        let set: BTreeSet<usize> = qs.iter().copied().collect();
        let bar = name == barrier || name == "RuntimeBarrier";
        if bar && set.len() != qs.len() {
            return "a qubit is twice in one barrier".into();
        }
        for q in &set {
            let t = if bar { format!("barrier{set:?}") } else { format!("{name}{qs:?}") };
            // gates that are decomposed only count as some gates
            let t = if bar || exact { t } else { "gates".into() };
            let v = per.entry(*q).or_default();
            if bar || exact || v.last() != Some(&t) {
                v.push(t);
            }
        }
    }
    format!("{per:?}")
}
fn logs(b: &Behaviour, barrier: &str, n: usize, exact: bool) -> Vec<String> {
    let mut v: Vec<String> = b.oplogs.iter().map(|l| canon(l, barrier, n, exact)).collect();
    v.sort();
    v
}
fn nargs(h: &Hugr, main: Node) -> usize {
    h.get_optype(main).as_func_defn().unwrap().signature().body().input().iter().filter(|t| **t == qb_t()).count()
}
pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        if let Some(t) = text.strip_prefix("unpack:") {
            return unpack(ctx, t);
        }
        let (b, ord) = source(text)?;
        let o = Opts { log_ops: true, ..opts(ord) };
        let before = behave_with(ctx, &b.hugr, b.main, &o).map_err(|e| format!("reference program: {e}"))?;
        let n = nargs(&b.hugr, b.main);
        let exact = !["H q", "CX q", "X q"].iter().any(|g| text.contains(g));
        let want = logs(&before, "Barrier", n, exact);
        for (name, p) in [("default", QSystemPass::default()), ("no monomorphize", QSystemPass::default().with_monormophize(false)), ("no lazify", QSystemPass::default().with_lazify(false))] {
            (|| {
                let h = compile(&b.hugr, b.main, p)?;
                native_only(&h, name != "no lazify")?;
                for n in h.nodes() {
                    if let OpType::ExtensionOp(x) = h.get_optype(n) {
                        if x.def().extension_id().starts_with("__tket") {
                            return Err("temporary operation left".into());
                        }
                    }
                }
                let after = behave_with(ctx, &h, h.entrypoint(), &o).map_err(|e| format!("result: {e}"))?;
                same(&before, &after)?;
                // the Barrier operations themselves may remain: they do nothing
                let mut after = after;
                after.oplogs.iter_mut().for_each(|l| l.retain(|x| x.0 != "Barrier"));
                let got = logs(&after, "RuntimeBarrier", n, exact);
                if want != got {
                    let i = (0..want.len().min(got.len())).find(|i| want[*i] != got[*i]).unwrap_or(0);
                    return Err(format!("operations per qubit: expected {:?} got {:?}", want.get(i), got.get(i)));
                }
                ctx.traces(1);
                Ok(())
            })()
            .map_err(|e: String| format!("{name}: {e}"))?;
        }
        Ok(())
    });
}

/// The container unpacking itself, for other element types: `<element> program`; every barrier of the program
/// is followed by unpacking and repacking everything in it.
fn unpack(ctx: &Ctx, t: &str) -> Result<(), String> {
    let (el, prog) = t.split_once(' ').unwrap();
    let (b, ord) = source(prog)?;
    let el = match el {
        "b" => bool_t(),
        "t" => tket::extension::bool::bool_type(),
        "m" => tket_qsystem::extension::futures::future_type(bool_t()),
        _ => qb_t(),
    };
    let before = behave_with(ctx, &b.hugr, b.main, &opts(ord)).map_err(|e| format!("reference program: {e}"))?;
    let mut h = b.hugr.clone();
    let er = |e: &dyn std::fmt::Display| format!("unpacking: {e}");
    let mut u = UnpackContainerBuilder::new(TypeUnpacker::new(el.clone()));
    let bars: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).cast::<Barrier>().is_some()).collect();
    for n in bars {
        let row: Vec<Type> = h.get_optype(n).cast::<Barrier>().unwrap().type_row.iter().cloned().collect();
        // copyable values may go to several places: only the linear ones and those used once are handled
        let (tys, targets): (Vec<Type>, Vec<_>) = row.iter().enumerate().filter_map(|(i, t)| {
            h.single_linked_input(n, OutgoingPort::from(i)).map(|x| (t.clone(), x))
        }).unzip();
        let mut d = DFGBuilder::new(Signature::new_endo(tys.clone())).map_err(|e| er(&e))?;
        let ins = d.input_wires();
        let ws = u.unpack_row(&mut d, &tys, ins).map_err(|e| er(&e))?;
        let want: Vec<Type> = tys.iter().flat_map(|t| u.type_analyzer().unpack_type(t).unwrap_or(vec![t.clone()])).collect();
        let got: Vec<Type> = ws.iter().map(|w| {
            let s = d.hugr().get_optype(w.node()).dataflow_signature().unwrap();
            s.port_type(w.source()).unwrap().clone()
        }).collect();
        if want != got {
            return Err(format!("unpacked to {got:?} instead of {want:?}"));
        }
        let out = u.repack_row(&mut d, &tys, ws).map_err(|e| er(&e))?;
        let ins_h = d.finish_hugr_with_outputs(out).map_err(|e| er(&e))?;
        InsertCut::new(h.get_parent(n).unwrap(), targets, ins_h).apply_hugr_mut(&mut h).map_err(|e| er(&e))?;
    }
    let mut low = ReplaceTypes::new_empty();
    u.into_function_map().register_operation_replacements(&mut h, &mut low);
    low.run(&mut h).map_err(|e| er(&e))?;
    h.validate().map_err(|e| format!("invalid result: {e}"))?;
    let after = behave_with(ctx, &h, b.main, &opts(ord)).map_err(|e| format!("result: {e}"))?;
    ctx.traces(1);
    same(&before, &after)
}

/// Statements that make a value of the type out of input qubits `q0,q1,..` (`q` counts those used)
fn make(ty: &str, q: &mut usize, k: &mut usize) -> (String, String) {
    let cs: Vec<char> = ty.chars().collect();
    let mut i = 0;
    let (s, n) = mk(&cs, &mut i, q, k);
    assert_eq!(i, cs.len(), "{ty}");
    return (s, n);
    fn mk(cs: &[char], i: &mut usize, q: &mut usize, k: &mut usize) -> (String, String) {
        let st = *i;
        let c = cs[*i];
        *i += 1;
        let num = |i: &mut usize| {
            let n = cs[*i].to_digit(10).unwrap() as usize;
            *i += 1;
            n
        };
        let name = |k: &mut usize, i: usize| {
            *k += 1;
            format!("{}_{}", cs[st..i].iter().collect::<String>(), *k)
        };
        match c {
            'q' => {
                *q += 1;
                (String::new(), format!("q{}", *q - 1))
            }
            'b' => (String::new(), "b0".into()),
            'a' => (String::new(), "a0".into()),
            'u' => (String::new(), "u0".into()),
            't' => {
                let n = name(k, *i);
                (format!("make_opaque b0 -> {n}; "), n)
            }
            'm' => {
                let n = name(k, *i);
                (format!("QAlloc -> q9{k}; LazyMeasure q9{k} -> {n}; "), n)
            }
            'O' | 'N' => {
                let (s, x) = mk(cs, i, q, k);
                let n = name(k, *i);
                (format!("{s}tag(1) {x} -> {n}; "), n)
            }
            'P' | 'T' | 'X' | 'Y' => {
                let len = if c == 'P' { 2 } else { num(i) };
                let (mut s, mut v) = (String::new(), vec![]);
                for _ in 0..len {
                    let (a, x) = mk(cs, i, q, k);
                    s += &a;
                    v.push(x);
                }
                let n = name(k, *i);
                (format!("{s}{} {} -> {n}; ", if c == 'P' || c == 'T' { "pack" } else { "tag(1)" }, v.join(" ")), n)
            }
            'A' | 'V' | 'W' => {
                let len = num(i);
                let (mut s, mut v) = (String::new(), vec![]);
                let el = *i;
                for _ in 0..len.max(1) {
                    *i = el;
                    let (q0, k0) = (*q, *k);
                    let (a, x) = mk(cs, i, q, k);
                    if len == 0 {
                        (*q, *k) = (q0, k0);
                        break;
                    }
                    s += &a;
                    v.push(x);
                }
                let n = name(k, *i);
                (format!("{s}anew {} -> {n}; ", v.join(" ")), n)
            }
            c => panic!("make {c}"),
        }
    }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let maxq = if th { 6 } else { 5 };
    let leaf: Vec<String> = ["q", "b", "t", "a"].map(String::from).to_vec();
    let next = |prev: &[String]| -> Vec<String> {
        let mut v = vec![];
        for e in prev {
            for c in ["O", "T1", "A2", "V2", "V3", "W2", "A1", "V0", "A0", "V1", "X2u"] {
                if c == "V3" && !th && e != "q" {
                    continue;
                }
                v.push(format!("{c}{e}"));
            }
            for l in ["q", "b"] {
                v.push(format!("P{e}{l}"));
                v.push(format!("P{l}{e}"));
            }
            v.push(format!("T3q{e}t"));
        }
        v.push("T0".into());
        v
    };
    let t2 = next(&leaf);
    let t3 = next(&t2);
    let t4 = if th { next(&t3) } else { vec![] };
    let mut rows: Vec<Vec<String>> = vec![];
    for t in leaf.iter().chain(&t2).chain(&t3).chain(&t4) {
        rows.push(vec![t.clone()]);
    }
    for t in leaf.iter().chain(&t2) {
        for u in leaf.iter().chain(&t2) {
            rows.push(vec![t.clone(), u.clone()]);
        }
    }
    for t in leaf.iter().chain(&t2).chain(&t3) {
        rows.push(vec!["q".into(), t.clone(), "q".into()]);
        rows.push(vec!["b".into(), t.clone()]);
    }
    if th {
        for t in &t2 {
            for u in &t3 {
                rows.push(vec![t.clone(), u.clone()]);
            }
        }
    }
    rows.sort();
    rows.dedup();
    let mut jobs: Vec<String> = vec![];
    for r in &rows {
        let (mut q, mut k) = (0, 0);
        let (mut s, mut v) = (String::new(), vec![]);
        for t in r {
            let (a, x) = make(t, &mut q, &mut k);
            s += &a;
            v.push(x);
        }
        if q > maxq {
            continue;
        }
        let n = q.max(1);
        let ins: Vec<String> = (0..n).map(|i| format!("q{i}")).collect();
        let pre: String = (0..n).map(|i| format!("qsRz(0.{}) q{i}; ", i + 1)).collect();
        // an extra gate after the barrier on whatever is given to it directly
        let post: String = v.iter().filter(|x| x.starts_with('q')).map(|x| format!("PhasedX(0.3,0.1) {x}; ")).collect();
        jobs.push(format!("fn main({},b0)->(*){{rot(0.3) -> a0; u(1) -> u0; {pre}{s}barrier {} -> {}; {post}}}", ins.join(","), v.join(" "), v.join(" ")));
        if r.len() <= 2 {
            for el in ["b", "t", "q"] {
                // values used once only: leave the other copies out of the outputs
                jobs.push(format!("unpack:{el} fn main({},b0)->({}){{rot(0.3) -> a0; u(1) -> u0; {s}barrier {} -> {}; }}", ins.join(","), outs(&v, n, &s), v.join(" "), v.join(" ")));
            }
        }
    }
    // histories: several barriers, regions, calls
    let al = [
        "barrier q0 q1", "barrier q1 q0", "barrier q2", "barrier b0", "barrier", "barrier q0 b0 q2 -> q0 b0 q2", "barrier A2q0 q1", "barrier V2q0", "barrier Pqb0 -> Pqb0", "qsRz(0.1) q0", "PhasedX(0.1,0.2) q1", "ZZPhase(0.2) q1 q2", "H q0", "CX q0 q2",
        "anew q0 q1 -> A2q0", "aunpack A2q0 -> q1 q0", "anew q1 q2 -> V2q0", "aunpack V2q0 -> q1 q2", "pack q2 b0 -> Pqb0", "unpack Pqb0 -> q2 b0", "if b0 {barrier q0 q1; qsRz(0.5) q0}", "dfg {barrier q1 q2}", "call f q0 q1 -> q0 q1", "until b1 {barrier q2; X q2; true -> b1}", "cfg b0 {barrier q2} else {qsRz(0.3) q2}", "rtbarrier V2q0 -> V2q0",
    ];
    let lib = "fn f(q0,q1)->(q0,q1){qsRz(0.7) q0; barrier q1 q0; qsRz(0.7) q1} ";
    for n in 1..=(if th { 4 } else { 3 }) {
        jobs.extend(programs("q0,q1,q2,b0", "false -> b1", &al, n, "").into_iter().filter(|s| s.contains("barrier") || s.contains("call")).filter(|s| n < 4 || !s.contains("until") && !s.contains("rtb")).map(|s| format!("{lib}{}", s.replace("){", ")->(*){"))));
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.bound("type rows", rows.len() as u64);
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
/// Outputs of the unpacking programs: each result of the barrier once, and the qubits not in it
fn outs(v: &[String], n: usize, s: &str) -> String {
    let mut o: Vec<String> = vec![];
    for x in v {
        if !o.contains(x) {
            o.push(x.clone());
        }
    }
    for i in 0..n {
        let q = format!("q{i}");
        let used = s.split([' ', ';']).any(|w| w == q) || o.contains(&q);
        if !used {
            o.push(q);
        }
    }
    o.join(",")
}
