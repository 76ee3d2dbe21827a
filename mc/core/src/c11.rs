//! C11: borrow elision. Programs over borrow arrays before and after, including those that fail on an index.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::qs::*;
use std::collections::BTreeMap;
use tket::hugr::algorithms::ComposablePass;
use tket::hugr::extension::prelude::ConstUsize;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::{OpTag, OpTrait, OpType, Value};
use tket::hugr::types::EdgeKind;
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, Wire};
use tket::passes::borrow_squash::{borrow_squash_array, BorrowSquashPass};

fn is_op(h: &Hugr, n: Node, name: &str) -> bool {
    h.get_optype(n).as_extension_op().is_some_and(|x| x.def().extension_id().to_string() == "collections.borrow_arr" && x.def().name() == name)
}
fn bwires(h: &Hugr) -> Vec<Wire> {
    let mut v = vec![];
    for p in h.descendants(h.module_root()).filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent) {
        for n in h.children(p) {
            for o in h.node_outputs(n) {
                if let Some(EdgeKind::Value(t)) = h.get_optype(n).port_kind(o) {
                    if t.as_extension().is_some_and(|e| e.name() == "borrow_array") {
                        v.push(Wire::new(n, o));
                    }
                }
            }
        }
    }
    v
}
fn index(h: &Hugr, n: Node) -> Option<u64> {
    let (l, _) = h.single_linked_output(n, 1)?;
    let OpType::LoadConstant(_) = h.get_optype(l) else { return None };
    let (c, _) = h.single_linked_output(l, 0)?;
    match &h.get_optype(c).as_const()?.value {
        Value::Extension { e } => e.value().downcast_ref::<ConstUsize>().map(|c| c.value()),
        _ => None,
    }
}
/// Is there a borrow, return, borrow of one constant index with only accesses at constant indices between?
fn left(h: &Hugr) -> Option<String> {
    for w in bwires(h) {
        let prev = w.node();
        let (b, r) = (is_op(h, prev, "borrow"), is_op(h, prev, "return"));
        if (b && w.source() == OutgoingPort::from(0) || r) && index(h, prev).is_some() {
            continue;
        }
        // 0 untouched, 1 borrowed, 2 returned, 3 accessed wrongly
        let mut st: BTreeMap<u64, u8> = BTreeMap::new();
        let mut at = w;
        while let Some((n, p)) = h.single_linked_input(at.node(), at.source()) {
            let (b, r) = (is_op(h, n, "borrow"), is_op(h, n, "return"));
            if !(b || r) || p != IncomingPort::from(0) {
                break;
            }
            let Some(i) = index(h, n) else { break };
            let s = st.entry(i).or_default();
            *s = match (*s, b) {
                (0, true) => 1,
                (1, false) => 2,
                (2, true) => return Some(format!("index {i} is still borrowed, returned and borrowed again")),
                _ => 3,
            };
            at = Wire::new(n, OutgoingPort::from(0));
        }
    }
    None
}
pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (b, ord) = source(text)?;
        let o = Opts { hide_panic: true, ..opts(ord) };
        let before = behave_with(ctx, &b.hugr, b.main, &o).map_err(|e| format!("reference program: {e}"))?;
        let fails = before.map.keys().any(|k| k.contains("PANIC"));
        let check = |h: &Hugr, what: &str| -> Result<(), String> {
            let f = || -> Result<(), String> {
                h.validate().map_err(|e| format!("invalid result: {e}"))?;
                for reverse in [false, true] {
                    let after = behave_with(ctx, h, b.main, &Opts { reverse, ..o.clone() }).map_err(|e| format!("result: {e}"))?;
                    same(&before, &after)?;
                }
                ctx.traces(1);
                Ok(())
            };
            f().map_err(|e| format!("{what}: {e}"))
        };
        // the pass
        let mut h = b.hugr.clone();
        h.set_entrypoint(if text.contains("fn f") { h.module_root() } else { b.main });
        let done = BorrowSquashPass::default().run(&mut h).map_err(|e| format!("pass failed: {e}"))?;
        ctx.count("pairs removed", done.len() as u64);
        let lost = b.hugr.num_nodes() - h.num_nodes();
        if lost != 2 * done.len() {
            return Err(format!("{} pairs reported, {lost} nodes gone", done.len()));
        }
        for (r, k) in &done {
            if !is_op(&b.hugr, *r, "return") || !is_op(&b.hugr, *k, "borrow") {
                return Err("reported pair is not a return and a borrow".into());
            }
        }
        check(&h, "pass")?;
        // (arrays inside an array that is accessed wrongly are not required to be visited)
        if !(fails && text.contains("A2A1")) {
            if let Some(e) = left(&h) {
                return Err(e);
            }
        }
        // only in one region
        for r in b.hugr.children(b.hugr.module_root()).filter(|n| b.hugr.get_optype(*n).is_func_defn()).collect::<Vec<_>>() {
            let mut h = b.hugr.clone();
            BorrowSquashPass::default().set_regions([r]).run(&mut h).map_err(|e| format!("pass failed: {e}"))?;
            check(&h, "one region")?;
        }
        // starting at each array
        for w in bwires(&b.hugr) {
            for rec in [false, true] {
                let mut h = b.hugr.clone();
                if !borrow_squash_array(&mut h, w, rec).is_empty() {
                    check(&h, &format!("from {w}"))?;
                }
            }
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let mut add = |lib: &str, pre: &str, ins: &str, start: &str, al: &[&str], n: usize| {
        jobs.extend(programs(ins, start, al, n, "").into_iter().map(|s| format!("{pre}{lib}{}", s.replace("){", ")->(*){"))));
    };
    let d = |q: usize, t: usize| if th { t } else { q };
    // one array of qubits
    let basic = ["borrow A2q0 u1 -> A2q0 q2", "borrow A2q0 u1 -> A2q0 q3", "return A2q0 u1 q2 -> A2q0", "return A2q0 u1 q3 -> A2q0", "borrow A2q0 u2 -> A2q0 q2", "borrow A2q0 u2 -> A2q0 q3", "return A2q0 u2 q2 -> A2q0", "return A2q0 u2 q3 -> A2q0"];
    let mut a: Vec<&str> = basic.to_vec();
    a.extend(["qsRz(0.3) q2", "ZZPhase(0.2) q2 q3"]);
    let st = "u(0) -> u1; u(1) -> u2; anew q0 q1 -> A2q0";
    for n in 1..=d(6, 8) {
        add("", "", "q0,q1", st, &a, n);
    }
    // equal constants, unknown index, index out of range, other operations on the array, outputs in regions
    let mut a: Vec<&str> = basic[..4].to_vec();
    a.extend(["borrow A2q0 u3 -> A2q0 q2", "return A2q0 u3 q2 -> A2q0", "borrow A2q0 u0 -> A2q0 q3", "return A2q0 u0 q3 -> A2q0", "borrow A2q0 u4 -> A2q0 q2", "return A2q0 u4 q2 -> A2q0", "call f A2q0 -> A2q0", "aswap A2q0 u1 u2 -> Y1A2q1", "dfg {noop A2q0 -> A2q0}", "X q2", "is_borrowed A2q0 u1 -> A2q0 b3", "barrier A2q0"]);
    let a: Vec<&str> = a.into_iter().filter(|s| !s.contains("Y1A")).collect();
    let lib = "fn f(A2q0)->(A2q0){u(0) -> u0; u(0) -> u1; borrow A2q0 u0 -> A2q0 q0; H q0; return A2q0 u1 q0 -> A2q0; borrow A2q0 u0 -> A2q0 q0; H q0; return A2q0 u0 q0 -> A2q0} ";
    for n in 1..=d(4, 5) {
        add(lib, "", "q0,q1,u0", "u(0) -> u1; u(1) -> u2; u(0) -> u3; u(5) -> u4; anew q0 q1 -> A2q0", &a, n);
    }
    // two arrays: elements move between them; fresh arrays
    let a = ["borrow A2q0 u1 -> A2q0 q2", "borrow A2q1 u1 -> A2q1 q3", "return A2q0 u1 q3 -> A2q0", "return A2q1 u1 q2 -> A2q1", "return A2q0 u1 q2 -> A2q0", "return A2q1 u1 q3 -> A2q1", "borrow A2q1 u1 -> A2q1 q2", "ZZPhase(0.2) q2 q3", "noop A2q0 -> A2q0"];
    for n in 1..=d(6, 8) {
        add("", "", "q0,q1,q4,q5", "u(0) -> u1; u(1) -> u2; anew q0 q1 -> A2q0; anew q4 q5 -> A2q1", &a, n);
    }
    let a = ["new_all_borrowed -> A2q0", "discard_all_borrowed A2q0 ->", "return A2q0 u1 q2 -> A2q0", "return A2q0 u2 q3 -> A2q0", "borrow A2q0 u1 -> A2q0 q2", "borrow A2q0 u2 -> A2q0 q3", "return A2q0 u1 q3 -> A2q0", "return A2q0 u2 q2 -> A2q0", "borrow A2q0 u1 -> A2q0 q3", "b2a A2q0 -> V2q0", "a2b V2q0 -> A2q0"];
    for n in 1..=d(5, 6) {
        add("", "", "q2,q3", "u(0) -> u1; u(1) -> u2", &a, n);
    }
    // copyable elements
    let a = ["borrow A2i0 u1 -> A2i0 i5", "borrow A2i0 u2 -> A2i0 i6", "borrow A2i0 u1 -> A2i0 i6", "return A2i0 u1 i5 -> A2i0", "return A2i0 u2 i5 -> A2i0", "return A2i0 u1 i6 -> A2i0", "return A2i0 u2 i6 -> A2i0", "iadd i5 i6 -> i5", "borrow A2i0 u0 -> A2i0 i6", "aset A2i0 u1 i6 -> Z", "dfgx {iadd i5 i6 -> i6}"];
    let a: Vec<&str> = a.into_iter().filter(|s| !s.contains("Z")).collect();
    for n in 1..=d(4, 5) {
        add("", "", "i0,u0", "u(0) -> u1; u(1) -> u2; int(1) -> i5; int(7) -> i6; anew i0 i6 -> A2i0", &a, n);
    }
    // nested arrays
    let a = ["borrow A2A1q0 u1 -> A2A1q0 A1q2", "return A2A1q0 u1 A1q2 -> A2A1q0", "borrow A2A1q0 u2 -> A2A1q0 A1q2", "return A2A1q0 u2 A1q2 -> A2A1q0", "borrow A1q2 u1 -> A1q2 q2", "return A1q2 u1 q2 -> A1q2", "borrow A1q2 u0 -> A1q2 q2", "return A1q2 u0 q2 -> A1q2", "qsRz(0.3) q2", "borrow A2A1q0 u1 -> A2A1q0 A1q3", "return A2A1q0 u1 A1q3 -> A2A1q0", "borrow A1q3 u1 -> A1q3 q3", "return A1q3 u1 q2 -> A1q3", "return A1q3 u1 q3 -> A1q3", "noop A1q2 -> A1q2"];
    for n in 1..=d(6, 8) {
        if n > 6 {
            add("", "", "q0,q1,u0", "u(0) -> u1; u(1) -> u2; anew q0 -> A1q0; anew q1 -> A1q1; anew A1q0 A1q1 -> A2A1q0", &a[..9], n);
        } else {
            add("", "", "q0,q1,u0", "u(0) -> u1; u(1) -> u2; anew q0 -> A1q0; anew q1 -> A1q1; anew A1q0 A1q1 -> A2A1q0", &a, n);
        }
    }
    // regions
    let a = [
        "borrow A2q0 u1 -> A2q0 q2", "return A2q0 u1 q2 -> A2q0", "dfg {u(0) -> u5; borrow A2q0 u5 -> A2q0 q2; X q2; return A2q0 u5 q2 -> A2q0; u(0) -> u6; borrow A2q0 u6 -> A2q0 q2; H q2; return A2q0 u5 q2 -> A2q0}",
        "if b0 {u(0) -> u5; borrow A2q0 u5 -> A2q0 q2; X q2; return A2q0 u5 q2 -> A2q0; borrow A2q0 u5 -> A2q0 q2; H q2; return A2q0 u5 q2 -> A2q0}",
        "cfg b0 {u(0) -> u5; borrow A2q0 u5 -> A2q0 q2; X q2; return A2q0 u5 q2 -> A2q0; borrow A2q0 u5 -> A2q0 q2; H q2; return A2q0 u5 q2 -> A2q0} else {X q9}",
        "until b1 {u(1) -> u5; borrow A2q0 u5 -> A2q0 q2; X q2; return A2q0 u5 q2 -> A2q0; borrow A2q0 u5 -> A2q0 q2; H q2; return A2q0 u5 q2 -> A2q0; true -> b1}",
        "dfgx {borrow A2q0 u1 -> A2q0 q2; X q2; return A2q0 u1 q2 -> A2q0; borrow A2q0 u1 -> A2q0 q2; H q2; return A2q0 u1 q2 -> A2q0}",
        "call f A2q0 -> A2q0", "dfg {borrow A2q0 u1 -> A2q0 q2}", "dfg {return A2q0 u1 q2 -> A2q0}", "dfg {X q2}", "aunpack A2q0 -> q0 q1", "anew q1 q0 -> A2q0", "if b0 {X q2}",
        "dfg {u(0) -> u5; borrow A2q0 u5 -> A2q0 q2; X q2; return A2q0 u5 q2 -> A2q0; borrow A2q0 u2 -> A2q0 q2; H q2; return A2q0 u2 q2 -> A2q0; borrow A2q0 u5 -> A2q0 q2; Z q2; return A2q0 u5 q2 -> A2q0}",
    ];
    for n in 1..=d(3, 4) {
        add(lib, "", "q0,q1,q9,b0", "u(0) -> u1; u(1) -> u2; false -> b1; anew q0 q1 -> A2q0", &a, n);
    }
    // visible effects between the accesses, ordered as front-ends order them
    let a = ["borrow A2q0 u1 -> A2q0 q2", "return A2q0 u1 q2 -> A2q0", "borrow A2q0 u0 -> A2q0 q2", "return A2q0 u0 q2 -> A2q0", "int(1) -> i1; res_int(a) i1 ->", "int(1) -> i1; res_int(b) i1 ->", "call r", "X q2"];
    for n in 1..=d(5, 6) {
        add("fn r()->(){true -> b0; res_bool(r) b0 ->} ", "ordb:", "q0,q1,u0", "u(0) -> u1; u(1) -> u2; anew q0 q1 -> A2q0", &a, n);
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
