//! C04: chunking and reassembling.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use tket::circuit::cost::{is_quantum, CircuitCost, LexicographicCost};
use tket::hugr::extension::prelude::qb_t;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::OpType;
use tket::hugr::types::EdgeKind;
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use tket::passes::CircuitChunks;
use tket::{Circuit, TketOp};

/// Remove `n`, joining its i-th input to its i-th output
pub fn bypass(h: &mut Hugr, n: Node, ports: usize) {
    for i in 0..ports {
        let (s, sp) = h.single_linked_output(n, IncomingPort::from(i)).unwrap();
        let ts: Vec<_> = h.linked_inputs(n, OutgoingPort::from(i)).collect();
        h.disconnect(n, IncomingPort::from(i));
        h.disconnect(n, OutgoingPort::from(i));
        for (t, tp) in ts {
            h.disconnect(t, tp);
            h.connect(s, sp, t, tp);
        }
    }
    h.remove_node(n);
}
/// Two X gates before every qubit output
fn grow(c: &mut Circuit) {
    let (par, out) = (c.parent(), c.output_node());
    let h = c.hugr_mut();
    for p in h.node_inputs(out).collect::<Vec<_>>() {
        if matches!(h.get_optype(out).port_kind(p), Some(EdgeKind::Value(t)) if t == qb_t()) {
            let (s, sp) = h.single_linked_output(out, p).unwrap();
            h.disconnect(out, p);
            let a = h.add_node_with_parent(par, OpType::from(TketOp::X));
            let b = h.add_node_with_parent(par, OpType::from(TketOp::X));
            h.connect(s, sp, a, 0);
            h.connect(a, 0, b, 0);
            h.connect(b, 0, out, p);
        }
    }
}
/// Remove no-ops, self-inverse pairs and triples of CX that swap two wires. True if anything changed.
fn shrink(c: &mut Circuit) -> bool {
    let par = c.parent();
    let h = c.hugr_mut();
    let mut any = false;
    'again: loop {
        for n in h.children(par).collect::<Vec<_>>() {
            let o = h.get_optype(n).clone();
            if let Some(x) = o.as_extension_op() {
                if x.def().name() == "Noop" {
                    bypass(h, n, 1);
                    any = true;
                    continue 'again;
                }
            }
            let Some(op) = o.cast::<TketOp>() else { continue };
            let k = match op {
                TketOp::X | TketOp::H => 1,
                TketOp::CX => 2,
                _ => continue,
            };
            let next: Vec<_> = (0..k).map(|i| h.single_linked_input(n, OutgoingPort::from(i)).unwrap()).collect();
            let m = next[0].0;
            if next.iter().any(|x| x.0 != m) || h.get_optype(m).cast::<TketOp>() != Some(op) {
                continue;
            }
            if next.iter().enumerate().all(|(i, x)| x.1 == IncomingPort::from(i)) {
                bypass(h, n, k);
                bypass(h, m, k);
                any = true;
                continue 'again;
            }
            // CX ab; CX ba; CX ab
            if k == 2 && next[0].1 == IncomingPort::from(1) {
                let third: Vec<_> = (0..2).map(|i| h.single_linked_input(m, OutgoingPort::from(i)).unwrap()).collect();
                let l = third[0].0;
                if third[1].0 == l && h.get_optype(l).cast::<TketOp>() == Some(op) && third[0].1 == IncomingPort::from(1) {
                    let s: Vec<_> = (0..2).map(|i| h.single_linked_output(n, IncomingPort::from(i)).unwrap()).collect();
                    let t: Vec<_> = (0..2).map(|i| h.single_linked_input(l, OutgoingPort::from(i)).unwrap()).collect();
                    for x in [n, m, l] {
                        h.remove_node(x);
                    }
                    h.connect(s[0].0, s[0].1, t[1].0, t[1].1);
                    h.connect(s[1].0, s[1].1, t[0].0, t[0].1);
                    any = true;
                    continue 'again;
                }
            }
        }
        return any;
    }
}

/// Operations below `root`; constants and their loads are left out (unused ones may be dropped)
fn names_of(h: &Hugr, root: Node) -> Vec<String> {
    let mut v = op_names(h, root);
    v.retain(|s| !["FuncDefn", "Const(", "LoadConstant("].iter().any(|p| s.starts_with(p)));
    v
}

fn weight(o: &OpType) -> usize {
    match o.cast::<TketOp>() {
        Some(TketOp::CX | TketOp::CZ | TketOp::CRz) => 3,
        Some(_) => 2,
        None => 0,
    }
}

fn check_chunks<C: CircuitCost>(ctx: &Ctx, circ: &Circuit, before: &Behaviour, names: &[String], ch: CircuitChunks, max: C, cost: impl Fn(&OpType) -> C) -> Result<(), String> {
    for (i, c) in ch.iter().enumerate() {
        c.hugr().validate().map_err(|e| format!("chunk {i} invalid: {e}"))?;
        let t: C = c.circuit_cost(&cost);
        if t.as_usize() > max.as_usize() && c.commands().filter(|c| !matches!(c.optype(), OpType::Const(_) | OpType::LoadConstant(_))).count() > 1 {
            return Err(format!("chunk {i} costs {t:?}, limit {max:?}"));
        }
    }
    let mut all: Vec<String> = ch.iter().flat_map(|c| names_of(c.hugr(), c.parent())).collect();
    all.sort();
    if all != names {
        return Err("the chunks' operations are not those of the circuit".into());
    }
    let n = ch.len();
    // which of 3 variants each chunk is replaced with; all combinations up to 4 chunks, single ones beyond
    let combos: Vec<Vec<usize>> = if n <= 4 {
        seqs(3, n).collect()
    } else {
        (0..=2 * n)
            .map(|k| (0..n).map(|i| if k > 0 && (k - 1) / 2 == i { 1 + (k - 1) % 2 } else { 0 }).collect())
            .chain([vec![1; n], vec![2; n]])
            .collect()
    };
    for combo in combos {
        let mut c2 = ch.clone();
        let mut useless = false;
        for (i, v) in combo.iter().enumerate() {
            match v {
                1 => grow(&mut c2[i]),
                2 => useless |= !shrink(&mut c2[i]),
                _ => {}
            }
            if *v > 0 {
                c2[i].hugr().validate().map_err(|e| format!("oracle: replaced chunk {i} ({v}): {e}"))?;
            }
        }
        if useless {
            continue;
        }
        let re = c2.reassemble().map_err(|e| format!("{combo:?}: reassemble: {e}"))?;
        re.hugr().validate().map_err(|e| format!("{combo:?}: reassembled circuit invalid: {e}"))?;
        if re.circuit_signature() != circ.circuit_signature() || re.name() != circ.name() {
            return Err(format!("{combo:?}: signature or name changed"));
        }
        let after = behave(ctx, re.hugr(), re.parent()).map_err(|e| format!("{combo:?}: result: {e}"))?;
        same(before, &after).map_err(|e| format!("{combo:?}: {e}"))?;
        if combo.iter().all(|x| *x == 0) {
            let got: Vec<String> = names_of(re.hugr(), re.parent());
            if got != names {
                return Err("operations lost or duplicated".into());
            }
        }
        ctx.traces(1);
    }
    Ok(())
}

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (b, circ) = circuit(text)?;
        let before = reference(ctx, &b.hugr, b.main)?;
        let names: Vec<String> = names_of(&b.hugr, b.main);
        let n = circ.commands().count();
        for k in 0..=n + 1 {
            check_chunks(ctx, &circ, &before, &names, CircuitChunks::split(&circ, k), k, |o| !matches!(o, OpType::Const(_) | OpType::LoadConstant(_)) as usize).map_err(|e| format!("split({k}): {e}"))?;
        }
        let tot: usize = circ.circuit_cost(weight);
        for k in 0..=tot {
            check_chunks(ctx, &circ, &before, &names, CircuitChunks::split_with_cost(&circ, k, weight), k, weight).map_err(|e| format!("split_with_cost({k}): {e}"))?;
        }
        let mm = |o: &OpType| LexicographicCost::<usize, 2>::from([(weight(o) == 3) as usize, is_quantum(o) as usize]);
        for k in 0..=2 {
            let max = LexicographicCost::from([k, 1]);
            check_chunks(ctx, &circ, &before, &names, CircuitChunks::split_with_cost(&circ, max, mm), max, mm).map_err(|e| format!("split_with_cost({max:?}): {e}"))?;
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs = vec![];
    let g = ["H q0", "X q0", "X q1", "CX q0 q1", "CX q1 q0", "CZ q1 q2", "noop q1 -> q1", "Rz(0.3) q1"];
    for n in 0..=(if th { 4 } else { 3 }) {
        jobs.extend(programs("q0,q1,q2", "", &g, n, ""));
    }
    let sw = ["CX q0 q1", "CX q1 q0", "X q0"];
    for n in 4..=(if th { 7 } else { 5 }) {
        jobs.extend(programs("q0,q1", "", &sw, n, ""));
    }
    let cl = [
        "Measure q0 -> q0 b0", "noop b0 -> b1", "if b0 {X q1}", "if b1 {H q1}", "rot(0.25) -> a1", "radd a0 a1 -> a1", "Rz q0 a0 -> q0", "Rx q1 a1 -> q1", "QAlloc -> q2", "QFree q2 ->",
        "CX q1 q2", "opqb q0 b0 -> q0 b1", "dfg {CX q0 q1}", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b1", "noop a0 -> a1", "barrier q0 q1", "anew q0 q1 -> V2q0", "aunpack V2q0 -> q1 q0",
    ];
    for n in 1..=(if th { 4 } else { 3 }) {
        jobs.extend(programs("q0,q1,a0,b0", "", &cl, n, ""));
    }
    // outputs: values straight through, repeated, and crossing
    for o in ["q1,q0,b0", "q0,q1,b0,b0", "b0,q0,q1,b1,b1", "q1,b1,q0,a0,a0"] {
        let al = ["noop b0 -> b1", "Measure q0 -> q0 b1", "opqb q1 b0 -> q1 b1", "opb b0 -> b0", "CX q0 q1", "noop a0 -> a0"];
        for n in 0..=(if th { 4 } else { 3 }) {
            for p in programs("q0,q1,a0,b0", "", &al, n, "") {
                jobs.push(p.replacen("fn main(q0,q1,a0,b0)", &format!("fn main(q0,q1,a0,b0)->({o})"), 1));
            }
        }
    }
    ctx.bound("programs", jobs.len() as u64);
    ctx.assume("circuits have no explicit order edges and no calls to functions outside the circuit (the chunks are separate circuits)");
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
