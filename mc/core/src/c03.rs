//! C03: greedy commutation keeps the program's meaning.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use tket::hugr::HugrView;
use tket::passes::apply_greedy_commutation;

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (b, mut circ) = circuit(text)?;
        let before = reference(ctx, &b.hugr, b.main)?;
        let d0 = depth(&b.hugr, b.main);
        let moves = apply_greedy_commutation(&mut circ).map_err(|e| format!("pass failed: {e}"))?;
        let h = circ.into_hugr();
        h.validate().map_err(|e| format!("invalid result: {e}"))?;
        let after = behave(ctx, &h, b.main).map_err(|e| format!("result: {e}"))?;
        same(&before, &after)?;
        if op_names(&b.hugr, b.main) != op_names(&h, b.main) {
            return Err("operations changed".into());
        }
        let d1 = depth(&h, b.main);
        if d1 > d0 {
            return Err(format!("depth rose from {d0} to {d1}"));
        }
        let edges = |h: &tket::hugr::Hugr| {
            let mut v: Vec<_> = h
                .descendants(b.main)
                .flat_map(|n| h.node_inputs(n).flat_map(move |p| h.linked_outputs(n, p).map(move |o| (n, p, o))))
                .collect();
            v.sort();
            v
        };
        if moves == 0 && edges(&b.hugr) != edges(&h) {
            return Err("0 moves reported but the circuit changed".into());
        }
        if moves > 0 {
            ctx.count("programs_with_moves", 1);
        }
        ctx.traces(1);
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    // A: unitary circuits, all gates
    let all = [
        "H q0", "X q1", "Y q1", "Z q0", "T q2", "Sdg q1", "V q1", "Rx(0.3) q2", "Ry(0.3) q0", "Rz(0.3) q1", "CX q0 q1", "CX q1 q0", "CX q1 q2",
        "CX q2 q0", "CZ q0 q2", "CZ q1 q2", "CY q0 q1", "CY q2 q1", "Toffoli q0 q1 q2", "Toffoli q2 q1 q0", "CRz(0.4) q0 q1", "CRz(0.4) q1 q0",
        "Vdg q0", "Tdg q0", "S q2",
    ];
    for n in 1..=3 {
        jobs.extend(programs("q0,q1,q2", "", &all, n, ""));
    }
    let deep = ["H q0", "X q1", "Z q0", "T q1", "CX q0 q1", "CX q1 q2", "CX q2 q1", "CZ q0 q2", "Rx q2 a0 -> q2"];
    for n in 4..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("q0,q1,q2,a0", "", &deep, n, ""));
    }
    let deep5 = ["H q1", "X q1", "Z q0", "CX q0 q1", "CX q0 q2", "CX q2 q1"];
    for n in 5..=(if th { 7 } else { 6 }) {
        jobs.extend(programs("q0,q1,q2", "", &deep5, n, ""));
    }
    // four qubits
    let four = ["CX q0 q1", "CX q1 q2", "CX q0 q2", "CX q3 q1", "CZ q0 q3", "X q2", "Z q3"];
    for n in 3..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("q0,q1,q2,q3", "", &four, n, ""));
    }
    // B: everything else a circuit may contain
    let mix = [
        "QAlloc -> q3", "QFree q3 ->", "QAlloc -> q2", "QFree q1 ->", "Measure q0 -> q0 b0", "Measure q1 -> q1 b1", "MeasureFree q1 -> t0", "Reset q0",
        "opq1 q0", "opq1 q1", "opq2 q0 q1", "opq2 q1 q0", "opqb q1 b0 -> q1 b0", "barrier q0 q1", "dfg {H q0}", "dfg {Z q0; Z q1}", "if b0 {X q1}", "if b0 {Z q0} else {CX q0 q1}",
        "rot(0.25) -> a0; rot(0.5) -> a1; if b0 {noop a0 -> a2} else {noop a1 -> a2}", "Rz q0 a2 -> q0", "Rx q1 a2 -> q1",
        "H q0", "X q1", "Z q0", "CX q0 q1", "CX q1 q0", "CX q0 q3", "CX q3 q1", "Z q3", "res_bool(r) b0", "noop q0 -> q0",
        "TryQAlloc -> Oq4; unpackO Oq4",
    ];
    let mix: Vec<&str> = mix.into_iter().filter(|m| !m.contains("unpackO") && !m.contains("call f")).collect();
    for n in 1..=3 {
        jobs.extend(programs("q0,q1", "", &mix, n, ""));
    }
    if th {
        jobs.extend(programs("q0,q1", "", &mix, 4, ""));
    }
    let m2 = [
        "Measure q0 -> q0 b0", "opq1 q0", "opq2 q0 q1", "if b0 {X q1}", "opqb q1 b0 -> q1 b0", "CX q0 q1", "Z q0", "X q1", "H q1", "QAlloc -> q3", "CX q0 q3", "Z q3",
    ];
    jobs.extend(programs("q0,q1", "", &m2, 4, ""));
    jobs.extend(programs("q0,q1", "", &m2, 5, ""));
    // C: a gate whose operand comes from further back than the gate it could jump over
    let m3 = [
        "if b0 {QAlloc -> q3} else {QAlloc -> q3; X q3}", "if b0 {rot(0.25) -> a2} else {rot(0.5) -> a2}", "Measure q0 -> q0 b0", "Rz q0 a2 -> q0", "Z q0", "CX q0 q1", "CX q0 q3", "Rz q1 a2 -> q1",
        "Measure q1 -> q1 b0", "CZ q0 q1", "H q1",
    ];
    for n in 2..=5 {
        jobs.extend(programs("q0,q1", "H q0", &m3, n, ""));
    }
    // D: arrays among the inputs
    let m4 = ["aunpack V1q4 -> q2", "anew q2 -> V1q4", "CX q0 q2", "CX q0 q1", "Z q0", "X q2", "H q1", "anew q1 -> V1q5", "X q1"];
    for n in 2..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("V1q4,q0,q1", "", &m4, n, ""));
    }
    // E: calls, blocks and loops between the gates
    let m5 = ["call f q0 q1 -> q0 q1", "call g q1 -> q1 b0", "cfg b0 {X q0} else {CX q0 q1}", "until b0 {H q1; Measure q1 -> q1 b0; true -> b0}", "dfgx {if b0 {Z q0}}", "H q0", "X q1", "Z q0", "CX q0 q1", "CX q2 q1", "Rz q0 a0 -> q0"];
    for n in 1..=(if th { 5 } else { 4 }) {
        jobs.extend(programs("q0,q1,q2,a0,b0", "", &m5, n, "").into_iter().map(|s| format!("fn f(q0,q1){{CX q0 q1; T q0}} fn g(q0)->(q0,b0){{H q0; Measure q0 -> q0 b0}} {s}")));
    }
    ctx.bound("programs", jobs.len() as u64);
    ctx.bound("statements_max", if th { 7 } else { 6 });
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
