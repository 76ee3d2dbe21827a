//! C18: the whole hardware compilation against the reference interpreter.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::prog::*;
use crate::qs::*;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::{Hugr, HugrView};
use tket_qsystem::extension::qsystem::{check_lowered, lower_tk2_op};
use tket_qsystem::QSystemPass;

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let all = text.strip_prefix("all:");
        let (b, ord) = source(all.unwrap_or(text))?;
        let before = behave_with(ctx, &b.hugr, b.main, &opts(ord)).map_err(|e| format!("reference program: {e}"))?;
        if all.is_some() {
            every_option(ctx, &b, &before, ord)?;
            return lowering_alone(ctx, &b, &before, ord).map_err(|e| format!("gate lowering alone: {e}"));
        }
        for (name, p) in passes() {
            (|| {
                let h = compile(&b.hugr, b.main, p)?;
                native_only(&h, name != "no lazify")?;
                behave_both(ctx, &h, &before, ord, name != "no force_order")?;
                ctx.traces(1);
                Ok(())
            })()
            .map_err(|e: String| format!("{name}: {e}"))?;
        }
        Ok(())
    });
}
/// Every combination of the pass's options, from the main function as the entrypoint and from the module (where the
/// pass has to find the function called "main" itself).
fn every_option(ctx: &Ctx, b: &Built, before: &Behaviour, ord: bool) -> Result<(), String> {
    for k in 0..32 {
        let on = |i: usize| k >> i & 1 == 1;
        let p = QSystemPass::default().with_constant_fold(on(0)).with_monormophize(on(1)).with_lazify(on(2)).with_force_order(on(3));
        (|| {
            let h = compile(&b.hugr, if on(4) { b.hugr.module_root() } else { b.main }, p)?;
            let e = h.get_optype(h.entrypoint());
            if !e.as_func_defn().is_some_and(|f| f.func_name() == "main") {
                return Err(format!("the entrypoint of the result is {e}"));
            }
            native_only(&h, on(2))?;
            behave_both(ctx, &h, before, ord, on(3))?;
            ctx.traces(1);
            Ok(())
        })()
        .map_err(|e: String| format!("constant_fold {}, monomorphize {}, lazify {}, force_order {}, from the module {}: {e}", on(0), on(1), on(2), on(3), on(4)))?;
    }
    Ok(())
}
/// The replacement of the source gates by itself, wherever the entrypoint is
fn lowering_alone(ctx: &Ctx, b: &Built, before: &Behaviour, ord: bool) -> Result<(), String> {
    let gates = |h: &Hugr| h.nodes().filter(|n| h.get_optype(*n).as_extension_op().is_some_and(|x| x.def().extension_id() == &tket::extension::TKET_EXTENSION_ID)).collect::<Vec<_>>();
    for from_module in [false, true] {
        let mut h = b.hugr.clone();
        let entry = if from_module { h.module_root() } else { b.main };
        h.set_entrypoint(entry);
        let mut want = gates(&h);
        let mut got = lower_tk2_op(&mut h).map_err(|e| format!("failed: {e}"))?;
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("reports {got:?} as replaced, the source operations were {want:?}"));
        }
        h.validate().map_err(|e| format!("invalid result: {e}"))?;
        if h.entrypoint() != entry {
            return Err("moved the entrypoint".into());
        }
        let left = gates(&h);
        if !left.is_empty() {
            return Err(format!("left {}", h.get_optype(left[0])));
        }
        if check_lowered(&h).is_err() {
            return Err("check_lowered reports source operations where there are none".into());
        }
        if !want.is_empty() && check_lowered(&b.hugr).is_ok() {
            return Err("check_lowered misses the source operations".into());
        }
        let after = behave_with(ctx, &h, b.main, &opts(ord)).map_err(|e| format!("result: {e}"))?;
        same(before, &after)?;
        ctx.traces(1);
    }
    Ok(())
}

pub const ONE: [&str; 10] = ["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"];

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    // every gate with every angle of a grid, alone and in pairs
    let mut gates: Vec<String> = ONE.iter().map(|g| format!("{g} q0")).collect();
    gates.extend(["CX q0 q1", "CX q1 q0", "CY q0 q1", "CZ q0 q1", "Toffoli q0 q1 q2", "Toffoli q2 q0 q1"].map(String::from));
    for k in -16..=16 {
        let a = k as f64 / 8.0;
        for g in ["Rx", "Ry", "Rz"] {
            gates.push(format!("{g}({a}) q0"));
        }
        gates.push(format!("CRz({a}) q0 q1"));
        if k % 4 == 0 {
            gates.push(format!("CRz({}) q1 q0", a + 0.3));
        }
    }
    for g in ["Rx q0 a0 -> q0", "Ry q0 a0 -> q0", "Rz q0 a0 -> q0", "CRz q0 q1 a0 -> q0 q1"] {
        gates.push(g.into());
    }
    for f in [0.0, 0.25, -0.7, 3.3, -2.5] {
        for g in ["Rx q0 a1 -> q0", "Ry q0 a1 -> q0", "Rz q0 a1 -> q0", "CRz q0 q1 a1 -> q0 q1"] {
            gates.push(format!("f64({f}) -> f0; from_halfturns_unchecked f0 -> a1; {g}"));
            gates.push(format!("rot({f}) -> a1; radd a0 a1 -> a1; {g}"));
        }
    }
    for g in &gates {
        jobs.push(format!("fn main(q0,q1,q2,a0){{{g}}}"));
        jobs.push(format!("all:fn main(q0,q1,q2,a0){{{g}}}"));
    }
    let few: Vec<String> = ONE
        .iter()
        .map(|g| format!("{g} q1"))
        .chain(["Rx(0.3) q1", "Ry(-0.7) q1", "Rz(0.45) q1", "CX q0 q1", "CX q1 q2", "CY q2 q1", "CZ q1 q0", "CRz(0.35) q1 q0", "Toffoli q2 q1 q0", "Reset q1", "Measure q1 -> q1 b1", "MeasureFree q2 -> t2; QAlloc -> q2"].map(String::from))
        .collect();
    let fr: Vec<&str> = few.iter().map(|s| s.as_str()).collect();
    for n in 2..=(if th { 3 } else { 2 }) {
        jobs.extend(programs("q0,q1,q2", "", &fr, n, ""));
    }
    // measurement, feedback, results, calls, control flow
    let mix = [
        "H q0", "CX q0 q1", "Measure q0 -> q0 b0", "MeasureFree q1 -> t0", "QAlloc -> q1", "read t0 -> b1", "if b0 {X q0}", "res_bool(a) b0 ->", "res_bool(b) b1 ->", "QFree q1 ->",
        "if b1 {res_bool(c) b0 ->; Z q0}", "tnot t0 -> t0", "Reset q0", "until b0 {H q0; Measure q0 -> q0 b0; not b0 -> b0}",
    ];
    let mix: Vec<&str> = mix.iter().filter(|s| !s.contains("until")).copied().collect();
    for n in 1..=(if th { 5 } else { 4 }) {
        if n < 4 || th {
            jobs.extend(programs("q0,q1", "false -> b0", &mix, n, "").into_iter().map(|s| format!("ord:{s}")));
        } else {
            jobs.extend(programs("q0,q1", "H q0; CX q0 q1; Measure q0 -> q0 b0; MeasureFree q1 -> t0", &mix, n - 1, "").into_iter().map(|s| format!("ord:{s}")));
        }
    }
    // numbers, results of other kinds, panics, exits
    let num = [
        "int(3) -> i0", "iadd i0 i1 -> i1", "imul i0 i0 -> i0", "res_int(i) i1 ->", "res_uint(u) i0 ->", "f64(0.5) -> f0", "fadd f0 f1 -> f1", "res_f64(f) f1 ->", "err(5,oops) -> E0; if b0 {panic E0 ->}",
        "err(3,bye) -> E0; if b1 {exit E0 ->}", "H q0; Measure q0 -> q0 b0", "H q0; MeasureFree q0 -> t0; read t0 -> b1; QAlloc -> q0", "res_bool(b) b0 ->", "ieq i0 i1 -> b1", "flt f0 f1 -> b1", "to_halfturns a0 -> f0",
    ];
    let nn = num;
    for n in 1..=(if th { 4 } else { 3 }) {
        jobs.extend(programs("q0,a0,i0,f1", "int(2) -> i1; f64(1.5) -> f0; true -> b1; false -> b0", &nn, n, "").into_iter().map(|s| format!("ord:{s}")));
    }
    // arrays
    let arr = [
        "borrow V0 -> V0", "u(0) -> u0", "u(1) -> u0", "borrow A2q0 u0 -> A2q0 q1", "return A2q0 u0 q1 -> A2q0", "H q1", "X q1", "Measure q1 -> q1 b0", "if b0 {u(1) -> u0} else {u(0) -> u0}",
    ];
    let arr: Vec<&str> = arr.into_iter().skip(1).collect();
    for n in 1..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("A2q0", "u(0) -> u0; false -> b0", &arr, n, ""));
    }
    let va = [
        "u(0) -> u0", "u(2) -> u0", "aget V2b0 u0 -> Ob0 V2b0", "aset V2b0 u0 b0 -> LbV2b", "MeasureFree q0 -> t0; QAlloc -> q0; H q0", "read t0 -> b0", "anew b0 b1 -> V2b0", "aclone V2b0 -> V2b0 V2b1", "res_arr(x) V2b0 ->",
        "adiscard V2b0 ->", "adiscard V2b1 ->", "anew t0 t0 -> V2t0", "aunpack V2t0 -> t0 t1", "aclone V2t0 -> V2t0 V2t1", "adiscard V2t1 ->", "aunpack V2b0 -> b1 b0", "drop V2t0 ->",
    ];
    let va: Vec<&str> = va.iter().filter(|s| !s.starts_with("aset")).copied().collect();
    for n in 1..=(if th { 5 } else { 4 }) {
        jobs.extend(programs("q0", "H q0; u(1) -> u0; MeasureFree q0 -> t0; QAlloc -> q0; H q0; false -> b0; true -> b1", &va, n, ""));
    }
    // functions, regions, loops
    let reg = [
        "call f q0 b0 -> q0 b0", "call g q0 q1", "dfg {H q0; CX q0 q1}", "cfg b0 {X q1} else {call g q1 q0}", "call d q0 t0 -> q0 t0", "if b0 {tnot t0 -> t0; call f q1 b0 -> q1 b0}", "read t0 -> b0", "dfg {if b0 {Z q0}; Rx(0.2) q0}",
        "res_bool(x) b0 ->", "pack q0 t0 -> Pqt0; unpack Pqt0 -> q0 t0", "until b0 {H q1; Measure q1 -> q1 b0; true -> b0}",
    ];
    let lib = "fn f(q0,b0)->(q0,b0){if b0 {H q0}; Measure q0 -> q0 b0} fn g(q0,q1){CX q0 q1; T q1} fn d(q0,t0)->(q0,t0){MeasureFree q0 -> t1; txor t0 t1 -> t0; QAlloc -> q0} ";
    for n in 1..=(if th { 4 } else { 3 }) {
        jobs.extend(programs("q0,q1", "H q0; H q1; MeasureFree q0 -> t0; QAlloc -> q0; true -> b0", &reg, n, "").into_iter().map(|s| format!("ord:{lib}{s}")));
        if n < 3 || th && n == 3 {
            let p = programs("q0,q1", "H q0; H q1; MeasureFree q0 -> t0; QAlloc -> q0; true -> b0", &reg, n, "");
            jobs.extend(p.into_iter().map(|s| format!("all:ord:{lib}{s}")));
        }
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.assume("qubit allocation never fails; the main function takes no tket.bool inputs");
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
