//! C19: lazy measurement. Booleans keep their value everywhere and each handle is read or freed exactly once
//! (the interpreter stops at a second use; leaks are counted at every return).
use crate::ctx::*;
use crate::gen::*;
use crate::qs::*;
use tket::hugr::algorithms::ComposablePass;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::{Hugr, HugrView, Node};
use tket_qsystem::replace_bools::ReplaceBoolPass;
use tket_qsystem::QSystemPass;

fn alone(h: &Hugr, main: Node) -> Result<Hugr, String> {
    let mut h = h.clone();
    h.set_entrypoint(h.module_root());
    ReplaceBoolPass.run(&mut h).map_err(|e| format!("pass failed: {e}"))?;
    h.validate().map_err(|e| format!("invalid result: {e}"))?;
    h.set_entrypoint(main);
    for n in h.nodes() {
        let o = h.get_optype(n);
        let s = format!("{o:?}");
        if let Some(x) = o.as_extension_op() {
            if x.def().extension_id().to_string() == "tket.bool" {
                return Err(format!("boolean operation {} left", x.def().name()));
            }
        }
        if s.contains("extension: IdentList(\"tket.bool\")") {
            return Err(format!("boolean type left in {s}"));
        }
    }
    Ok(h)
}
pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (b, ord) = source(text)?;
        let before = behave_with(ctx, &b.hugr, b.main, &opts(ord)).map_err(|e| format!("reference program: {e}"))?;
        let nofut = before.leaked_futures == 0;
        for k in 0..3 {
            (|| {
                let h = match k {
                    0 => alone(&b.hugr, b.main)?,
                    1 => compile(&b.hugr, b.main, QSystemPass::default())?,
                    _ => compile(&b.hugr, b.main, QSystemPass::default().with_force_order(false).with_constant_fold(true))?,
                };
                let after = behave_both(ctx, &h, &before, ord, k == 1)?;
                if nofut && after.leaked_futures > 0 && !(k == 0 && text.contains("drop ")) {
                    return Err(format!("{} measurement handles neither read nor freed", after.leaked_futures));
                }
                ctx.traces(1);
                Ok(())
            })()
            .map_err(|e: String| format!("{}: {e}", ["ReplaceBoolPass", "default", "const_fold, no force_order"][k]))?;
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let d = |q: usize, t: usize| if th { t } else { q };
    // two measured booleans t0,t1 and a constant t2
    let pre = "H q0; H q1; MeasureFree q0 -> t0; MeasureFree q1 -> t1; ttrue -> t2";
    // logic
    let logic = [
        "tnot t0 -> t0", "tand t0 t1 -> t2", "tor t1 t2 -> t0", "txor t0 t0 -> t1", "teq t2 t1 -> t2", "read t0 -> b0", "make_opaque b0 -> t1", "if b0 {tnot t2 -> t2} else {txor t1 t2 -> t2}", "noop t1 -> t2",
        "res_bool(r) b0 ->", "tfalse -> t1",
    ];
    for n in 1..=d(3, 4) {
        jobs.extend(programs("q0,q1", pre, &logic, n, ""));
    }
    // regions, calls, loops
    let reg = [
        "dfg {tand t0 t1 -> t1}", "dfg {noop t0 -> t2}", "read t0 -> b0", "if b0 {noop t1 -> t0} else {tfalse -> t0}", "cfg b0 {txor t1 t2 -> t1} else {H q2}", "call f t0 t1 -> t1 t2", "call g q2 -> q2 t0", "call k t1 ->",
        "until b0 {H q2; Measure q2 -> q2 b0; make_opaque b0 -> t0; true -> b0}", "until b1 {tnot t0 -> t0; txor t0 t1 -> t1; read t1 -> b0; noop b2 -> b1; true -> b2}", "call h t0 t1 -> t2", "if b0 {call k t0 ->} else {call g q2 -> q2 t1}",
    ];
    let lib = "fn f(t0,t1)->(t1,t0){} fn g(q0)->(q0,t0){MeasureFree q0 -> t0; QAlloc -> q0; if b9 {X q0}} fn k(t0)->(){} fn h(t0,t1)->(t0){dfg {tor t0 t1 -> t0}} ".replace("; if b9 {X q0}", "");
    for n in 1..=d(3, 4) {
        jobs.extend(programs("q0,q1,q2", &format!("{pre}; false -> b0; false -> b1; false -> b2"), &reg, n, "").into_iter().map(|s| format!("ord:{lib}{s}")));
    }
    // containers: tuples, options, sums
    let cont = [
        "pack t0 t1 -> Ptt0", "unpack Ptt0 -> t1 t0", "unpack Ptt0 -> t2 t2", "pack Ptt0 t2 -> PPttt0", "unpack PPttt0 -> Ptt0 t0", "tag(1) t0 -> Ot0", "tag(0) -> Ot0", "noop Ot0 -> Ot1", "pack Ot0 t1 -> POtt0", "unpack POtt0 -> Ot1 t2", "pack q2 t0 -> Pqt0", "unpack Pqt0 -> q2 t1",
        "tnot t1 -> t1", "call s Ptt0 -> Ptt0 t2", "drop Ptt0 ->", "noop PPttt0 -> PPttt1",
    ];
    for n in 1..=d(3, 4) {
        jobs.extend(programs("q0,q1,q2", pre, &cont, n, "").into_iter().map(|s| format!("fn s(Ptt0)->(Ptt1,t0){{unpack Ptt0 -> t0 t1; pack t1 t0 -> Ptt1}} {s}")));
    }
    // arrays of booleans
    for (k, extra) in [('V', vec!["b2a A2t0 -> V2t0"]), ('A', vec!["a2b V2t0 -> A2t0"])] {
        let mut al: Vec<String> = [
            "anew t0 t1 -> K2t0", "anew t2 t2 -> K2t0", "aclone K2t0 -> K2t0 K2t1", "adiscard K2t0 ->", "adiscard K2t1 ->", "aunpack K2t0 -> t1 t2", "aunpack K2t1 -> t0 t1", "aget A2t0 u0 -> Ot0 A2t0", "aswap K2t0 u0 u1 -> LK2tK2t0", "drop K2t0 ->",
            "apop_left K2t0 -> X2tK1t0", "aset K2t0 u1 t0 -> Y2tK2t0", "tnot t1 -> t1", "call a K2t0 -> K2t0", "u(5) -> u0", "u(18446744073709551615) -> u0",
        ]
        .iter()
        .map(|s| s.replace('K', &k.to_string()))
        .filter(|s| k == 'A' || !s.starts_with("aget"))
        .collect();
        al.extend(extra.iter().map(|s| s.to_string()));
        let ar: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
        let f = "fn a(K2t0)->(K2t1){aunpack K2t0 -> t0 t1; txor t0 t1 -> t2; anew t2 t0 -> K2t1} ".replace('K', &k.to_string());
        for n in 1..=d(3, 4) {
            jobs.extend(programs("q0,q1", &format!("{pre}; u(1) -> u0; u(0) -> u1"), &ar, n, "").into_iter().map(|s| format!("{f}{s}")));
        }
    }
    // nested arrays, arrays of tuples and options
    for (pack, ty) in [("anew t0 t1 -> V2t0; anew t1 t2 -> V2t1; anew V2t0 V2t1 -> V2V2t0", "V2V2t"), ("pack t0 t1 -> Ptt0; pack t1 t2 -> Ptt1; anew Ptt0 Ptt1 -> V2Ptt0", "V2Ptt"), ("tag(1) t0 -> Ot0; tag(0) -> Ot1; anew Ot0 Ot1 -> V2Ot0", "V2Ot"), ("pack t0 t1 -> Ptt0; pack t1 t2 -> Ptt1; anew Ptt0 Ptt1 -> A2Ptt0", "A2Ptt"), ("anew t0 t1 -> A2t0; anew t1 t2 -> A2t1; anew A2t0 A2t1 -> A2A2t0", "A2A2t")] {
        let el = &ty[2..];
        let al: Vec<String> = ["aclone K0 -> K0 K1", "adiscard K0 ->", "adiscard K1 ->", "drop K0 ->", "drop K1 ->", "aget K0 u0 -> OE0 K0", "aunpack K0 -> E7 E8", "aswap K0 u0 u1 -> LKK0", "call c K0 -> K0"]
            .iter()
            .map(|s| s.replace('K', ty).replace("OE0", &format!("O{el}0")).replace("E7", &format!("{el}7")).replace("E8", &format!("{el}8")))
            .filter(|s| ty.starts_with('A') || !s.starts_with("aget"))
            .filter(|s| !(el.starts_with('A') || el.starts_with('V')) || !(s.starts_with("aget") || s.starts_with("aclone") || s.starts_with("adiscard")))
            .collect();
        let ar: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
        for n in 1..=d(3, 4) {
            jobs.extend(programs("q0,q1", &format!("{pre}; u(1) -> u0; u(0) -> u1; {pack}"), &ar, n, "").into_iter().map(|s| format!("fn c({ty}0)->({ty}0){{noop {ty}0 -> {ty}0}} {s}")));
        }
    }
    let bo = ["u(18446744073709551615) -> u0", "u(2) -> u0", "borrow A2t0 u0 -> A2t0 t2", "return A2t0 u0 t1 -> A2t0", "u(1) -> u0", "return A2t0 u0 t0 -> A2t0", "tnot t2 -> t1", "is_borrowed A2t0 u0 -> A2t0 b0", "aget A2t0 u0 -> Ot0 A2t0", "aswap A2t0 u0 u1 -> LA2tA2t0", "txor t2 t0 -> t0"];
    for n in 1..=d(3, 5) {
        jobs.extend(programs("q0,q1", &format!("{pre}; u(0) -> u0; u(1) -> u1; anew t0 t1 -> A2t0"), &bo, n, ""));
    }
    // static arrays
    let st = [
        "sget Ht0 u0 -> Ot0", "slen Ht0 -> u0", "sget HPtt0 u1 -> OPtt0", "sget HV2t0 u0 -> OV2t0", "sget HHt0 u0 -> OHt0", "u(0) -> u0", "u(7) -> u1", "unwrap", "res",
    ];
    let st: Vec<&str> = st.iter().filter(|s| !s.starts_with("un") && !s.starts_with("res")).copied().collect();
    for n in 1..=d(3, 4) {
        jobs.extend(programs("q0,q1", &format!("{pre}; u(1) -> u0; u(0) -> u1; sarr(t:011) -> Ht0; sarr(Ptt:1001) -> HPtt0; sarr(Ht:1011) -> HHt0"), &st, n, ""));
        jobs.extend(programs("q0,q1,u0", &format!("{pre}; sarr(t:101) -> Ht0; sarr(Ptt:100111) -> HPtt0; sarr(b:01) -> Hb0"), &["sget Ht0 u0 -> Ot0", "sget HPtt0 u0 -> OPtt0", "sget Hb0 u0 -> Ob0", "slen Hb0 -> u0", "tnot t0 -> t0", "call s Ht0 u0 -> Ot0"], n, "").into_iter().map(|s| format!("fn s(Ht0,u0)->(Ot0){{sget Ht0 u0 -> Ot0}} {s}")));
    }
    // native measurements of the source
    let nat = ["LazyMeasure q2 -> m0", "Read m0 -> b0", "Free m0 ->", "Dup m0 -> m0 m1", "Read m1 -> b1", "qsMeasure q1 -> t0", "MeasureReset q0 -> q0 t1", "MeasureFree q0 -> t2; QAlloc -> q0", "tand t0 t1 -> t2", "read t2 -> b2", "LazyMeasureReset q0 -> q0 m0"];
    for n in 1..=d(4, 5) {
        jobs.extend(programs("q0,q1,q2", "H q0; H q1; CX q1 q2; tfalse -> t0; tfalse -> t1", &nat, n, ""));
    }
    for j in jobs.iter_mut() {
        let k = j.find("fn main(").unwrap();
        let c = k + j[k..].find("){").unwrap();
        j.insert_str(c + 1, "->(*)");
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.assume("qubit allocation never fails; the main function takes no tket.bool inputs; no non-local value edges");
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
