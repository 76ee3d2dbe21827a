//! C13: modifier resolution against the interpreter's own meaning of controlled/adjoint functions.
use crate::ctx::*;
use crate::interp::*;
use crate::prog::*;
use tket::hugr::{HugrView};
use tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints;

fn sig_args(h: &tket::hugr::Hugr, f: tket::hugr::Node) -> Option<Vec<Arg>> {
    let sig = h.get_optype(f).as_func_defn()?.signature().body().clone();
    args_for(&sig.input.iter().cloned().collect::<Vec<_>>())
}

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let b = build(text)?;
        let main = b.main;
        let args = sig_args(&b.hugr, main).ok_or("args")?;
        let before = explore(&b.hugr, main, &args, &Opts::default()).map_err(|e| {
            if e.contains("PERM") { "SKIP controlled permutation".to_string() } else { format!("reference: {e}") }
        })?;
        let mut h = b.hugr.clone();
        resolve_modifier_with_entrypoints(&mut h, [main]).map_err(|e| format!("resolver failed: {e}"))?;
        h.validate().map_err(|e| format!("invalid result: {e}"))?;
        for n in h.descendants(h.module_root()) {
            let t = h.get_optype(n).to_string();
            if t.contains("Modifier") {
                return Err(format!("modifier left: {t}"));
            }
        }
        let after = explore(&h, main, &args, &Opts::default()).map_err(|e| format!("result: {e}"))?;
        same(&before, &after)?;
        ctx.states(before.leaves + after.leaves);
        ctx.trans(before.steps + after.steps);
        ctx.traces(1);
        Ok(())
    });
}

/// text of a main applying `mods` (innermost first) to f with target slots `ts` and classical slots `cl`
fn main_for(mods: &[&str], ts: &[&str], cl: &[&str], pre: &str) -> String {
    let mut ctl = vec![];
    let mut ins: Vec<String> = vec![];
    for (k, m) in mods.iter().enumerate() {
        if let Some(n) = m.strip_prefix('c') {
            ctl.insert(0, format!("V{n}q{}", 10 + k));
        }
    }
    ins.extend(ctl.iter().cloned());
    ins.extend(ts.iter().map(|s| s.to_string()));
    let outs = ins.join(",");
    let mut args = ins.clone();
    args.extend(cl.iter().map(|s| s.to_string()));
    let params: Vec<String> = args.clone();
    format!(
        "fn main({})->({}){{{pre}mod {} : f {} -> {}}}",
        params.join(","), outs, mods.join(" "), args.join(" "), ins.join(" ")
    )
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let stacks: Vec<Vec<&str>> = {
        let mut v: Vec<Vec<&str>> = vec![
            vec!["c1"], vec!["d"], vec!["c2"], vec!["c3"], vec!["d", "c1"], vec!["c1", "d"], vec!["d", "d"],
            vec!["c1", "c1"], vec!["c1", "c2"], vec!["c2", "c1"], vec!["d", "c2"], vec!["c1", "d", "c1"], vec!["d", "c1", "d"],
            vec!["c4"], vec!["c3", "d"],
        ];
        if th {
            v.extend([vec!["c5"], vec!["c1", "c1", "c1"], vec!["c2", "c2"], vec!["d", "c3"], vec!["c1", "c2", "d"], vec!["c2", "d", "c1", "d"]]);
        }
        if !th {
            v.extend([vec!["c1", "c1", "c1"], vec!["d", "c3"], vec!["c1", "c2", "d"]]);
        }
        v
    };
    let small: Vec<Vec<&str>> = vec![vec!["c1"], vec!["d"], vec!["d", "c1"], vec!["c2"]];
    let mut jobs: Vec<String> = vec![];
    let one_q = ["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "Rx(0.3)", "Ry(0.7)", "Rz(0.45)"];
    let two_q = ["CX", "CY", "CZ", "CRz(0.35)"];
    // A: every gate, every stack, on a 3-qubit target in several positions
    let mut singles: Vec<String> = vec![];
    for g in one_q {
        singles.push(format!("{g} q0"));
        singles.push(format!("{g} q1"));
    }
    for g in two_q {
        singles.push(format!("{g} q0 q1"));
        singles.push(format!("{g} q1 q0"));
    }
    for p in ["q0 q1 q2", "q2 q0 q1", "q1 q2 q0"] {
        singles.push(format!("Toffoli {p}"));
    }
    singles.push("rot(0.3) -> a0; phase a0".into());
    for g in ["Rx", "Ry", "Rz"] {
        singles.push(format!("{g} q1 a9 -> q1"));
    }
    singles.push("CRz q1 q0 a9 -> q1 q0".into());
    singles.push("phase a9".into());
    singles.push("rot(0.2) -> a1; radd a9 a1 -> a2; Rx q0 a2 -> q0; Rz q0 a9 -> q0".into());
    singles.push("to_halfturns a9 -> f0; f64(0.5) -> f1; fmul f0 f1 -> f2; from_halfturns_unchecked f2 -> a2; Rz q0 a2 -> q0; H q0".into());
    for st in &stacks {
        for s in &singles {
            let t3 = s.contains("q2");
            let nc: usize = st.iter().filter_map(|m| m.strip_prefix('c')).map(|n| n.parse::<usize>().unwrap()).sum();
            let ts: Vec<&str> = if t3 { vec!["q0", "q1", "q2"] } else { vec!["q0", "q1"] };
            if nc + ts.len() > if th { 8 } else { 7 } {
                continue;
            }
            let fins = format!("{},a9", ts.join(","));
            jobs.push(format!("fn f({fins})->({})@7{{{s}}} {}", ts.join(","), main_for(st, &ts, &["a9"], "")));
        }
    }
    // B: gate sequences on two qubits
    let mut alpha: Vec<String> = vec![];
    for g in ["H", "S", "T", "V", "X", "Z", "Ry(0.7)", "Rz(0.45)"] {
        alpha.push(format!("{g} q0"));
        if !matches!(g, "S" | "X" | "Z") || th {
            alpha.push(format!("{g} q1"));
        }
    }
    for g in ["CX", "CZ", "CRz(0.35)", "CY"] {
        alpha.push(format!("{g} q0 q1"));
        alpha.push(format!("{g} q1 q0"));
    }
    alpha.push("rot(0.3) -> a0; phase a0".into());
    alpha.push("Rx q1 a9 -> q1".into());
    let depth = if th { 3 } else { 2 };
    for d in 2..=depth {
        for seq in seqs(alpha.len(), d) {
            let s: Vec<&str> = seq.iter().map(|i| alpha[*i].as_str()).collect();
            for st in &small {
                jobs.push(format!("fn f(q0,q1,a9)->(q0,q1)@7{{{}}} {}", s.join(";"), main_for(st, &["q0", "q1"], &["a9"], "")));
            }
        }
    }
    {
        let a3 = ["H q0", "T q1", "V q0", "CX q0 q1", "CX q1 q0", "CZ q0 q1", "rot(0.3) -> a0; phase a0", "Rx q1 a9 -> q1", "Y q0", "CRz(0.35) q1 q0"];
        for seq in seqs(a3.len(), if th { 4 } else { 3 }) {
            let s: Vec<&str> = seq.iter().map(|i| a3[*i]).collect();
            for st in &small {
                jobs.push(format!("fn f(q0,q1,a9)->(q0,q1)@7{{{}}} {}", s.join(";"), main_for(st, &["q0", "q1"], &["a9"], "")));
            }
        }
    }
    // C: structured bodies: pairs of blocks
    let blocks = [
        ("", "call g q0 -> q0"),
        ("", "call g q1 -> q1"),
        ("", "call g2 q1 q0 -> q1 q0"),
        ("", "dfg {H q0; CX q0 q1}"),
        ("", "dfg {T q1; dfg {S q1; CX q1 q0}}"),
        ("", "if b9 {H q0; S q0} else {T q0}"),
        ("", "if b9 {CX q0 q1}"),
        ("", "if b9 {} else {Rx q1 a9 -> q1}"),
        ("", "true -> b1; if b1 {V q0; CX q1 q0}"),
        ("", "rot(0.3) -> a0; phase a0"),
        ("", "H q0"),
        ("", "T q1; CX q1 q0"),
        ("", "Rz q0 a9 -> q0"),
        ("", "mod d : g q0 -> q0"),
        ("", "mod d : g2 q0 q1 -> q0 q1"),
        ("", "anew q1 -> V1q5; mod c1 : g V1q5 q0 -> V1q5 q0; aunpack V1q5 -> q1"),
        ("", "anew q0 -> V1q5; mod d c1 : g V1q5 q1 -> V1q5 q1; aunpack V1q5 -> q0"),
        ("", "anew q0 q1 -> V2q5; aunpack V2q5 -> q0 q1"),
        ("", "dfg {Rx q1 a9 -> q1; CX q0 q1}"),
        ("", "blk {T q0; CX q0 q1; Rz q1 a9 -> q1}"),
        ("", "blk {if b9 {S q1; dfg {V q0; call g q1}}}"),
        ("", "call gm a9 q0 b9 q1 -> q0 q1"),
        ("", "call gm a9 q1 b9 q0 -> q1 q0"),
        ("", "mod : gm2 q1 a9 q0 -> q1 q0"),
        ("", "anew q0 q1 -> A2q5; aunpack A2q5 -> q1 q0"),
        ("", "anew q1 -> W1q5; call g q0; aunpack W1q5 -> q1"),
        ("", "anew q0 q1 -> V2q5; call ga V2q5 -> V2q5; aunpack V2q5 -> q0 q1"),
    ];
    let lib = "fn g(q0)->(q0)@7{S q0; H q0; rot(0.25) -> a0; phase a0} fn g2(q0,q1)->(q0,q1)@7{T q0; CX q0 q1; call g q1} fn ga(V2q0)->(V2q0)@7{aunpack V2q0 -> q0 q1; CX q0 q1; T q1; anew q0 q1 -> V2q0} fn gm(a9,q0,b9,q1)->(q0,q1)@7{Rz q0 a9 -> q0; CX q0 q1; if b9 {H q0; S q1}} fn gm2(q0,a9,q1)->(q0,q1)@7{S q0; Rx q1 a9 -> q1; CX q1 q0} ";
    let small2: Vec<Vec<&str>> = small.iter().cloned().chain([vec!["c1", "c1"], vec!["c1", "d"]]).collect();
    for (_, x) in &blocks {
        for (_, y) in &blocks {
            for st in &small2 {
                jobs.push(format!(
                    "{lib}fn f(q0,q1,a9,b9)->(q0,q1)@7{{{x};{y}}} {}",
                    main_for(st, &["q0", "q1"], &["a9", "b9"], "")
                ));
            }
        }
    }
    if th {
        for seq in seqs(blocks.len(), 3) {
            let s: Vec<&str> = seq.iter().map(|k| blocks[*k].1).collect();
            for st in &small {
                jobs.push(format!("{lib}fn f(q0,q1,a9,b9)->(q0,q1)@7{{{}}} {}", s.join(";"), main_for(st, &["q0", "q1"], &["a9", "b9"], "")));
            }
        }
    }
    // D: function arrays as targets, loops under control, other users of the same function
    for st in &stacks {
        let nc: usize = st.iter().filter_map(|m| m.strip_prefix('c')).map(|n| n.parse::<usize>().unwrap()).sum();
        if nc > 3 {
            continue;
        }
        jobs.push(format!("fn f(V2q0)->(V2q0)@7{{aunpack V2q0 -> q0 q1; CX q0 q1; T q1; H q0; anew q0 q1 -> V2q0}} {}", main_for(st, &["V2q0"], &[], "")));
        jobs.push(format!("fn g(q0)->(q0)@7{{S q0; H q0}} fn f(q0,q1)->(q0,q1)@7{{call g q0; CX q0 q1; call g q1; call g q0}} {}", main_for(st, &["q0", "q1"], &[], "")));
        jobs.push(format!("fn g(q0)->(q0)@7{{S q0; H q0}} fn f(q0,q1)->(q0,q1)@7{{call g q0; CX q0 q1}} {}", main_for(st, &["q0", "q1"], &[], "call f q1 q0 -> q1 q0; call g q0;")));
        jobs.push(format!("fn f(q0,q1)->(q1,q0)@7{{H q0; CX q0 q1; S q1}} {}", main_for(st, &["q0", "q1"], &[], "")));
        jobs.push(format!("fn f(q0,q1)->(q0,q1)@7{{H q0; dfg {{CX q0 q1; noop q1 -> q2; noop q0 -> q1; noop q2 -> q0}}; T q1}} {}", main_for(st, &["q0", "q1"], &[], "")));
        if !st.contains(&"d") {
            jobs.push(format!("fn f(q0,q1)->(q0,q1)@7{{false -> b0; until b0 {{T q0; CX q0 q1; H q0; Not b0 -> b0}}}} {}", main_for(st, &["q0", "q1"], &[], "")));
            for bd in [
                "false -> b0; untilc b0 {{rot(0.1) -> a1; radd a9 a1 -> a9; Rx q0 a9 -> q0; CX q0 q1; T q1; noop b9 -> b0; Not b9 -> b9}}; Rz q1 a9 -> q1",
                "false -> b0; Not b9 -> b8; untilc b0 {{H q0; S q1; Or b0 b8 -> b7; Not b0 -> b6; noop b7 -> b0; true -> b8}}; T q0",
            ] {
                jobs.push(format!("fn f(q0,q1,a9,b9)->(q0,q1)@7{{{}}} {}", bd.replace("{{", "{").replace("}}", "}"), main_for(st, &["q0", "q1"], &["a9", "b9"], "")));
            }
            jobs.push(format!("fn f(q0,q1)->(q0,q1)@7{{false -> b0; until b0 {{rot(0.25) -> a0; phase a0; H q0; noop b0 -> b1; Not b0 -> b0}}; S q1}} {}", main_for(st, &["q0", "q1"], &[], "")));
        }
    }
    // E: two modified calls of the same function, with equal and different modifiers
    for s1 in &small {
        for s2 in &small {
            let mk = |st: &Vec<&str>, tag: usize| -> (Vec<String>, String) {
                let mut c = vec![];
                for (k, m) in st.iter().enumerate() {
                    if let Some(n) = m.strip_prefix('c') {
                        c.insert(0, format!("V{n}q{}", tag * 10 + k));
                    }
                }
                let t = [c.clone(), vec!["q0".to_string(), "q1".into()]].concat();
                (c, format!("mod {} : f {} -> {}", st.join(" "), t.join(" "), t.join(" ")))
            };
            let (c1, m1) = mk(s1, 2);
            let (c2, m2) = mk(s2, 3);
            let all = [c1, c2, vec!["q0".to_string(), "q1".into()]].concat().join(",");
            jobs.push(format!("fn g(q0)->(q0)@7{{S q0; H q0}} fn f(q0,q1)->(q0,q1)@7{{T q1; CX q0 q1; call g q0}} fn main({all})->({all}){{{m1}; call f q0 q1; {m2}}}"));
        }
    }
    ctx.bound("programs", jobs.len() as u64);
    ctx.bound("controls_max", if th { 5 } else { 4 });
    ctx.assume("the reference meaning of a modified function is the interpreter's: list the unitaries the body performs, add controls / invert and reverse; V is the square root of X including its phase");
    ctx.assume("a permutation of wires inside a controlled function is not controlled (documented behaviour); such programs are counted out of scope");
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
