//! C21: nothing leaks and nothing is freed twice after compilation. The interpreter stops at a use after
//! free and counts what is still live at every return.
use crate::ctx::*;
use crate::gen::*;
use crate::prog::slot_linear;
use crate::qs::*;

pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let rejected = text.starts_with("reject:");
        let (b, ord) = source(text.trim_start_matches("reject:"))?;
        let before = behave_with(ctx, &b.hugr, b.main, &opts(ord)).map_err(|e| format!("reference program: {e}"))?;
        for (name, p) in passes() {
            (|| {
                let h = match compile(&b.hugr, b.main, p) {
                    Err(e) if rejected && e.starts_with("pass failed") => return Ok(()),
                    h => h?,
                };
                if rejected {
                    return Err("dropping a qubit was not rejected".into());
                }
                native_only(&h, name != "no lazify")?;
                let after = behave_both(ctx, &h, &before, ord, name != "no force_order")?;
                if after.leaked_futures > before.leaked_futures {
                    return Err(format!("{} measurement handles leaked (source: {})", after.leaked_futures, before.leaked_futures));
                }
                if after.leaked_qubits > before.leaked_qubits {
                    return Err(format!("{} qubits leaked (source: {})", after.leaked_qubits, before.leaked_qubits));
                }
                ctx.traces(1);
                Ok(())
            })()
            .map_err(|e: String| format!("{name}: {e}"))?;
        }
        Ok(())
    });
}

/// Statements that create a value of type `ty` (slot letters) in slot `ty`+`n`; `k` numbers the temporaries.
/// `alt` picks other variants of options.
fn make(ty: &str, n: &str, k: &mut usize, alt: bool) -> String {
    *k += 1;
    let me = *k;
    let c = ty.chars().next().unwrap();
    let parts = |s: &str| -> Vec<String> {
        let cs: Vec<char> = s.chars().collect();
        let mut v = vec![];
        let mut i = 0;
        while i < cs.len() {
            let st = i;
            let mut need = 1;
            while need > 0 {
                need -= 1;
                match cs[i] {
                    'P' => need += 2,
                    'O' => need += 1,
                    'A' | 'V' | 'W' => {
                        need += 1;
                        i += 1;
                    }
                    _ => {}
                }
                i += 1;
            }
            v.push(cs[st..i].iter().collect());
        }
        v
    };
    match c {
        'q' => format!("QAlloc -> q{n}; "),
        'b' => format!("QAlloc -> q77{me}; H q77{me}; Measure q77{me} -> q77{me} b{n}; QFree q77{me} ->; "),
        't' => format!("QAlloc -> q77{me}; H q77{me}; MeasureFree q77{me} -> t{n}; "),
        'm' => format!("QAlloc -> q77{me}; H q77{me}; LazyMeasure q77{me} -> m{n}; "),
        'u' => format!("u(3) -> u{n}; "),
        'i' => format!("int(3) -> i{n}; "),
        'f' => format!("f64(1.5) -> f{n}; "),
        'O' if alt => format!("tag(0) -> {ty}{n}; "),
        'O' => format!("{}tag(1) {e}88{me} -> {ty}{n}; ", make(&ty[1..], &format!("88{me}"), k, alt), e = &ty[1..]),
        'P' => {
            let p = parts(&ty[1..]);
            let (x, y) = (make(&p[0], &format!("88{me}"), k, alt), make(&p[1], &format!("99{me}"), k, false));
            format!("{x}{y}pack {}88{me} {}99{me} -> {ty}{n}; ", p[0], p[1])
        }
        'A' | 'V' | 'W' => {
            let e = &ty[2..];
            let len = ty[1..2].parse::<usize>().unwrap();
            let mut s = String::new();
            let mut names = vec![];
            for j in 0..len {
                let nm = format!("{}{me}", ["88", "99"][j % 2]);
                s += &make(e, &nm, k, alt && j == 0);
                names.push(format!("{e}{nm}"));
            }
            format!("{s}anew {} -> {ty}{n}; ", names.join(" "))
        }
        c => panic!("make {c}"),
    }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let leaf = ["b", "t", "m", "u", "f"];
    let mut t1: Vec<String> = vec![];
    let next = |prev: &[String], all: bool| -> Vec<String> {
        let mut v = vec![];
        for e in prev {
            for c in ["O", "A2", "V2", "W2", "A1", "A0"] {
                if c == "W2" && slot_linear(&format!("{e}0")) || (c == "A1" || c == "A0") && !all {
                    continue;
                }
                v.push(format!("{c}{e}"));
            }
            for l in ["t", "m"] {
                v.push(format!("P{e}{l}"));
                if all {
                    v.push(format!("P{l}{e}"));
                }
            }
        }
        v
    };
    t1.extend(leaf.map(String::from));
    let t2 = next(&t1, true);
    let t3 = next(&t2, th);
    let measures = |t: &str| t.matches(['t', 'm', 'b']).count();
    // number of measurement handles in a value, arrays multiply
    fn handles(t: &str) -> usize {
        let mut mult = vec![1usize];
        let mut n = 0;
        let cs: Vec<char> = t.chars().collect();
        fn go(cs: &[char], i: &mut usize) -> usize {
            let c = cs[*i];
            *i += 1;
            match c {
                't' | 'm' | 'b' => 1,
                'P' => go(cs, i) + go(cs, i),
                'O' => go(cs, i),
                'A' | 'V' | 'W' => {
                    let k = cs[*i].to_digit(10).unwrap() as usize;
                    *i += 1;
                    k * go(cs, i)
                }
                _ => 0,
            }
        }
        let mut i = 0;
        n += go(&cs, &mut i);
        mult.clear();
        n
    }
    let _ = measures;
    let mut jobs: Vec<String> = vec![];
    for t in t1.iter().chain(&t2).chain(&t3) {
        let h = handles(t);
        if h > if th { 8 } else { 4 } {
            continue;
        }
        let lin = slot_linear(&format!("{t}0"));
        for alt in [false, true] {
            if alt && !t.contains('O') {
                continue;
            }
            let mk = |n: &str, start: usize| make(t, n, &mut (start * 100), alt);
            let (m0, m1) = (mk("0", 1), mk("1", 2));
            let f = |n: &str, b: String| format!("{n} fn main(q0)->(*){{{b}}}");
            let lib = format!("fn dr({t}0)->(){{drop {t}0 ->}} fn id({t}0)->({t}0){{noop {t}0 -> {t}0}}");
            jobs.push(f("", format!("{m0}drop {t}0 ->")));
            jobs.push(f("", format!("{m0}")));
            jobs.push(f(&lib, format!("{m0}call dr {t}0 ->; H q0")));
            jobs.push(f(&lib, format!("{m0}call id {t}0 -> {t}0; drop {t}0 ->")));
            jobs.push(f("", format!("true -> b9; {m0}if b9 {{drop {t}0 ->; X q0}} else {{drop {t}0 ->}}")));
            jobs.push(f("", format!("H q0; Measure q0 -> q0 b9; {m0}if b9 {{drop {t}0 ->; {m1}noop {t}1 -> {t}0{}}}", if lin { "".into() } else { "".to_string() })));
            jobs.push(f("", format!("{m0}dfg {{drop {t}0 ->; X q0}}")));
            jobs.push(f("", format!("until b9 {{{m0}drop {t}0 ->; H q0; Measure q0 -> q0 b9; true -> b9}}").replacen("until b9 {", "false -> b9; until b9 {", 1)));
            if h * 2 <= 6 || th && h * 2 <= 8 {
                jobs.push(f("", format!("{m0}{m1}drop {t}0 ->; X q0")));
                jobs.push(f("", format!("{m0}{m1}pack {t}0 {t}1 -> P{t}{t}0; drop P{t}{t}0 ->")));
                jobs.push(f("", format!("{m0}{m1}pack {t}0 q0 -> P{t}q0; unpack P{t}q0 -> {t}0 q0; drop {t}0 ->")));
            }
            if !lin {
                // copies and discards
                jobs.push(f("", format!("{m0}noop {t}0 -> {t}1; noop {t}0 -> {t}2; drop {t}1 ->")));
                jobs.push(f(&lib, format!("{m0}call id {t}0 -> {t}1; call dr {t}0 ->; call dr {t}1 ->")));
                // (hugr-passes 0.24.3 panics on three copies of a value array, so no third use)
                jobs.push(f("", format!("{m0}pack {t}0 {t}0 -> P{t}{t}0; unpack P{t}{t}0 -> {t}1 {t}2")).replace("->(*)", &if t.contains('W') { format!("->(q0,{t}1,{t}2)") } else { "->(*)".into() }));
                jobs.push(f("", format!("H q0; Measure q0 -> q0 b9; {m0}if b9 {{pack {t}0 {t}0 -> P{t}{t}0; unpack P{t}{t}0 -> {t}1 {t}2; noop {t}2 -> {t}0}} else {{noop {t}0 -> {t}0}}")));
                jobs.push(f("", format!("{m0}cfg b9 {{noop {t}0 -> {t}1; drop {t}0 ->}} else {{noop {t}0 -> {t}1}}").replacen("", "true -> b9; ", 1)));
                if h * 2 <= 4 {
                    jobs.push(f("", format!("{m0}anew {t}0 {t}0 -> A2{t}0; drop A2{t}0 ->")));
                    jobs.push(f("", format!("{m0}anew {t}0 {t}0 -> W2{t}0; noop W2{t}0 -> W2{t}1; drop W2{t}0 ->")));
                    jobs.push(f("", format!("{m0}anew {t}0 {t}0 -> W2{t}0; aunpack W2{t}0 -> {t}1 {t}2; drop W2{t}0 ->")));
                }
            }
        }
    }
    // value arrays of qubits become arrays; linear contents stay
    let wq = ["u(0) -> u0", "aunpack W2q0 -> q0 q1", "anew q0 q1 -> W2q0", "H q0", "aswap W2q0 u0 u1 -> YW", "apop_left W2q0 -> X2qW1q0", "CX q0 q1", "call f W2q0 -> W2q0", "dfg {noop W2q0 -> W2q0}"];
    let wq: Vec<&str> = wq.iter().filter(|s| !s.contains("YW")).copied().collect();
    for n in 1..=(if th { 5 } else { 4 }) {
        jobs.extend(programs("q0,q1", "u(1) -> u1; anew q0 q1 -> W2q0", &wq, n, "").into_iter().map(|s| format!("fn f(W2q0)->(W2q0){{aunpack W2q0 -> q0 q1; CX q0 q1; anew q1 q0 -> W2q0}} {}", s.replace("){", ")->(*){"))));
    }
    // histories of allocation, release and measurement on a few names
    let qs = ["QAlloc -> q2", "QFree q0 ->", "QFree q2 ->", "MeasureFree q1 -> t1", "QAlloc -> q1", "Reset q0", "CX q0 q2", "drop t1 ->", "H q0", "LazyMeasure q2 -> m0", "drop m0 ->", "if b9 {QFree q0 ->} else {MeasureFree q0 -> t0}", "call al -> q0", "call fr q1 ->"];
    for n in 1..=(if th { 5 } else { 4 }) {
        jobs.extend(programs("q0,q1", "false -> b9; H q1; Measure q1 -> q1 b9", &qs, n, "").into_iter().map(|s| format!("fn al()->(q0){{QAlloc -> q0; H q0}} fn fr(q0)->(){{QFree q0 ->}} {}", s.replace("(q0,q1){", "(q0,q1)->(*){"))));
    }
    // a dropped qubit cannot be discarded implicitly: the pass has to refuse
    for t in ["q", "Oq", "Pqt", "A2q", "V2q", "OA1q", "PtPqm"] {
        for alt in [false, true] {
            if alt && !t.contains('O') {
                continue;
            }
            jobs.push(format!("reject:fn main(q0)->(*){{{}drop {t}0 ->}}", make(t, "0", &mut 100, alt).replace("-> q0;", "-> q5; QFree q0 ->; noop q5 -> q0;")));
        }
    }
    // value arrays come without drop operations (older front-ends): an unused copy disappears by itself
    jobs.retain(|j| !(j.contains("W2") && j.contains("drop ")));
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.bound("types", (t1.len() + t2.len() + t3.len()) as u64);
    ctx.assume("qubit allocation never fails; arrays are whole when dropped");
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
