//! The programs that are compiled and run.
use crate::gen::programs as progs;

/// Programs without inputs; every slot that is live at the end is returned.
fn fam(pre: &str, alpha: &[&str], ns: std::ops::RangeInclusive<usize>, post: &str, lib: &str, keep: impl Fn(&str) -> bool) -> Vec<String> {
    ns.flat_map(|n| progs("", pre, alpha, n, post)).map(|p| format!("{lib}{}", p.replacen("fn main(){", "fn main()->(*){", 1))).filter(|p| keep(p)).collect()
}
fn any(_: &str) -> bool {
    true
}
fn has(n: usize, what: &'static [&'static str]) -> impl Fn(&str) -> bool {
    move |p: &str| what.iter().map(|w| p.matches(w).count()).sum::<usize>() >= n
}
pub fn programs(thorough: bool) -> Vec<(&'static str, Vec<String>)> {
    let t = thorough as usize;
    let mut all: Vec<(&'static str, Vec<String>)> = vec![];
    // gates of the portable set
    let g1 = ["H q0", "X q0", "Y q1", "Z q0", "S q0", "Sdg q1", "T q0", "Tdg q0", "V q0", "Vdg q1", "Reset q0", "Rx q0 a0", "Ry q0 a0", "Rz q1 a0", "CX q0 q1", "CY q1 q0", "CZ q0 q1", "CRz q0 q1 a0", "CRz q1 q0 a0", "Measure q0 -> q0 b0", "Measure q1 -> q1 b1", "Toffoli q0 q1 q2", "Toffoli q2 q1 q0"];
    all.push(("gates", fam("QAlloc -> q0; QAlloc -> q1; QAlloc -> q2; rot(0.3) -> a0", &g1, 1..=2 + t, "H q0; Measure q0 -> q0 b0; res_bool(end) b0", "", any)));
    let life = ["QAlloc -> q0", "QAlloc -> q1", "QFree q0 ->", "QFree q1 ->", "H q0", "CX q0 q1", "MeasureFree q0 -> t0", "MeasureFree q1 -> t1", "Measure q1 -> q1 b1", "read t0 -> b0", "res_bool(a) b0", "res_bool(b) b1", "Reset q1", "qsTryQAlloc -> Oq0", "unwrap Oq0 -> q2", "QFree q2 ->"];
    let v = fam("", &life, 3..=4 + t, "", "", |p| has(1, &["QFree", "Measure", "res_"])(p));
    all.push(("lifetimes with failing allocation", v.iter().filter(|p| p.matches("Alloc").count() >= 2).map(|p| format!("fail {p}")).collect()));
    all.push(("lifetimes", v));
    // native gates and futures
    let nat = ["qsRz q0 f0", "qsRz q0 f1", "PhasedX q0 f0 f1", "PhasedX q1 f1 f0", "ZZPhase q0 q1 f0", "ZZPhase q1 q0 f1", "qsReset q0", "MeasureReset q0 -> q0 t0; read t0 -> b0", "LazyMeasureReset q0 -> q0 m0", "LazyMeasureReset q1 -> q1 m1", "Dup m0 -> m0 m2", "Read m0 -> b0", "Read m1 -> b1", "Free m2 ->", "Read m2 -> b0", "fadd f0 f1 -> f0", "fneg f1 -> f1"];
    all.push(("native", fam("qsTryQAlloc -> Oq0; unwrap Oq0 -> q0; qsTryQAlloc -> Oq1; unwrap Oq1 -> q1; f64(0.7) -> f0; f64(-1.9) -> f1", &nat, 1..=2 + t, "", "", any)));
    let fut = ["LazyMeasure q0 -> m0", "LazyMeasure q1 -> m1", "Dup m0 -> m0 m2", "Read m0 -> b0", "Read m1 -> b1", "Read m2 -> b1", "Free m0 ->", "Free m1 ->", "LazyMeasureLeaked q0 -> n0", "LazyMeasureLeaked q1 -> n1", "Dup n0 -> n0 n1", "Read n0 -> i0", "Read n1 -> i1", "Free n1 ->", "qsMeasure q0 -> t0; read t0 -> b0", "res_bool(x) b0", "res_int(y) i0", "res_uint(z) i1", "H q1", "Not b0 -> b0", "qsQFree q0 ->"];
    all.push(("futures", fam("QAlloc -> q0; H q0; QAlloc -> q1", &fut, 2..=4, "", "", |p| thorough || p.matches(';').count() < 7 && has(1, &["Read", "Free"])(p))));
    // results
    let mut tags = vec![];
    for tag in ["a", "a.b", "z12345678901", "z12345678902", "0123456789abcdefg", "USER:x", "üñï", "x y", "aß"] {
        tags.push(tag.to_string());
    }
    tags.push("l".repeat(200));
    let ops: [(&str, &str, &[&str]); 8] = [
        ("res_bool(@) b0", "", &["true -> b0", "false -> b0"]),
        ("res_int(@) i0", "", &["int(0) -> i0", "int(1) -> i0", "int(-1) -> i0", "int(-9223372036854775808) -> i0", "int(9223372036854775807) -> i0"]),
        ("res_uint(@) i0", "", &["int(0) -> i0", "int(-1) -> i0", "int(-9223372036854775808) -> i0", "int(255) -> i0"]),
        ("res_f64(@) f0", "", &["f64(0) -> f0", "f64(-0.0) -> f0", "f64(1.5) -> f0", "f64(-1e300) -> f0", "f64(1e-300) -> f0"]),
        ("res_arr(@) V3b0 ->", "true -> b0; false -> b1", &["anew b0 b1 b1 -> V3b0", "anew b1 b0 b1 -> V3b0", "anew b1 b1 b0 -> V3b0"]),
        ("res_arr(@) V3i0 ->", "int(-3) -> i0; int(7) -> i1", &["anew i0 i1 i1 -> V3i0", "anew i1 i0 i1 -> V3i0", "anew i1 i1 i0 -> V3i0"]),
        ("res_uarr(@) V3i0 ->", "int(-3) -> i0; int(7) -> i1", &["anew i0 i1 i1 -> V3i0", "anew i1 i0 i1 -> V3i0", "anew i1 i1 i0 -> V3i0"]),
        ("res_arr(@) V2f0 ->", "f64(0.5) -> f0; f64(-2) -> f1", &["anew f0 f1 -> V2f0", "anew f1 f0 -> V2f0"]),
    ];
    let mut v = vec![];
    for (op, pre, vals) in &ops {
        for tag in &tags {
            for x in *vals {
                v.push(format!("fn main()->(){{{pre};{x};{}}}", op.replace('@', tag)));
            }
        }
        for x in *vals {
            for y in &tags {
                // two results, whose tags may have a beginning in common
                v.push(format!("fn main()->(){{{pre};{x};{};{};{}}}", op.replace('@', "z12345678901"), vals[0], op.replace('@', y)));
            }
        }
    }
    // lengths of arrays
    for n in [0usize, 1, 2, 5, 8, 9, 16, 17] {
        let slots = |c: &str, f: &dyn Fn(usize) -> String| (0..n).map(|k| format!("{} -> {c}{k};", f(k))).collect::<String>();
        let list = |c: &str| (0..n).map(|k| format!("{c}{k}")).collect::<Vec<_>>().join(" ");
        for (c, f, ops) in [("b", &(|k: usize| if k % 3 == 1 { "true" } else { "false" }.to_string()) as &dyn Fn(usize) -> String, &["res_arr"][..]), ("i", &|k: usize| format!("int({})", k as i64 * 3 - 4), &["res_arr", "res_uarr"]), ("f", &|k: usize| format!("f64({})", k as f64 * 0.5 - 1.0), &["res_arr"])] {
            for op in ops {
                v.push(format!("fn main()->(){{{}anew {} -> V{n}{c}0; {op}(t) V{n}{c}0 ->; {}anew {} -> V{n}{c}0; {op}(u) V{n}{c}0 ->}}", slots(c, f), list(c), slots(c, &|k| f(k + 1)), list(c)));
            }
        }
    }
    // narrower integers
    for x in [0u64, 5, 0x7fffffff, 0x80000000, 0xffffffff] {
        v.push(format!("fn main()->(){{int5({x}) -> j0; widen_s j0 -> i0; widen_u j0 -> i1; res_int(s) i0; res_uint(u) i1; res_int(w) i1}}"));
    }
    for w in 0..=6u32 {
        let m = if w == 6 { u64::MAX } else { (1 << (1 << w)) - 1 };
        let mut xs = vec![0, 1, m / 2, m / 2 + 1, m];
        xs.dedup();
        for x in xs {
            v.push(format!("fn main()->(){{intw({w},{x}) -> I{w}0; intw({w},0) -> I{w}1; res_int(s) I{w}0; res_uint(u) I{w}0; anew I{w}0 I{w}1 I{w}0 -> V3I{w}0; res_arr(a) V3I{w}0 ->; anew I{w}1 I{w}0 -> V2I{w}0; res_uarr(b) V2I{w}0 ->}}"));
        }
    }
    all.push(("results", v));
    let two = ["res_bool(a) b0", "res_bool(b) b0", "res_bool(a) b1", "res_int(a) i0", "res_uint(a) i0", "res_int(b) i1", "res_f64(a) f0", "Not b0 -> b0", "iadd i0 i1 -> i0", "isub i0 i1 -> i1", "fmul f0 f0 -> f0", "Measure q0 -> q0 b1", "H q0"];
    all.push(("order of results", fam("QAlloc -> q0; true -> b0; false -> b1; int(3) -> i0; int(-5) -> i1; f64(0.5) -> f0", &two, 2..=3 + t, "", "", has(2, &["res_", "Measure"]))));
    // control flow
    let ctl = ["H q0", "CX q0 q1", "Measure q0 -> q0 b0", "Measure q1 -> q1 b1", "if b0 {X q1} else {Rz q1 a0}", "if b0 {res_bool(t) b1} else {Measure q1 -> q1 b1}", "if b1 {Not b0 -> b0; int(9) -> i0} else {res_int(e) i0}", "cfg b0 {H q0; res_bool(c) b1}", "cfg b1 {QFree q2 ->; QAlloc -> q2}", "until b0 {H q0; Measure q0 -> q0 b0; iadd i3 i1 -> i3; ilt_u i2 i3 -> b3; Or b0 b3 -> b0}", "until b2 {ilt_u i2 i3 -> b2; iadd i3 i1 -> i3; iadd i0 i3 -> i0; X q1}", "dfg {X q0; radd a0 a0 -> a0}", "call g q0 q1", "call h q1 b0 -> q1 b1", "call k i0 -> i0", "call r i2", "res_int(i) i0", "if b0 {err(3,stop) -> E0; panic E0 q1 -> q1}"];
    let lib = "fn g(q0,q1)->(q0,q1){CX q1 q0; Measure q1 -> q1 b0; if b0 {H q0}} fn h(q0,b0)->(q0,b0){if b0 {Measure q0 -> q0 b0} else {H q0; true -> b0}; res_bool(h) b0} fn k(i0)->(i0){int(2) -> i1; imul i0 i1 -> i0} fn r(i0)->(){res_int(rec) i0} ";
    let pre = "QAlloc -> q0; QAlloc -> q1; QAlloc -> q2; rot(0.3) -> a0; false -> b0; false -> b1; false -> b2; int(0) -> i0; int(1) -> i1; int(2) -> i2; int(0) -> i3; false -> b3";
    let once = |p: &str| p.matches("until b0").count() < 2;
    let mut v = fam(pre, &ctl, 1..=2, "res_bool(end) b0", lib, once);
    v.extend(fam(pre, &ctl, 3..=3, "res_bool(end) b0", lib, |p| once(p) && (thorough || has(2, &["if ", "cfg ", "until ", "call ", "dfg "])(&p[p.find("fn main").unwrap()..]) && has(1, &["; Measure q", ";Measure q", ";H ", "; H "])(&p[p.find("b3;").unwrap()..]))));
    all.push(("control", v));
    // opaque booleans
    let tb = ["ttrue -> t0", "tnot t0 -> t0", "tand t0 t1 -> t0", "tor t0 t1 -> t1", "txor t0 t1 -> t0", "teq t0 t1 -> t2", "read t0 -> b0", "read t2 -> b1", "make_opaque b0 -> t1", "MeasureFree q0 -> t0", "MeasureFree q1 -> t2", "res_bool(x) b0", "res_bool(y) b1", "if b0 {tnot t1 -> t1}"];
    all.push(("booleans", fam("QAlloc -> q0; H q0; QAlloc -> q1; tfalse -> t0; ttrue -> t1; false -> b0", &tb, 2..=3 + t, "read t0 -> b0; read t1 -> b1; res_bool(p) b0; res_bool(q) b1", "", |p| thorough || has(1, &["MeasureFree", "txor", "teq", "tand", "tor"])(p))));
    // arrays
    for (k, kinds) in [("A", true), ("V", false), ("W", false)] {
        let s = |x: &str| x.replace('@', k);
        let mut al: Vec<String> = ["aset @2i0 u0 i1 -> Y2i@2i0", "aswap @2i0 u0 u1 -> Y1@2i0", "aget @2i0 u0 -> Oi0 @2i0", "aclone @2i0 -> @2i0 @2i1", "apop_left @2i0 -> X2i@1i0", "apop_right @2i0 -> X2i@1i0", "aunpack @2i0 -> i0 i1", "aunpack @2i1 -> i1 i2", "unwrap Oi0 -> i0", "anew i1 i0 -> @2i0", "res_int(x) i0", "res_int(y) i1"].iter().map(|x| s(x)).collect();
        if kinds {
            al.extend(["borrow A2i0 u0 -> A2i0 i1", "return A2i0 u0 i0 -> A2i0", "borrow A2i0 u1 -> A2i0 i0", "return A2i0 u1 i1 -> A2i0", "is_borrowed A2i0 u0 -> A2i0 b0", "res_bool(z) b0"].map(String::from));
        }
        let al: Vec<&str> = al.iter().map(|x| x.as_str()).filter(|x| !x.starts_with("aclone W")).collect();
        let post = s("aunpack @2i0 -> i8 i9; res_int(p) i8; res_int(q) i9");
        // a value array that is used three times makes hugr-passes panic (see DESIGN.md)
        let few = |p: &str| {
            let (mut n, mut ok) = (0, true);
            for st in p.split(';') {
                let (i, o) = st.split_once("->").unwrap_or((st, ""));
                n += i.split(' ').any(|w| w == "W2i0") as usize;
                ok &= n < 3;
                if o.split(' ').any(|w| w.trim_end_matches('}') == "W2i0") {
                    n = 0;
                }
            }
            ok
        };
        all.push(("integer arrays", fam(&s("int(11) -> i0; int(22) -> i1; anew i0 i1 -> @2i0; u(0) -> u0; u(1) -> u1"), &al, 1..=3, &post, "", |p| few(p) && has(1, &["res_int(x)", "res_int(y)", "apop", "aclone", "borrow", "aset", "aswap"])(p)).iter().map(|p| if k == "W" { p.replacen("->(*)", "->()", 1) } else { p.clone() }).collect()));
    }
    let qa = ["borrow A3q0 u0 -> A3q0 q0", "borrow A3q0 u1 -> A3q0 q1", "return A3q0 u0 q0 -> A3q0", "return A3q0 u1 q1 -> A3q0", "return A3q0 u1 q0 -> A3q0", "return A3q0 u0 q1 -> A3q0", "H q0", "CX q0 q1", "Measure q1 -> q1 b0", "b2a A3q0 -> V3q0; state(s) V3q0; rtbarrier V3q0; a2b V3q0 -> A3q0", "call f A3q0", "borrow A3q0 u2 -> A3q0 q2", "return A3q0 u2 q2 -> A3q0", "noop q0"];
    let lib = "fn f(A3q0)->(A3q0){u(2) -> u2; borrow A3q0 u2 -> A3q0 q0; X q0; return A3q0 u2 q0 -> A3q0} ";
    all.push(("qubit arrays", fam("QAlloc -> q0; QAlloc -> q1; QAlloc -> q2; anew q0 q1 q2 -> A3q0; u(0) -> u0; u(1) -> u1; u(2) -> u2", &qa, 1..=4, "", lib, |p| !p.contains("noop") && (thorough || p.matches(';').count() < 16))));
    let ma = ["anew q0 q1 -> A2q0", "anew q0 q1 -> V2q0", "aunpack A2q0 -> q0 q1", "aunpack V2q0 -> q1 q0", "b2a A2q0 -> V2q0", "a2b V2q0 -> A2q0", "state(s) V2q0", "state(t) V2q0", "rtbarrier V2q0", "X q0", "aswap V2q0 u0 u1 -> Y1V2q0", "unwrap Y1V2q0 -> V2q0", "drop A2q0 ->", "drop V2q0 ->", "anew b0 b1 -> A2b0", "res_arr(l) V2b0 ->", "anew b0 b1 -> V2b0", "drop A2b0 ->", "b2a A2b0 -> V2b0"];
    all.push(("kinds of arrays", fam("QAlloc -> q0; QAlloc -> q1; u(0) -> u0; u(1) -> u1; true -> b0; false -> b1", &ma, 2..=4, "", "", |p| thorough || p.matches(';').count() < 9)));
    let sa = ["sget Hb0 u0 -> Ob0", "sget Hb0 u1 -> Ob0", "sget Hb0 u2 -> Ob0", "unwrap Ob0 -> b0", "slen Hb0 -> u0", "ifromusize u0 -> i0", "res_bool(x) b0", "res_int(x) i0"];
    let mut v = vec![];
    for bits in ["b:01", "b:110", "b:0"] {
        v.extend(fam(&format!("sarr({bits}) -> Hb0; u(0) -> u0; u(1) -> u1; u(2) -> u2"), &sa, 2..=3 + t, "", "", has(1, &["res_"])));
        v.extend(fam(&format!("sarr({}) -> Ht0; u(0) -> u0; u(1) -> u1; u(2) -> u2", bits.replace('b', "t")), &["sget Ht0 u0 -> Ot0", "sget Ht0 u1 -> Ot0", "sget Ht0 u2 -> Ot0", "unwrap Ot0 -> t0", "read t0 -> b0", "tnot t0 -> t0", "res_bool(x) b0"], 4..=4 + t, "", "", has(1, &["res_"])));
    }
    all.push(("static arrays", v));
    // the end of the program
    let mut v = vec![];
    for stop in ["panic", "exit"] {
        for code in [1, 7, 42, 999, 1000, 1001, 65536] {
            for msg in ["m", "a long message of the program", "ünï", "z12345678901"] {
                v.push(format!("fn main()->(){{QAlloc -> q0; H q0; Measure q0 -> q0 b0; res_bool(z12345678901) b0; if b0 {{err({code},{msg}) -> E0; {stop} E0 ->}}; QFree q0 ->; res_bool(after) b0}}"));
                v.push(format!("fn f(q0,i0)->(q0,i0){{err({code},{msg}) -> E0; err(5,z12345678902) -> E1; Measure q0 -> q0 b0; if b0 {{{stop} E0 q0 i0 -> q0 i0}} else {{{stop} E1 q0 i0 -> q0 i0}}}} fn main()->(){{QAlloc -> q0; H q0; int(4) -> i0; call f q0 i0 -> q0 i0; res_int(after) i0; QFree q0 ->}}"));
            }
        }
    }
    all.push(("stops", v));
    // rotations and arithmetic that reach operands
    let rot = ["radd a0 a1 -> a0", "radd a1 a1 -> a1", "to_halfturns a0 -> f0", "to_halfturns a1 -> f1", "from_halfturns_unchecked f0 -> a0", "from_halfturns_unchecked f1 -> a1", "from_halfturns f0 -> Oa0", "unwrap Oa0 -> a1", "fadd f0 f1 -> f0", "fmul f0 f1 -> f1", "fneg f0 -> f0", "fdiv f0 f1 -> f0", "fsub f0 f1 -> f1", "Rz q0 a0", "Rx q0 a1", "CRz q0 q1 a0", "qsRz q1 f0", "PhasedX q0 f0 f1", "ZZPhase q0 q1 f1"];
    all.push(("angles", fam("QAlloc -> q0; QAlloc -> q1; rot(0.3) -> a0; rot(1.75) -> a1; f64(0.7) -> f0; f64(-1.9) -> f1", &rot, 2..=3, "Rz q0 a0; Ry q1 a1; res_f64(x) f0; res_f64(y) f1", "", |p| thorough || p.matches(';').count() < 12 || has(3, &["rad", "halft"])(p))));
    let mut v = vec![];
    let fs = ["0", "-0.0", "0.25", "1", "-1", "2", "3.5", "-7.25", "1e10", "inf", "-inf", "NaN"];
    for x in fs {
        v.push(format!("fn main()->(){{QAlloc -> q0; f64({x}) -> f0; from_halfturns f0 -> Oa0; unwrap Oa0 -> a0; Rz q0 a0; to_halfturns a0 -> f1; res_f64(h) f1; QFree q0 ->}}"));
        v.push(format!("fn main()->(){{QAlloc -> q0; f64({x}) -> f0; from_halfturns_unchecked f0 -> a0; Rz q0 a0; to_halfturns a0 -> f1; res_f64(h) f1; QFree q0 ->}}"));
    }
    v.retain(|p| !p.contains("inf") && !p.contains("NaN"));
    for x in ["0.25", "1.75", "3.5"] {
        for y in ["0.25", "0.5", "1.75"] {
            v.push(format!("fn main()->(){{QAlloc -> q0; rot({x}) -> a0; rot({y}) -> a1; radd a0 a1 -> a0; Rz q0 a0; to_halfturns a0 -> f0; res_f64(h) f0; QFree q0 ->}}"));
        }
    }
    all.push(("conversions of angles", v));
    let ar = ["iadd i0 i1 -> i0", "isub i0 i1 -> i0", "imul i0 i1 -> i0", "idiv_u i0 i1 -> i0", "imod_u i0 i1 -> i0", "ineg i0 -> i0", "iand i0 i1 -> i0", "ior i0 i1 -> i0", "ixor i0 i1 -> i1", "ilt_s i0 i1 -> b0", "ilt_u i0 i1 -> b0", "ieq i0 i1 -> b0", "convert_s i0 -> f0", "convert_u i0 -> f0"];
    let mut v = vec![];
    for (x, y) in [(7, 2), (-7, 2), (0, 5), (5, -1)] {
        v.extend(fam(&format!("int({x}) -> i0; int({y}) -> i1; false -> b0; f64(2.5) -> f0"), &ar, 1..=1 + t, "res_int(a) i0; res_uint(b) i1; res_bool(c) b0; res_f64(d) f0", "", any));
    }
    all.push(("integers", v));
    // random numbers, shot number
    let rnd = ["RandomInt g0 -> j0 g0", "RandomFloat g0 -> f0 g0", "RandomIntBounded g0 j1 -> j0 g0", "RandomAdvance g0 i0 -> g0", "widen_u j0 -> i0", "DeleteRNGContext g0 ->", "shot -> i1", "res_int(x) i0", "res_int(s) i1", "res_f64(f) f0", "qsRz q0 f0", "NewRNGContext i0 -> Og0", "unwrap Og0 -> g0"];
    all.push(("random numbers", fam("QAlloc -> q0; int(12) -> i0; int5(6) -> j1; NewRNGContext i0 -> Og0; unwrap Og0 -> g0; f64(0.5) -> f0; int(-1) -> i1", &rnd, 1..=3 + t, "", "", any)));
    // the GPU library
    let gp = ["glookup(fa) M0 -> K3ifbi0", "glookup(f_c) M0 -> K0v0", "glookup(f.c) M0 -> K2bff0", "glookid(3) M0 -> K3ifbi0", "gcall c0 K3ifbi0 i0 f0 b0 -> Ri0; gread Ri0 -> c0 i0", "gcall c0 K0v0 -> Rv0; gread Rv0 -> c0", "gcall c1 K2bff0 b0 f0 -> Rf0; gread Rf0 -> c1 f0", "gcall c1 K3ifbi0 i0 f0 b0 -> Ri1", "gread Ri1 -> c1 i0", "gdispose c0 ->", "gdispose c1 ->", "call lib c0", "Not b0 -> b0", "res_int(i) i0", "res_f64(f) f0"];
    let (pre, lib) = ("gmod -> M0; u(4) -> u0; gctx u0 -> Oc0; unwrap Oc0 -> c0; u(5) -> u1; gctx u1 -> Oc1; unwrap Oc1 -> c1; int(-7) -> i0; f64(1.25) -> f0; true -> b0", "fn lib(c0)->(c0){gmod -> M0; glookup(fa) M0 -> K1if0; int(9) -> i0; gcall c0 K1if0 i0 -> Rf0; gread Rf0 -> c0 f0; res_f64(lib) f0} ");
    let mut v = fam(pre, &gp, 2..=3, "", lib, |p| has(1, &["gcall", "call lib"])(&p[p.find("fn main").unwrap()..]));
    v.extend(fam(pre, &gp, 4..=4 + t, "", lib, |p| has(3, &["gcall", "call lib"])(&p[p.find("fn main").unwrap()..])));
    all.push(("GPU calls that may fail", v.iter().filter(|p| p.matches(';').count() < 22).map(|p| format!("gpufail {p}")).collect()));
    all.push(("GPU, two shots", v.iter().map(|p| format!("twice {p}")).collect()));
    // several functions, and how the entry point is chosen
    let mut v = vec![];
    for (a, b) in [("f", "g"), ("main.1", "main_1"), ("qmain", "setup"), ("___qalloc", "print_bool"), ("a b", "a.b"), ("teardown", "panic"), ("heap_alloc", "malloc")] {
        let (a, b) = (a.replace(' ', "_"), b.replace(' ', "-"));
        for m in ["", "mod "] {
            v.push(format!("{m}fn {a}(q0)->(q0){{H q0}} fn {b}(q0)->(q0){{X q0; call {a} q0}} fn main()->(){{QAlloc -> q0; call {b} q0; call {a} q0; Measure q0 -> q0 b0; res_bool(r) b0; QFree q0 ->}}"));
            v.push(format!("{m}fn main()->(){{QAlloc -> q0; X q0; Measure q0 -> q0 b0; res_bool(r) b0; QFree q0 ->}} fn {a}()->(){{true -> b0; res_bool(wrong) b0}} fn {b}()->(){{call {a}}}"));
        }
    }
    all.push(("names", v));
    all
}
