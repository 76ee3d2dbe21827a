//! C15: pytket circuits survive being imported and exported again.
use crate::ctx::*;
use crate::interp::*;
use crate::pyt;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use tket::hugr::extension::prelude::{bool_t, qb_t};
use tket::hugr::types::Type;
use tket::hugr::{Hugr, HugrView, Node};
use tket::extension::rotation::rotation_type;
use tket::serialize::pytket::{load_tk1_json_str, save_tk1_json_str, DecodeOptions, EncodeOptions};

/// Values of the symbols: those given to the inputs of the decoded program
fn symbols(nq: usize, nb: usize, names: &[&str]) -> (Vec<Arg>, HashMap<String, f64>) {
    let tys: Vec<Type> = vec![qb_t(); nq].into_iter().chain(vec![bool_t(); nb]).chain(vec![rotation_type(); names.len()]).collect();
    let args = args_for(&tys).unwrap();
    let mut m = HashMap::new();
    for (k, s) in names.iter().enumerate() {
        if let Arg::Val(v) = &args[nq + nb + k] {
            m.insert(s.to_string(), v.f());
        }
    }
    (args, m)
}
pub fn reference(ctx: &Ctx, j: &J, args: &[Arg], syms: &HashMap<String, f64>) -> Result<Behaviour, String> {
    reference_with(ctx, j, j["bits"].as_array().unwrap().len(), args, syms)
}
/// With `nb` bits given and returned; the others start as false and are discarded
pub fn reference_with(ctx: &Ctx, j: &J, nb: usize, args: &[Arg], syms: &HashMap<String, f64>) -> Result<Behaviour, String> {
    let nq = j["qubits"].as_array().unwrap().len();
    let all = j["bits"].as_array().unwrap().len();
    let outs: Vec<Type> = vec![qb_t(); nq].into_iter().chain(vec![bool_t(); nb]).collect();
    let o = Opts { syms: syms.clone(), ..Opts::default() };
    let b = explore_fn(args, &outs, &o, &mut |m, v| {
        let q: Vec<usize> = v[..nq].iter().map(|x| x.q()).collect();
        let mut b: Vec<bool> = v[nq..nq + nb].iter().map(|x| x.as_bool()).collect();
        b.resize(all, false);
        let (q, b) = pyt::run(m, j, &q, &b, syms)?;
        Ok(q.into_iter().map(V::Q).chain(b.into_iter().take(nb).map(V::bool)).collect())
    })?;
    ctx.states(b.leaves);
    ctx.trans(b.steps);
    Ok(b)
}
/// With the given numbers of inputs and outputs (qubits, bits): the first registers. The others start as zero and are discarded
pub fn reference_io(ctx: &Ctx, j: &J, i: (usize, usize), o: (usize, usize), args: &[Arg], syms: &HashMap<String, f64>) -> Result<Behaviour, String> {
    let (nq, nb) = (j["qubits"].as_array().unwrap().len(), j["bits"].as_array().unwrap().len());
    if nq < i.0.max(o.0) || nb < i.1.max(o.1) {
        return Err(format!("only {nq} qubits and {nb} bits"));
    }
    let outs: Vec<Type> = vec![qb_t(); o.0].into_iter().chain(vec![bool_t(); o.1]).collect();
    let b = explore_fn(args, &outs, &Opts { syms: syms.clone(), ..Opts::default() }, &mut |m, v| {
        let mut q: Vec<usize> = v[..i.0].iter().map(|x| x.q()).collect();
        let mut b: Vec<bool> = v[i.0..i.0 + i.1].iter().map(|x| x.as_bool()).collect();
        b.resize(nb, false);
        while q.len() < nq {
            q.push(m.alloc()?);
        }
        let (q, b) = pyt::run(m, j, &q, &b, syms)?;
        for k in &q[o.0..] {
            m.free(*k)?;
        }
        Ok(q.into_iter().take(o.0).map(V::Q).chain(b.into_iter().take(o.1).map(V::bool)).collect())
    })?;
    ctx.states(b.leaves);
    ctx.trans(b.steps);
    Ok(b)
}
fn program(h: &Hugr, main: Node, args: &[Arg], syms: &HashMap<String, f64>) -> Result<Behaviour, String> {
    explore(h, main, args, &Opts { syms: syms.clone(), ..Opts::default() })
}
fn opts(qs: bool) -> (DecodeOptions, EncodeOptions<Hugr>) {
    if qs {
        (DecodeOptions::new().with_config(tket_qsystem::pytket::qsystem_decoder_config()), EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()))
    } else {
        (DecodeOptions::new(), EncodeOptions::new())
    }
}
fn nested(j: &J) -> bool {
    j.to_string().contains("CircBox")
}
const NAMES: [&str; 2] = ["x", "y"];
fn check(ctx: &Ctx, j: &J, qs: bool) -> Result<(), String> {
    let text = j.to_string();
    let (nq, nb) = (j["qubits"].as_array().unwrap().len(), j["bits"].as_array().unwrap().len());
    let (args, syms) = symbols(nq, nb, &NAMES);
    let want = reference(ctx, j, &args, &syms).map_err(|e| format!("reference: {e}"))?;
    let params = || NAMES.iter().map(|s| s.to_string());
    let c = load_tk1_json_str(&text, opts(qs).0.with_input_params(params())).map_err(|e| format!("not read: {e}"))?;
    let h = c.hugr();
    h.validate().map_err(|e| format!("read, invalid: {e}"))?;
    let main = c.parent();
    let sig = h.get_optype(main).as_func_defn().ok_or("not a function")?.signature().body().clone();
    let tys: Vec<Type> = vec![qb_t(); nq].into_iter().chain(vec![bool_t(); nb]).collect();
    let ins: Vec<Type> = tys.iter().cloned().chain(vec![rotation_type(); 2]).collect();
    if sig.input.iter().ne(ins.iter()) || sig.output.iter().ne(tys.iter()) {
        return Err(format!("read with signature {sig}"));
    }
    let got = program(h, main, &args, &syms).map_err(|e| format!("read: {e}"))?;
    same(&want, &got).map_err(|e| format!("read: {e}"))?;
    if got.leaked_qubits > 0 {
        return Err("read: qubits are lost".into());
    }
    if let Some(n) = j["name"].as_str() {
        let f = h.get_optype(main).as_func_defn().unwrap().func_name().clone();
        if f != n {
            return Err(format!("read with name {f:?}"));
        }
    }
    // and back
    let out = match save_tk1_json_str(&c, opts(qs).1) {
        // boxes are read as nested regions, which cannot be part of a circuit without the program (documented)
        Err(e) if nested(j) && e.to_string().contains("nested structure") => {
            ctx.traces(1);
            return Ok(());
        }
        r => r.map_err(|e| format!("not written: {e}"))?,
    };
    let k: J = serde_json::from_str(&out).unwrap();
    let name = |j: &J| j["name"].as_str().unwrap_or("").to_string();
    if name(&k) != name(j) || k["phase"] != j["phase"] {
        return Err(format!("written with name {} and phase {}", k["name"], k["phase"]));
    }
    if k["qubits"] != j["qubits"] {
        return Err(format!("written with qubits {}", k["qubits"]));
    }
    let (b, kb) = (j["bits"].as_array().unwrap(), k["bits"].as_array().unwrap());
    if kb.len() < b.len() || b[..] != kb[..b.len()] {
        return Err(format!("written with bits {}", k["bits"]));
    }
    kept(j, &k)?;
    // (parts kept as programs are only understood by the importer)
    if !out.contains("HugrInline") {
        let again = reference_with(ctx, &k, nb, &args, &syms).map_err(|e| format!("written: {e}"))?;
        same(&want, &again).map_err(|e| format!("written: {e}: {}", k["commands"]))?;
    }
    // a second time
    let mut ty = sig.clone();
    if kb.len() > nb {
        // the additional bits are neither given nor returned
        ty.output = tys.clone().into();
    }
    let c2 = load_tk1_json_str(&out, opts(qs).0.with_input_params(params()).with_signature(ty)).map_err(|e| format!("not read again: {e}"))?;
    c2.hugr().validate().map_err(|e| format!("read again, invalid: {e}"))?;
    let got = program(c2.hugr(), c2.parent(), &args, &syms).map_err(|e| format!("read again: {e}"))?;
    same(&want, &got).map_err(|e| format!("read again: {e}"))?;
    ctx.traces(1);
    Ok(())
}
/// Operations that mean nothing to the importer keep everything that was said about them
fn kept(j: &J, k: &J) -> Result<(), String> {
    let ops = |j: &J| -> Vec<J> { j["commands"].as_array().unwrap().iter().map(|c| c["op"].clone()).filter(|o| !pyt::known(o["type"].as_str().unwrap_or(""))).collect() };
    let mut left = ops(k);
    for mut o in ops(j) {
        // (parameters may be written differently)
        o.as_object_mut().unwrap().remove("params");
        let same = |x: &J| o.as_object().unwrap().iter().all(|(f, v)| x.get(f) == Some(v));
        match left.iter().position(same) {
            Some(i) => drop(left.remove(i)),
            None => return Err(format!("{o} is not written back: {}", k["commands"])),
        }
    }
    if left.is_empty() { Ok(()) } else { Err(format!("{} was added", left[0])) }
}

// ---- circuits

fn reg(s: &str) -> J {
    // "q0", "c1": the name up to the number, which is the index
    let k = s.find(|c: char| c.is_ascii_digit()).unwrap();
    json!([s[..k].to_string(), [s[k..].parse::<u64>().unwrap()]])
}
fn perm(qs: &[&str], to: &[usize]) -> J {
    J::Array(qs.iter().enumerate().map(|(i, q)| json!([reg(q), reg(qs[to[i]])])).collect())
}
fn circ(qubits: &[&str], bits: &[&str], cmds: &[J]) -> J {
    let id: Vec<usize> = (0..qubits.len()).collect();
    json!({"phase": "0", "qubits": qubits.iter().map(|s| reg(s)).collect::<Vec<_>>(), "bits": bits.iter().map(|s| reg(s)).collect::<Vec<_>>(),
        "implicit_permutation": perm(qubits, &id), "commands": cmds})
}
/// One command from a short text: TYPE[(params)] args, or with a JSON operation after `=`
fn cmd(s: &str) -> J {
    if let Some(r) = s.strip_prefix('=') {
        let (op, args) = r.split_once('@').unwrap();
        let op: J = serde_json::from_str(op.trim()).unwrap_or_else(|e| panic!("{op}: {e}"));
        return json!({"op": op, "args": args.split_whitespace().map(reg).collect::<Vec<_>>()});
    }
    let (head, args) = s.split_once(' ').unwrap_or((s, ""));
    let args: Vec<J> = args.split_whitespace().map(reg).collect();
    match head.split_once('(') {
        Some((t, p)) => {
            let p: Vec<&str> = p.trim_end_matches(')').split(',').collect();
            json!({"op": {"type": t, "params": p}, "args": args})
        }
        None => json!({"op": {"type": head}, "args": args}),
    }
}
fn cond(inner: &str, w: usize, v: usize) -> String {
    format!(r#"={{"type":"Conditional","conditional":{{"op":{inner},"width":{w},"value":{v}}}}}@ "#)
}
fn cl(op: &str, args: &str, bits: &[u32], regs: &str, out: &str) -> String {
    let b: Vec<String> = bits.iter().enumerate().map(|(i, p)| format!("[{i},{p}]")).collect();
    format!(r#"={{"type":"ClExpr","expr":{{"bit_posn":[{}],"expr":{{"op":"{op}","args":[{args}]}},"reg_posn":{regs},"output_posn":{out}}}}}@ "#, b.join(","))
}
fn bit(k: u32) -> String {
    format!(r#"{{"type":"term","input":{{"type":"var","term":{{"type":"bit","var":{{"index":{k}}}}}}}}}"#)
}
fn rg(k: u32) -> String {
    format!(r#"{{"type":"term","input":{{"type":"var","term":{{"type":"reg","var":{{"index":{k}}}}}}}}}"#)
}
fn int(k: u32) -> String {
    format!(r#"{{"type":"term","input":{{"type":"int","term":{k}}}}}"#)
}
fn sub(op: &str, args: &str) -> String {
    format!(r#"{{"type":"expr","input":{{"op":"{op}","args":[{args}]}}}}"#)
}
fn boxed(c: &J) -> String {
    format!(r#"={{"type":"CircBox","box":{{"type":"CircBox","id":"12345678-1234-1234-1234-123456789abc","circuit":{c}}}}}@ "#)
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut all: Vec<(J, bool)> = vec![];
    let q3 = ["q0", "q1", "q2"];
    let c2 = ["c0", "c1"];
    let c3 = ["c0", "c1", "c2"];
    // every gate on every order of the qubits
    let gates: [(&str, usize, usize); 49] = [
        ("H", 1, 0), ("X", 1, 0), ("Y", 1, 0), ("Z", 1, 0), ("S", 1, 0), ("Sdg", 1, 0), ("T", 1, 0), ("Tdg", 1, 0), ("V", 1, 0), ("Vdg", 1, 0), ("SX", 1, 0), ("SXdg", 1, 0),
        ("Rx", 1, 1), ("Ry", 1, 1), ("Rz", 1, 1), ("U1", 1, 1), ("U2", 1, 2), ("U3", 1, 3), ("TK1", 1, 3), ("PhasedX", 1, 2), ("GPI", 1, 1), ("noop", 1, 0), ("Reset", 1, 0), ("Collapse", 1, 0),
        ("CX", 2, 0), ("CY", 2, 0), ("CZ", 2, 0), ("CH", 2, 0), ("CV", 2, 0), ("CS", 2, 0), ("CRz", 2, 1), ("CRx", 2, 1), ("CU1", 2, 1), ("CU3", 2, 3), ("SWAP", 2, 0), ("ECR", 2, 0), ("ISWAP", 2, 1), ("ZZMax", 2, 0),
        ("ZZPhase", 2, 1), ("XXPhase", 2, 1), ("TK2", 2, 3), ("FSim", 2, 2), ("CCX", 3, 0), ("CSWAP", 3, 0), ("BRIDGE", 3, 0), ("XXPhase3", 3, 1), ("CnX", 3, 0), ("NPhasedX", 2, 2), ("AAMS", 2, 3),
    ];
    let ps = ["x", "0.25", "2*y-1"];
    for (g, n, np) in gates {
        for o in orders(3, n) {
            for shift in 0..3 {
                if np == 0 && shift > 0 {
                    continue;
                }
                let p: Vec<&str> = (0..np).map(|k| ps[(k + shift) % 3]).collect();
                let head = if np > 0 { format!("{g}({})", p.join(",")) } else { g.into() };
                let a: Vec<&str> = o.iter().map(|k| q3[*k]).collect();
                let c = [cmd("Ry(0.3) q0"), cmd(&format!("{head} {}", a.join(" "))), cmd("CX q1 q2")];
                for qs in [false, true] {
                    all.push((circ(&q3, &[], &c), qs));
                }
            }
        }
    }
    // conditions, classical operations, boxes
    let x = r#"{"type":"X"}"#;
    let rzx = r#"{"type":"Rz","params":["x"]}"#;
    let meas = r#"{"type":"Measure"}"#;
    let mut cls: Vec<String> = vec![];
    for o in ["BitAnd", "BitOr", "BitXor", "BitEq", "BitNeq"] {
        let ab = format!("{},{}", bit(0), bit(1));
        let ba = format!("{},{}", bit(1), bit(0));
        cls.push(cl(o, &ab, &[0, 1, 2], "[]", "[2]") + "c0 c1 c2");
        cls.push(cl(o, &ab, &[0, 1, 2], "[]", "[2]") + "c2 c0 c1");
        cls.push(cl(o, &ba, &[0, 1, 2], "[]", "[2]") + "c0 c1 c2");
        cls.push(cl(o, &ab, &[0, 1], "[]", "[0]") + "c0 c1");
        cls.push(cl(o, &ab, &[0, 1], "[]", "[1]") + "c0 c1");
        cls.push(cl(o, &ab, &[1, 2, 0], "[]", "[0]") + "c0 c1 c2");
        cls.push(cl(o, &format!("{},{}", bit(0), bit(0)), &[0, 1], "[]", "[1]") + "c0 c1");
        cls.push(cl(o, &format!("{},{}", bit(0), int(1)), &[0, 1], "[]", "[1]") + "c0 c1");
        cls.push(cl(o, &format!("{},{}", bit(0), sub("BitNot", &bit(1))), &[0, 1, 2], "[]", "[2]") + "c0 c1 c2");
        cls.push(cl(o, &format!("{},{}", sub("BitAnd", &ab), bit(1)), &[0, 1, 2], "[]", "[2]") + "c0 c1 c2");
    }
    for a in [bit(0), int(0), int(1), sub("BitAnd", &format!("{},{}", bit(0), bit(1)))] {
        cls.push(cl("BitNot", &a, &[0, 1, 2], "[]", "[2]") + "c0 c1 c2");
        cls.push(cl("BitNot", &a, &[0, 1], "[]", "[1]") + "c0 c1");
    }
    cls.push(cl("BitNot", &bit(0), &[0], "[]", "[0]") + "c1");
    cls.push(cl("BitOne", "", &[0], "[]", "[0]") + "c1");
    cls.push(cl("BitXor", &format!("{},{},{}", bit(0), bit(1), bit(2)), &[0, 1, 2, 3], "[]", "[3]").replace("@ ", "@ ") + "c0 c1 c2 d0");
    for o in ["RegAnd", "RegXor", "RegAdd", "RegEq", "RegLt"] {
        cls.push(cl(o, &format!("{},{}", rg(0), rg(1)), &[], "[[0,[0]],[1,[1]]]", "[2]") + "c0 c1 c2");
        cls.push(cl(o, &format!("{},{}", rg(0), rg(1)), &[], "[[0,[0,1]],[1,[2]]]", "[0,1]") + "c0 c1 c2");
        cls.push(cl(o, &format!("{},{}", rg(0), int(1)), &[], "[[0,[0,1]]]", "[0,1]") + "c0 c1");
        cls.push(cl(o, &format!("{},{}", rg(0), bit(0)), &[2], "[[0,[0,1]]]", "[0,1]") + "c0 c1 c2");
    }
    for c in &cls {
        let w: Vec<&str> = if c.ends_with("d0") { vec!["c0", "c1", "c2", "d0"] } else { c3.to_vec() };
        all.push((circ(&q3[..1], &w, &[cmd(c)]), false));
        all.push((circ(&q3[..1], &w, &[cmd("Measure q0 c0"), cmd(c), cmd(&(cond(x, 1, 1) + "c2 q0"))]), false));
        all.push((circ(&q3[..1], &w, &[cmd(c), cmd(c)]), true));
    }
    let inner = |qb: &[&str], b: &[&str], c: &[&str]| circ(qb, b, &c.iter().map(|s| cmd(s)).collect::<Vec<_>>());
    let permuted = |mut c: J, q: &[&str], to: &[usize]| {
        c["implicit_permutation"] = perm(q, to);
        c
    };
    let b1 = boxed(&inner(&["q0", "q1"], &["c0"], &["CX q0 q1", "Measure q1 c0", "Rz(0.3) q0"]));
    let b2 = boxed(&inner(&["a0"], &[], &["Rz(x) a0"]));
    let b3 = boxed(&permuted(inner(&["q0", "q1"], &[], &["H q0", "T q1"]), &["q0", "q1"], &[1, 0]));
    let b4 = boxed(&inner(&["q0"], &["c0", "c1"], &["H q0", &(cond(x, 1, 1) + "c1 q0"), "Measure q0 c0"]));
    let b5 = boxed(&inner(&["q0", "q1"], &[], &[&format!("{}q1 q0", boxed(&inner(&["u0", "u1"], &[], &["CX u0 u1", "S u0"])))]));
    let alpha: Vec<String> = vec![
        "H q0".into(), "CX q0 q1".into(), "CX q1 q0".into(), "Rz(x) q1".into(), "Ry(0.3+y) q0".into(), "Measure q0 c0".into(), "Measure q0 c1".into(), "Measure q1 c0".into(), "Reset q0".into(),
        cond(x, 1, 1) + "c0 q0", cond(x, 1, 0) + "c0 q1", cond(x, 2, 2) + "c0 c1 q0", cond(x, 2, 1) + "c1 c0 q1", cond(rzx, 1, 1) + "c1 q0", cond(meas, 1, 1) + "c0 q0 c1", cond(meas, 1, 1) + "c0 q0 c0",
        "U3(x,0.5,y) q0".into(), "SWAP q0 q1".into(), "Barrier q0 q1".into(), "Barrier q1 c0".into(), "Barrier c1 q0 c0".into(),
        r#"={"type":"SetBits","classical":{"values":[true]}}@ c0"#.into(), r#"={"type":"SetBits","classical":{"values":[false,true]}}@ c1 c0"#.into(), r#"={"type":"CopyBits","classical":{"n_i":1}}@ c0 c1"#.into(),
        cls[0].replace("c0 c1 c2", "c0 c1 c0"), cls[3].clone(), cls[4].clone(), "Phase(0.3)".into(), b1 + "q1 q0 c1", b2 + "q1", b3 + "q0 q1", b4 + "q1 c1 c0", b5 + "q0 q1", "noop q0".into(),
        r#"={"type":"Barrier","data":"some text"}@ q0 c0"#.into(),
    ];
    // a bit that appears twice cannot be an argument of a classical expression
    let alpha: Vec<String> = alpha.into_iter().filter(|a| !a.ends_with("c0 c1 c0")).collect();
    let parsed: Vec<J> = alpha.iter().map(|s| cmd(s)).collect();
    for n in 0..=if th { 4 } else { 3 } {
        for s in seqs(alpha.len(), n) {
            let c: Vec<J> = s.iter().map(|k| parsed[*k].clone()).collect();
            all.push((circ(&q3[..2], &c2, &c), false));
            if n < 3 {
                all.push((circ(&q3[..2], &c2, &c), true));
            }
        }
    }
    let core: Vec<usize> = (0..alpha.len()).filter(|k| ["H q0", "CX q1 q0", "Measure q0 c0", "Measure q1 c0", "SWAP q0 q1", "Reset q0"].contains(&&*alpha[*k]) || alpha[*k].contains("Conditional") && alpha[*k].contains("width\":1") || alpha[*k].contains("CopyBits") || alpha[*k].contains("ClExpr")).collect();
    for s in seqs(core.len(), if th { 5 } else { 4 }) {
        let c: Vec<J> = s.iter().map(|k| parsed[core[*k]].clone()).collect();
        all.push((circ(&q3[..2], &c2, &c), false));
    }
    // registers, names, phases, permutations
    let bodies: [&[&str]; 4] = [&[], &["CX Q0 Q1"], &["H Q2", "Measure Q0 B1", "CX Q1 Q2"], &["Measure Q1 B0", "Measure Q2 B0", "U3(x,y,1) Q0", "CX Q2 Q0"]];
    for qr in [["q0", "q1", "q2"], ["q2", "q0", "q1"], ["a1", "q0", "a0"], ["z5", "q7", "b0"]] {
        for br in [["c0", "c1"], ["c1", "c0"], ["m0", "c3"]] {
            for body in bodies {
                let c: Vec<J> = body
                    .iter()
                    .map(|s| {
                        let mut s = s.to_string();
                        for (k, q) in qr.iter().enumerate() {
                            s = s.replace(&format!("Q{k}"), q);
                        }
                        for (k, b) in br.iter().enumerate() {
                            s = s.replace(&format!("B{k}"), b);
                        }
                        cmd(&s)
                    })
                    .collect();
                for to in orders(3, 3) {
                    for (name, phase) in [(None, "0"), (Some("my circuit"), "0.5"), (Some(""), "1.25 + x")] {
                        let mut j = permuted(circ(&qr, &br, &c), &qr, &to);
                        j["phase"] = phase.into();
                        if let Some(n) = name {
                            j["name"] = n.into();
                        }
                        all.push((j, false));
                    }
                }
            }
        }
    }
    // operations with all kinds of data, none of which means anything here
    let id = r#""id":"12345678-1234-1234-1234-123456789abc""#;
    let m1 = "[[[0.0,1.0],[0.5,0.0]],[[0.25,0.0],[0.0,-1.0]]]";
    let m2 = format!("[{}]", vec![format!("[{}]", vec!["[0.5,-0.25]"; 4].join(",")); 4].join(","));
    let data: Vec<(String, usize, usize)> = vec![
        (r#"{"type":"RangePredicate","classical":{"lower":1,"upper":1,"n_i":1},"signature":["I","B"]}"#.into(), 0, 2),
        (r#"{"type":"RangePredicate","classical":{"lower":0,"upper":2,"n_i":2},"signature":["I","I","B"]}"#.into(), 0, 3),
        (r#"{"type":"RangePredicate","classical":{"lower":0,"upper":2,"n_i":2}}"#.into(), 0, 3),
        (r#"{"type":"ExplicitPredicate","classical":{"name":"AND","n_i":2,"values":[false,false,false,true]},"signature":["I","I","B"]}"#.into(), 0, 3),
        (r#"{"type":"ExplicitModifier","classical":{"name":"XOR","n_i":1,"values":[false,true,true,false]},"signature":["I","B"]}"#.into(), 0, 2),
        (r#"{"type":"ClassicalTransform","classical":{"name":"swap","n_io":2,"values":[0,2,1,3]},"signature":["B","B"]}"#.into(), 0, 2),
        (r#"{"type":"MultiBit","classical":{"n":2,"op":{"type":"RangePredicate","classical":{"lower":1,"upper":1,"n_i":1}}},"signature":["I","B","I","B"]}"#.into(), 0, 3),
        (r#"{"type":"Conditional","conditional":{"op":{"type":"RangePredicate","classical":{"lower":1,"upper":1,"n_i":1},"signature":["I","B"]},"width":1,"value":1}}"#.into(), 0, 3),
        (r#"{"type":"WASM","wasm":{"n":2,"ww_n":1,"width_i_parameter":[1],"width_o_parameter":[1],"func_name":"f","wasm_file_uid":"6a0a29e235cd5c60353254bc2b459e631d381cdd0bded7ae6cb44afb784bd2de"},"signature":["B","B"]}"#.into(), 0, 2),
        (format!(r#"{{"type":"Unitary1qBox","box":{{"type":"Unitary1qBox",{id},"matrix":{m1}}}}}"#), 1, 0),
        (format!(r#"{{"type":"Unitary2qBox","box":{{"type":"Unitary2qBox",{id},"matrix":{m2}}}}}"#), 2, 0),
        (format!(r#"{{"type":"ExpBox","box":{{"type":"ExpBox",{id},"matrix":{m2},"phase":0.75}},"signature":["Q","Q"]}}"#), 2, 0),
        (format!(r#"{{"type":"PauliExpBox","box":{{"type":"PauliExpBox",{id},"paulis":["X","Y","I"],"phase":"0.5 + x","cx_config":"Snake"}}}}"#), 3, 0),
        (format!(r#"{{"type":"PauliExpPairBox","box":{{"type":"PauliExpPairBox",{id},"paulis_pair":[["X"],["Z"]],"phase_pair":["x","0.25"],"cx_config":"Tree"}},"n_qb":1}}"#), 1, 0),
        (r#"{"type":"CnRy","params":["x"],"n_qb":3,"signature":["Q","Q","Q"]}"#.into(), 3, 0),
        (r#"{"type":"CnX","n_qb":2}"#.into(), 2, 0),
        (r#"{"type":"PhaseGadget","params":["0.5"],"n_qb":3}"#.into(), 3, 0),
        (r#"{"type":"U3","params":["0.5","x","y"],"data":"some text"}"#.into(), 1, 0),
    ];
    for (o, n, m) in &data {
        for qo in orders(3, *n) {
            for bo in orders(3, *m) {
                let a: Vec<&str> = qo.iter().map(|k| q3[*k]).chain(bo.iter().map(|k| c3[*k])).collect();
                let one = format!("={o}@ {}", a.join(" "));
                all.push((circ(&q3, &c3, &[cmd("H q0"), cmd(&one), cmd("Measure q0 c0"), cmd(&one)]), false));
                all.push((circ(&q3, &c3, &[cmd("Measure q1 c1"), cmd(&one), cmd(&(cond(x, 1, 1) + "c0 q2"))]), true));
                // next to each other one
                for (p, n2, m2) in &data {
                    let b: Vec<&str> = q3.iter().take(*n2).chain(c3.iter().take(*m2)).copied().collect();
                    all.push((circ(&q3, &c3, &[cmd(&one), cmd("CX q0 q1"), cmd(&format!("={p}@ {}", b.join(" ")))]), false));
                }
            }
        }
    }
    // empty and uneven register sets
    for nq in 0..=3 {
        for nb in 0..=3 {
            let mut c = vec![];
            if nq > 0 && nb > 0 {
                c.push(cmd(&format!("Measure q{} c{}", nq - 1, nb - 1)));
            }
            all.push((circ(&q3[..nq], &c3[..nb], &c), false));
        }
    }
    let mut keys = std::collections::HashSet::new();
    all.retain(|(j, q)| keys.insert((j.to_string(), *q)));
    ctx.bound("circuits", all.len() as u64);
    ctx.assume("the meaning of operations that are not known to the importer is taken to be any fixed action on their qubits and bits");
    ctx.par(all.len(), |i| {
        let (j, q) = &all[i];
        ctx.case(&format!("{}{j}", if *q { "qsystem " } else { "" }), || check(ctx, j, *q));
    });
}
/// All ways to choose k of n in order
pub fn orders(n: usize, k: usize) -> Vec<Vec<usize>> {
    seqs(n, k).filter(|s| (0..k).all(|i| (0..i).all(|j| s[i] != s[j]))).collect()
}
