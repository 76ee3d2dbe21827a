//! C16: parameter expressions keep their value across pytket import and export.
use crate::ctx::*;
use crate::gen::*;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use tket::extension::rotation::ConstRotation;
use tket::hugr::ops::OpType;
use tket::hugr::std_extensions::arithmetic::float_types::ConstF64;
use tket::hugr::types::TypeArg;
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use tket::serialize::pytket::{load_tk1_json_str, save_tk1_json_str, DecodeOptions, EncodeOptions};
use tket::Circuit;

// ---- the reference: ordinary arithmetic

#[derive(Clone, Debug)]
pub enum E {
    Num(f64),
    Var(String),
    Bin(char, Box<E>, Box<E>),
    Neg(Box<E>),
    Fun(&'static str, Vec<E>),
    /// something unknown, verbatim without spaces
    Unknown(String),
}
const KNOWN: [(&str, usize); 6] = [("max", 2), ("min", 2), ("abs", 1), ("floor", 1), ("ceil", 1), ("round", 1)];
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(f64),
    Id(String),
    Op(&'static str),
}
fn lex(s: &str) -> Option<Vec<(Tok, usize, usize)>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let st = i;
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
            continue;
        }
        let t = if c.is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if b[st] == b'0' && i > st + 1 {
                return None; // leading zeros are not numbers
            }
            if i < b.len() && b[i] == b'.' {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            let x: f64 = s[st..i].parse().ok()?;
            Tok::Num(x)
        } else if c.is_ascii_alphabetic() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            Tok::Id(s[st..i].into())
        } else {
            let o = if s[i..].starts_with("**") { "**" } else { ["+", "-", "*", "/", "(", ")", ","].into_iter().find(|o| s[i..].starts_with(*o))? };
            i += o.len();
            Tok::Op(o)
        };
        v.push((t, st, i));
    }
    Some(v)
}
struct P<'a> {
    s: &'a str,
    t: Vec<(Tok, usize, usize)>,
    i: usize,
}
impl P<'_> {
    fn op(&mut self, o: &str) -> bool {
        let r = matches!(self.t.get(self.i), Some((Tok::Op(x), _, _)) if *x == o);
        self.i += r as usize;
        r
    }
    fn expr(&mut self) -> Option<E> {
        let mut l = self.term()?;
        loop {
            let o = if self.op("+") { '+' } else if self.op("-") { '-' } else { return Some(l) };
            l = E::Bin(o, l.into(), self.term()?.into());
        }
    }
    fn term(&mut self) -> Option<E> {
        let mut l = self.factor()?;
        loop {
            let o = if self.op("*") { '*' } else if self.op("/") { '/' } else { return Some(l) };
            l = E::Bin(o, l.into(), self.factor()?.into());
        }
    }
    fn factor(&mut self) -> Option<E> {
        if self.op("-") {
            return Some(E::Neg(self.factor()?.into()));
        }
        let b = self.implicit()?;
        if self.op("**") {
            return Some(E::Bin('^', b.into(), self.factor()?.into()));
        }
        Some(b)
    }
    /// a number directly before a parenthesis, a call or a variable multiplies it
    fn implicit(&mut self) -> Option<E> {
        let a = self.atom()?;
        if let (E::Num(_) | E::Unknown(_), Some((Tok::Id(_) | Tok::Op("("), _, _))) = (&a, self.t.get(self.i)) {
            if matches!(self.t[self.i - 1].0, Tok::Num(_)) {
                return Some(E::Bin('*', a.into(), self.atom()?.into()));
            }
        }
        Some(a)
    }
    fn atom(&mut self) -> Option<E> {
        if self.op("(") {
            let e = self.expr()?;
            return self.op(")").then_some(e);
        }
        let (t, st, _) = self.t.get(self.i)?.clone();
        self.i += 1;
        match t {
            // too large for a number
            Tok::Num(x) if !x.is_finite() => Some(E::Unknown(squeeze(&self.s[st..self.t[self.i - 1].2]))),
            Tok::Num(x) => Some(E::Num(x)),
            Tok::Id(n) => {
                if !self.op("(") {
                    return Some(E::Var(n));
                }
                let mut args = vec![];
                while !self.op(")") {
                    args.push(self.expr()?);
                    if !self.op(",") {
                        if !self.op(")") {
                            return None;
                        }
                        break;
                    }
                }
                Some(match KNOWN.iter().find(|(k, n2)| *k == n && *n2 == args.len()) {
                    Some((k, _)) => E::Fun(k, args),
                    None => E::Unknown(squeeze(&self.s[st..self.t[self.i - 1].2])),
                })
            }
            Tok::Op(_) => None,
        }
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn parse(s: &str) -> Option<E> {
    let mut p = P { s, t: lex(s)?, i: 0 };
    let e = p.expr()?;
    (p.i == p.t.len()).then_some(e)
}
/// some value for what is not understood
pub fn unknown(s: &str) -> f64 {
    let h = squeeze(s).bytes().fold(17u64, |h, b| h.wrapping_mul(1000003) ^ b as u64);
    (h % 10007) as f64 / 10007.0
}
fn bin(o: char, a: f64, b: f64) -> f64 {
    match o {
        '+' => a + b,
        '-' => a - b,
        '*' => a * b,
        '/' => a / b,
        _ => a.powf(b),
    }
}
fn fun(n: &str, a: &[f64]) -> f64 {
    match n {
        "max" => a[0].max(a[1]),
        "min" => a[0].min(a[1]),
        "abs" => a[0].abs(),
        "floor" => a[0].floor(),
        "ceil" => a[0].ceil(),
        _ => a[0].round(),
    }
}
pub fn eval(e: &E, env: &HashMap<String, f64>) -> f64 {
    match e {
        E::Num(x) => *x,
        E::Var(n) if n == "pi" => std::f64::consts::PI,
        E::Var(n) => env.get(n).copied().unwrap_or_else(|| unknown(n)),
        E::Bin(o, a, b) => bin(*o, eval(a, env), eval(b, env)),
        E::Neg(a) => -eval(a, env),
        E::Fun(n, a) => fun(n, &a.iter().map(|a| eval(a, env)).collect::<Vec<_>>()),
        E::Unknown(s) => unknown(s),
    }
}
fn close(a: f64, b: f64) -> bool {
    a.is_nan() && b.is_nan() || a == b || (a - b).abs() <= 1e-6 * a.abs().max(b.abs()).max(1.0)
}

// ---- values of wires in a program

/// Value of a rotation (in half-turns) or float wire
pub fn wire(h: &Hugr, n: Node, p: OutgoingPort, ins: &[f64]) -> Result<f64, String> {
    let arg = |k: usize| -> Result<f64, String> {
        let (s, sp) = h.single_linked_output(n, IncomingPort::from(k)).ok_or("unconnected")?;
        wire(h, s, sp, ins)
    };
    match h.get_optype(n) {
        OpType::Input(_) => {
            // angles come after the linear inputs
            let tys: Vec<_> = h.out_value_types(n).collect();
            let k = tys.iter().filter(|(_, t)| t.copyable()).position(|(q, _)| *q == p).ok_or("not an angle")?;
            if let Some(x) = ins.get(k) {
                return Ok(*x);
            }
            // a name that was not announced
            let names = h.get_metadata(h.get_parent(n).unwrap(), "TKET1.input_parameters").and_then(|v| v.as_array());
            let name = names.and_then(|v| v.get(k)?.as_str()).ok_or_else(|| format!("unexpected input {k}"))?;
            Ok(unknown(name))
        }
        OpType::LoadConstant(_) => {
            let (c, _) = h.single_linked_output(n, IncomingPort::from(0)).unwrap();
            let v = h.get_optype(c).as_const().unwrap().value();
            if let Some(x) = v.get_custom_value::<ConstRotation>() {
                return Ok(x.half_turns());
            }
            v.get_custom_value::<ConstF64>().map(|x| x.value()).ok_or("constant".into())
        }
        OpType::ExtensionOp(e) => Ok(match &*format!("{}.{}", e.def().extension_id(), e.def().name()) {
            "tket.rotation.from_halfturns_unchecked" | "tket.rotation.to_halfturns" => arg(0)?,
            "tket.rotation.radd" | "arithmetic.float.fadd" => arg(0)? + arg(1)?,
            "arithmetic.float.fsub" => arg(0)? - arg(1)?,
            "arithmetic.float.fmul" => arg(0)? * arg(1)?,
            "arithmetic.float.fdiv" => arg(0)? / arg(1)?,
            "arithmetic.float.fpow" => arg(0)?.powf(arg(1)?),
            "arithmetic.float.fneg" => -arg(0)?,
            "arithmetic.float.fabs" => arg(0)?.abs(),
            "arithmetic.float.ffloor" => arg(0)?.floor(),
            "arithmetic.float.fceil" => arg(0)?.ceil(),
            "arithmetic.float.fround" => arg(0)?.round(),
            "arithmetic.float.fmax" => arg(0)?.max(arg(1)?),
            "arithmetic.float.fmin" => arg(0)?.min(arg(1)?),
            "tket.quantum.symbolic_angle" => match &e.args()[0] {
                TypeArg::String(s) => match parse(s) {
                    Some(x) => eval(&x, &sym_env(ins)),
                    None => unknown(s),
                },
                _ => return Err("symbolic angle".into()),
            },
            o => return Err(format!("operation {o}")),
        }),
        o => Err(format!("operation {o}")),
    }
}
fn sym_env(ins: &[f64]) -> HashMap<String, f64> {
    NAMES.iter().zip(ins).map(|(n, v)| (n.to_string(), *v)).collect()
}
/// The gates in order along the first qubit, with their angle inputs
fn angles(h: &Hugr, main: Node) -> Vec<(Node, Vec<IncomingPort>)> {
    let [i, o] = h.get_io(main).unwrap();
    let mut v = vec![];
    let (mut n, mut p) = (i, OutgoingPort::from(0));
    loop {
        let Some((m, mp)) = h.single_linked_input(n, p) else { return v };
        if m == o {
            return v;
        }
        let a: Vec<IncomingPort> = h.in_value_types(m).filter(|(_, t)| t.copyable()).map(|(p, _)| p).collect();
        v.push((m, a));
        (n, p) = (m, OutgoingPort::from(mp.index()));
    }
}
fn source_value(h: &Hugr, n: Node, p: IncomingPort, ins: &[f64]) -> Result<f64, String> {
    let (s, sp) = h.single_linked_output(n, p).unwrap();
    wire(h, s, sp, ins)
}
/// is it the expression itself, kept as text
fn verbatim(h: &Hugr, n: Node, p: IncomingPort) -> Option<String> {
    let (mut s, _) = h.single_linked_output(n, p)?;
    while h.get_optype(s).as_extension_op().is_some_and(|e| e.def().name().contains("halfturns")) {
        s = h.single_linked_output(s, IncomingPort::from(0))?.0;
    }
    match h.get_optype(s).as_extension_op()?.args() {
        [TypeArg::String(x)] => Some(x.clone()),
        _ => None,
    }
}

// ---- import

const XY: [f64; 6] = [0.7, 0.3, 1.9, -0.45, 2.6, 0.15];
fn json_of(cmds: &[(String, Vec<String>)]) -> String {
    let c: Vec<J> = cmds.iter().map(|(op, ps)| json!({"args": [["q", [0]]], "op": {"type": op, "params": ps}})).collect();
    json!({"phase": "0", "bits": [], "qubits": [["q", [0]]], "implicit_permutation": [[["q", [0]], ["q", [0]]]], "commands": c}).to_string()
}
const NAMES: [&str; 6] = ["x", "y", "e", "e2", "max", "x1"];
fn decode(j: &str) -> Result<Circuit, String> {
    let o = DecodeOptions::new().with_input_params(NAMES.map(String::from));
    let c = load_tk1_json_str(j, o).map_err(|e| format!("not read: {e}"))?;
    c.hugr().validate().map_err(|e| format!("invalid: {e}"))?;
    Ok(c)
}
/// what becomes of one expression
fn judge(h: &Hugr, g: &(Node, Vec<IncomingPort>), e: &str, understood: bool) -> Result<(), String> {
    let [p] = g.1[..] else { return Err(format!("{} angles", g.1.len())) };
    let v = verbatim(h, g.0, p);
    if let Some(v) = &v {
        if v != e && (parse(e).is_none() || !matches!(parse(e), Some(E::Unknown(_)))) {
            return Err(format!("kept as {v:?}"));
        }
    }
    match parse(e) {
        None => match v {
            Some(_) => Ok(()),
            None => Err("is not an expression, but not kept as it is".into()),
        },
        Some(x) => {
            if v.is_some() && understood {
                return Err("is not understood".into());
            }
            let want = eval(&x, &sym_env(&XY));
            let got = source_value(h, g.0, p, &XY)?;
            if close(want, got) { Ok(()) } else { Err(format!("is {want}, read as {got}")) }
        }
    }
}
fn import(ctx: &Ctx, exprs: &[(String, bool)]) {
    if let Some(o) = ctx.only() {
        if !exprs.iter().any(|(e, _)| *e == o) {
            return;
        }
    }
    let cmds: Vec<_> = exprs.iter().map(|(e, _)| ("Rz".to_string(), vec![e.clone()])).collect();
    let r = std::panic::catch_unwind(|| {
        let c = decode(&json_of(&cmds))?;
        let out = save_tk1_json_str(&c, EncodeOptions::new()).map_err(|e| format!("not written: {e}"))?;
        Ok::<_, String>((c, out))
    });
    match r {
        Ok(Ok((c, out))) => {
            let h = c.hugr();
            let gs = angles(h, c.parent());
            let out: J = serde_json::from_str(&out).unwrap();
            let n = out["commands"].as_array().unwrap().len();
            if gs.len() != exprs.len() || n != gs.len() {
                ctx.fail(&exprs[0].0, &format!("{} gates for {} commands, {n} written", gs.len(), exprs.len()));
                return;
            }
            for (k, (e, u)) in exprs.iter().enumerate() {
                ctx.case(e, || {
                    judge(h, &gs[k], e, *u)?;
                    // and written again
                    let s = out["commands"][k]["op"]["params"][0].as_str().ok_or("no parameter written")?;
                    match (parse(e), parse(s)) {
                        (None, _) if s == e => Ok(()),
                        (Some(a), Some(b)) if close(eval(&a, &sym_env(&XY)), eval(&b, &sym_env(&XY))) => Ok(()),
                        _ => Err(format!("is written as {s:?}")),
                    }
                });
            }
            ctx.states(exprs.len() as u64);
            ctx.trans(h.num_nodes() as u64);
            ctx.traces(exprs.len() as u64);
        }
        // find out which one it is
        _ if exprs.len() > 1 => exprs.chunks(exprs.len().div_ceil(4)).for_each(|c| import(ctx, c)),
        Ok(Err(e)) => ctx.case(&exprs[0].0, || Err(e)),
        Err(_) => {
            let p = PANIC.with(|p| p.borrow().clone());
            ctx.case(&exprs[0].0, || Err(format!("panic: {p}")))
        }
    }
}
/// Every expression of n tokens
fn expressions(n: usize, operands: &[&str], prefix: &[&str], open: &[&str], infix: &[&str]) -> Vec<String> {
    let mut out = vec![];
    fn go(s: &mut Vec<String>, n: usize, want: bool, stack: &mut Vec<bool>, a: &(&[&str], &[&str], &[&str], &[&str]), out: &mut Vec<String>) {
        if s.len() == n {
            if !want && stack.is_empty() {
                out.push(s.concat());
            }
            return;
        }
        if s.len() + stack.len() + want as usize > n {
            return;
        }
        let with = |s: &mut Vec<String>, t: &str, want: bool, stack: &mut Vec<bool>, out: &mut Vec<String>| {
            s.push(t.to_string());
            go(s, n, want, stack, a, out);
            s.pop();
        };
        if want {
            for t in a.0 {
                with(s, t, false, stack, out);
            }
            for t in a.1 {
                with(s, t, true, stack, out);
            }
            for t in a.2 {
                stack.push(t.len() > 2);
                with(s, t, true, stack, out);
                stack.pop();
            }
        } else {
            for t in a.3 {
                with(s, t, true, stack, out);
            }
            if let Some(f) = stack.pop() {
                with(s, ")", false, stack, out);
                stack.push(f);
                if f {
                    with(s, ",", true, stack, out);
                }
            }
        }
    }
    go(&mut vec![], n, true, &mut vec![], &(operands, prefix, open, infix), &mut out);
    out
}

// ---- export

/// the parameters written for each gate of the program
fn export(ctx: &Ctx, text: &str, qs: bool) -> Result<(), String> {
    let (_, c) = circuit(text)?;
    let h = c.hugr();
    let gs = angles(h, c.parent());
    let opts = if qs { EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()) } else { EncodeOptions::new() };
    let out = save_tk1_json_str(&c, opts).map_err(|e| format!("not written: {e}"))?;
    let j: J = serde_json::from_str(&out).unwrap();
    let cmds = j["commands"].as_array().unwrap();
    if cmds.len() != gs.len() {
        return Err(format!("{} commands for {} gates: {}", cmds.len(), gs.len(), j["commands"]));
    }
    let env: HashMap<String, f64> = (0..3).map(|k| (format!("f{k}"), XY[k])).collect();
    ctx.states(1);
    let mut want_all = vec![];
    for (g, c) in gs.iter().zip(cmds) {
        let ps = c["op"]["params"].as_array().cloned().unwrap_or_default();
        if ps.len() != g.1.len() {
            return Err(format!("{} parameters for {} angles", ps.len(), g.1.len()));
        }
        for (p, s) in g.1.iter().zip(ps) {
            let s = s.as_str().ok_or("not a string")?;
            let mut want = source_value(h, g.0, *p, &XY)?;
            if h.get_optype(g.0).as_extension_op().unwrap().def().extension_id().to_string() == "tket.qsystem" {
                want /= std::f64::consts::PI;
            }
            let e = parse(s).ok_or_else(|| format!("{s:?} is not an expression"))?;
            let got = eval(&e, &env);
            if !close(want, got) {
                return Err(format!("the angle {want} is written as {s:?}, which is {got}"));
            }
            want_all.push(want);
            ctx.trans(1);
        }
    }
    // and read again
    let dopts = DecodeOptions::new().with_input_params(["f0", "f1", "f2"].map(String::from));
    let dopts = if qs { dopts.with_config(tket_qsystem::pytket::qsystem_decoder_config()) } else { dopts };
    let d = load_tk1_json_str(&out, dopts).map_err(|e| format!("not read again: {e}"))?;
    d.hugr().validate().map_err(|e| format!("read again: invalid: {e}"))?;
    let mut k = 0;
    for g in angles(d.hugr(), d.parent()) {
        let scale = if d.hugr().get_optype(g.0).as_extension_op().unwrap().def().extension_id().to_string() == "tket.qsystem" { std::f64::consts::PI } else { 1.0 };
        for p in g.1 {
            let got = source_value(d.hugr(), g.0, p, &XY).map_err(|e| format!("read again: {e}"))? / scale;
            if !want_all.get(k).is_some_and(|w| close(*w, got)) {
                return Err(format!("the angle {:?} is {got} after being written and read again", want_all.get(k)));
            }
            k += 1;
        }
    }
    ctx.traces(1);
    if k == want_all.len() { Ok(()) } else { Err("angles are lost when read again".into()) }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |a: usize, b: usize| if th { b } else { a };
    let mut all: Vec<(String, bool)> = vec![];
    // everything in the language
    for n in 1..=d(7, 8) {
        all.extend(expressions(n, &["2", "0.5", "x", "y"], &["-"], &["("], &["+", "-", "*", "/", "**"]).into_iter().map(|e| (e, true)));
    }
    for n in 1..=d(7, 8) {
        let small = n == d(7, 8);
        let (ops, opn, inf): (&[&str], &[&str], &[&str]) = if small { (&["x", "3"], &["(", "max(", "floor(", "sin("], &["-", "**", "*"]) } else { (&["x", "y", "pi", "1.5e1"], &["(", "max(", "min(", "abs(", "floor(", "ceil(", "round(", "sin(", "2("], &["+", "-", "*", "/", "**"]) };
        if n > 6 && !small {
            continue;
        }
        all.extend(expressions(n, ops, &["-"], opn, inf).into_iter().map(|e| (e, false)));
    }
    for n in 1..=d(6, 7) {
        all.extend(expressions(n, &["2x", "3 pi", "2", "y"], &["-"], &["2(", "("], &["+", "-", "*"]).into_iter().map(|e| (e, true)));
    }
    // with spaces
    let spaced: Vec<String> = (1..=4).flat_map(|n| expressions(n, &[" 2 ", "\tx", "y "], &[" - "], &[" ( ", "max ("], &["+", " -", " * ", "/\t", " ** "])).collect();
    all.extend(spaced.into_iter().map(|e| (e, false)));
    // any short text over the alphabet
    let toks = ["2", "x", "pi", "+", "-", "*", "**", "/", "(", ")", ",", "max(", "sin(", "()", " ", "^", ".5", "1.", "2e", "e2", "1e999", "0x1", "00", "max"];
    for n in 1..=d(4, 5) {
        all.extend(seqs(toks.len(), n).map(|s| (s.iter().map(|k| toks[*k]).collect::<String>(), false)));
    }
    // a power of an implicit product is read differently by different programs
    all.retain(|(e, _)| !(e.contains("**") && implicit_power(e)));
    // `understood` where any list says so
    all.sort_by(|a, b| (&a.0, !a.1).cmp(&(&b.0, !b.1)));
    all.dedup_by(|a, b| a.0 == b.0);
    for a in &mut all {
        a.1 &= parse(&a.0).is_some();
    }
    ctx.bound("expressions", all.len() as u64);
    ctx.bound("of them not in the language", all.iter().filter(|a| parse(&a.0).is_none()).count() as u64);
    let batches: Vec<&[(String, bool)]> = all.chunks(100).collect();
    ctx.par(batches.len(), |i| import(ctx, batches[i]));
    // constants of all sizes
    let mut nums: Vec<String> = ["0", "1", "-1", "0.1", "-0.25", "1e-7", "1.5e-12", "-3e10", "123456.789", "1e300", "0.3333333333333333"].iter().map(|s| s.to_string()).collect();
    // all of the multiples of pi that may be written in another way, and numbers near them
    let pi = std::f64::consts::PI;
    for d in [1, 2, 3, 4, 5, 6, 8] {
        for k in -9..=9i32 {
            let a = pi * k as f64 / d as f64;
            nums.extend([a, a + 1e-3, k as f64 / d as f64].map(|x| format!("{x}")));
        }
    }
    nums.sort();
    nums.dedup();
    let mut progs: Vec<(String, bool)> = vec![];
    for c in &nums {
        progs.push((format!("fn main(q0,a0)->(q0){{rot({c}) -> a1; Rz q0 a1; radd a0 a1 -> a1; Rx q0 a1}}"), false));
        progs.push((format!("fn main(q0,f0)->(q0){{f64({c}) -> f1; qsRz q0 f1; fadd f0 f1 -> f1; qsRz q0 f1}}"), true));
        progs.push((format!("fn main(q0,a0)->(q0){{to_halfturns a0 -> f0; f64({c}) -> f1; fmul f0 f1 -> f2; fdiv f0 f1 -> f0; from_halfturns_unchecked f2 -> a0; Rz q0 a0;from_halfturns_unchecked f0 -> a0; Rz q0 a0}}"), false));
    }
    // rotations computed at run time
    let rot = ["radd a0 a1 -> a0", "radd a1 a0 -> a1", "radd a0 a0 -> a1", "to_halfturns a0 -> f0", "from_halfturns_unchecked f0 -> a0", "fadd f0 f1 -> f1", "fsub f0 f1 -> f0", "fmul f0 f1 -> f0", "fdiv f1 f0 -> f1", "fneg f0 -> f0", "fpow f0 f1 -> f0", "fmax f0 f1 -> f1", "fmin f0 f1 -> f0", "fabs f0 -> f0", "ffloor f0 -> f0", "fceil f1 -> f1", "f64(1) -> f1", "f64(-0.5) -> f1", "Rz q0 a1", "f64(3.141592653589793) -> f1"];
    for n in 0..=d(4, 5) {
        progs.extend(programs("q0,a0,a1,f1", "", &rot, n, "Ry q0 a0").into_iter().map(|p| (p.replace("){", ")->(q0){"), false)));
    }
    let qs = ["fadd f0 f1 -> f1", "fsub f0 f1 -> f0", "fmul f0 f1 -> f0", "fdiv f1 f0 -> f1", "fneg f0 -> f0", "fpow f0 f1 -> f0", "fabs f0 -> f0", "f64(1) -> f1", "f64(3.141592653589793) -> f1", "f64(-0.5) -> f1", "fmax f0 f1 -> f1", "radd a0 a0 -> a0", "to_halfturns a0 -> f0", "PhasedX q0 f0 f1", "qsRz q0 f1"];
    for n in 0..=d(4, 5) {
        progs.extend(programs("q0,f0,f1,a0", "", &qs, n, "qsRz q0 f0").into_iter().map(|p| (p.replace("){", ")->(q0){"), true)));
    }
    ctx.bound("programs written", progs.len() as u64);
    ctx.par(progs.len(), |i| {
        let (p, q) = &progs[i];
        ctx.case(p, || export(ctx, p, *q));
    });
}
/// is an implicit product next to a power
fn implicit_power(e: &str) -> bool {
    let Some(t) = lex(e) else { return false };
    (1..t.len()).any(|k| matches!(t[k - 1].0, Tok::Num(_)) && matches!(t[k].0, Tok::Id(_) | Tok::Op("(")))
}
