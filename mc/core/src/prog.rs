//! A tiny textual language for HUGR programs. Every enumerated program is a string in it, so every
//! reported case can be replayed from its text. Values live in named slots; the leading letters of a
//! slot name give its type:
//!   q qubit, b bool (sum), t tket.bool, a rotation, f float64, i int<6>, j int<5>, I<w> int<w> (one digit), u usize, m future<bool>, n future<int<6>>,
//!   S string, E error, O<ty> option, P<ty><ty> pair, T<n><ty..> tuple, A<n><ty> borrow_array, V<n><ty> array,
//!   W<n><ty> value_array, H<ty> static_array
//! Linear slots are consumed by use; an op without `->` puts its linear results back in the linear slots it used.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, LazyLock};
use tket::extension::bool::{bool_type, ConstBool};
use tket::extension::rotation::{rotation_type, ConstRotation};
use tket::hugr::builder::*;
use tket::hugr::extension::prelude::{
    UnwrapBuilder, bool_t, error_type, option_type, qb_t, string_type, usize_t, Barrier, ConstError, ConstString, ConstUsize,
    MakeTuple, Noop, UnpackTuple,
};
use tket::hugr::extension::{Extension, ExtensionId, ExtensionRegistry, Version};
use tket::hugr::ops::handle::{FuncID, NodeHandle};
use tket::hugr::ops::{ExtensionOp, OpType, Value};
use tket::hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use tket::hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt};
use tket::hugr::std_extensions::collections::array::array_type;
use tket::hugr::std_extensions::collections::borrow_array::borrow_array_type;
use tket::hugr::std_extensions::collections::static_array::{static_array_type, StaticArrayValue};
use tket::hugr::std_extensions::collections::value_array::value_array_type;
use tket::hugr::types::{Signature, SumType, Type, TypeArg, TypeRow};
use tket::hugr::{Hugr, Node, Wire};
use tket_qsystem::extension::futures::future_type;
use tket_qsystem::extension::gpu as qe_gpu;

pub type Res<T> = Result<T, String>;
fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Op { name: String, params: String, ins: Vec<String>, outs: Option<Vec<String>> },
    If { cond: String, els: Vec<St>, thn: Vec<St> },
    Cfg { cond: String, els: Vec<St>, thn: Vec<St> },
    Dfg { body: Vec<St>, nonlocal: bool },
    /// a loop; with `carry`, classical slots are carried in the loop's own sum instead of beside it
    Until { cond: String, body: Vec<St>, carry: bool },
    /// a control-flow graph of one block
    Blk { body: Vec<St> },
    Call { f: String, ins: Vec<String>, outs: Option<Vec<String>> },
    /// modifiers applied to function f: c<n> = control over n qubits, d = dagger
    Mod { mods: Vec<String>, f: String, ins: Vec<String>, outs: Option<Vec<String>> },
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ins: Vec<String>,
    pub outs: Option<Vec<String>>,
    pub body: Vec<St>,
    pub decl: bool,
    pub flags: Option<u64>,
    /// `-> (*)`: every live slot is returned
    pub all_outs: bool,
}

// ---------------------------------------------------------------- types
pub fn slot_type(s: &str) -> Res<Type> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    parse_ty(&cs, &mut i)
}
fn num(cs: &[char], i: &mut usize) -> u64 {
    let mut n = 0;
    while *i < cs.len() && cs[*i].is_ascii_digit() {
        n = n * 10 + cs[*i] as u64 - '0' as u64;
        *i += 1;
    }
    n
}
fn parse_ty(cs: &[char], i: &mut usize) -> Res<Type> {
    let c = *cs.get(*i).ok_or("bad slot type")?;
    *i += 1;
    Ok(match c {
        'q' => qb_t(),
        'b' => bool_t(),
        't' => bool_type(),
        'a' => rotation_type(),
        'f' => float64_type(),
        'i' => int_type(6),
        'u' => usize_t(),
        'm' => future_type(bool_t()),
        'n' => future_type(int_type(6)),
        'j' => int_type(5),
        'I' => {
            let w = cs.get(*i).and_then(|c| c.to_digit(10)).ok_or("width")?;
            *i += 1;
            int_type(w as u64)
        }
        'S' => string_type(),
        'E' => error_type(),
        'O' => option_type(vec![parse_ty(cs, i)?]).into(),
        'U' => Type::from(SumType::new_unary(2)),
        'P' => {
            let x = parse_ty(cs, i)?;
            let y = parse_ty(cs, i)?;
            Type::new_tuple(vec![x, y])
        }
        'L' => {
            let x = parse_ty(cs, i)?;
            let y = parse_ty(cs, i)?;
            tket::hugr::extension::prelude::either_type(vec![x], vec![y]).into()
        }
        'X' => {
            let n = num(cs, i);
            let v = (0..n).map(|_| parse_ty(cs, i)).collect::<Res<Vec<_>>>()?;
            option_type(v).into()
        }
        'Y' => {
            let n = num(cs, i);
            let v = (0..n).map(|_| parse_ty(cs, i)).collect::<Res<Vec<_>>>()?;
            tket::hugr::extension::prelude::either_type(v.clone(), v).into()
        }
        'T' => {
            let n = num(cs, i);
            let v = (0..n).map(|_| parse_ty(cs, i)).collect::<Res<Vec<_>>>()?;
            Type::new_tuple(v)
        }
        'A' => {
            let n = num(cs, i);
            borrow_array_type(n, parse_ty(cs, i)?)
        }
        'V' => {
            let n = num(cs, i);
            array_type(n, parse_ty(cs, i)?)
        }
        'W' => {
            let n = num(cs, i);
            value_array_type(n, parse_ty(cs, i)?)
        }
        'H' => static_array_type(parse_ty(cs, i)?),
        'g' => {
            let d = REG.get("tket.qsystem.random").unwrap().get_type("context").ok_or("rng type")?.clone();
            Type::new_extension(d.instantiate(vec![]).map_err(e)?)
        }
        // GPU: context, module, function K<n><inputs><output>, result R<output>; output i, f or v(oid)
        'c' | 'M' | 'K' | 'R' => {
            let mut args: Vec<TypeArg> = vec![];
            if c == 'K' {
                let n = num(cs, i);
                let v = (0..n).map(|_| Ok(parse_ty(cs, i)?.into())).collect::<Res<Vec<TypeArg>>>()?;
                args.push(TypeArg::List(v));
            }
            if c == 'K' || c == 'R' {
                args.push(TypeArg::List(match cs.get(*i) {
                    Some('v') => {
                        *i += 1;
                        vec![]
                    }
                    _ => vec![parse_ty(cs, i)?.into()],
                }));
            }
            let n = match c {
                'c' => "context",
                'M' => "module",
                'K' => "func",
                _ => "result",
            };
            let d = REG.get("tket.gpu").unwrap().get_type(n).ok_or("gpu type")?.clone();
            Type::new_extension(d.instantiate(args).map_err(e)?)
        }
        c => return Err(format!("slot type letter {c}")),
    })
}
pub fn slot_linear(s: &str) -> bool {
    !slot_type(s).map(|t| t.copyable()).unwrap_or(true)
}

// ---------------------------------------------------------------- parser
struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
}
fn lex(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\n' | b',' => i += 1,
            b'{' | b'}' | b';' => {
                v.push(&s[i..i + 1]);
                i += 1
            }
            _ => {
                let st = i;
                let mut par = 0;
                while i < b.len() {
                    match b[i] {
                        b'(' => par += 1,
                        b')' => par -= 1,
                        b' ' | b'\n' | b',' | b'{' | b'}' | b';' if par == 0 => break,
                        _ => {}
                    }
                    i += 1;
                }
                v.push(&s[st..i]);
            }
        }
    }
    v
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a str> {
        self.t.get(self.i).copied()
    }
    fn next(&mut self) -> Res<&'a str> {
        let x = self.peek().ok_or("unexpected end of program")?;
        self.i += 1;
        Ok(x)
    }
    fn expect(&mut self, s: &str) -> Res<()> {
        let x = self.next()?;
        if x == s {
            Ok(())
        } else {
            Err(format!("expected {s}, got {x}"))
        }
    }
    fn block(&mut self) -> Res<Vec<St>> {
        self.expect("{")?;
        let mut v = vec![];
        while self.peek() != Some("}") {
            if self.peek() == Some(";") {
                self.i += 1;
                continue;
            }
            v.push(self.stmt()?);
        }
        self.expect("}")?;
        Ok(v)
    }
    fn args(&mut self) -> (Vec<String>, Option<Vec<String>>) {
        let mut ins = vec![];
        let mut outs = None;
        while let Some(t) = self.peek() {
            if t == ";" || t == "}" || t == "{" {
                break;
            }
            self.i += 1;
            if t == "->" {
                outs = Some(vec![]);
            } else if let Some(o) = outs.as_mut() {
                o.push(t.to_string());
            } else {
                ins.push(t.to_string());
            }
        }
        (ins, outs)
    }
    fn stmt(&mut self) -> Res<St> {
        let t = self.next()?;
        Ok(match t {
            "if" | "cfg" => {
                let cond = self.next()?.to_string();
                let thn = self.block()?;
                let els = if self.peek() == Some("else") {
                    self.i += 1;
                    self.block()?
                } else {
                    vec![]
                };
                if t == "if" {
                    St::If { cond, els, thn }
                } else {
                    St::Cfg { cond, els, thn }
                }
            }
            "dfg" => St::Dfg { body: self.block()?, nonlocal: false },
            "dfgx" => St::Dfg { body: self.block()?, nonlocal: true },
            "blk" => St::Blk { body: self.block()? },
            "until" | "untilc" => {
                let cond = self.next()?.to_string();
                St::Until { cond, body: self.block()?, carry: t == "untilc" }
            }
            "call" => {
                let f = self.next()?.to_string();
                let (ins, outs) = self.args();
                St::Call { f, ins, outs }
            }
            "mod" => {
                let mut mods = vec![];
                loop {
                    let x = self.next()?;
                    if x == ":" {
                        break;
                    }
                    mods.push(x.to_string());
                }
                let f = self.next()?.to_string();
                let (ins, outs) = self.args();
                St::Mod { mods, f, ins, outs }
            }
            _ => {
                let (name, params) = match t.find('(') {
                    Some(k) if t.ends_with(')') => (t[..k].to_string(), t[k + 1..t.len() - 1].to_string()),
                    _ => (t.to_string(), String::new()),
                };
                let (ins, outs) = self.args();
                St::Op { name, params, ins, outs }
            }
        })
    }
}
pub fn parse(s: &str) -> Res<Vec<Func>> {
    let s = s.replace(")->(", ") -> (").replace(")@", ") @");
    let mut p = P { t: lex(&s), i: 0 };
    let mut fs = vec![];
    while p.peek().is_some() {
        let kw = p.next()?;
        let decl = kw == "decl";
        if kw != "fn" && !decl {
            return Err(format!("expected fn, got {kw}"));
        }
        let hd = p.next()?;
        let k = hd.find('(').ok_or("fn header")?;
        let split = |s: &str| -> Vec<String> {
            s.split([',', ' ']).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
        };
        let name = hd[..k].to_string();
        let ins = split(&hd[k + 1..hd.len() - 1]);
        let mut outs = None;
        if p.peek() == Some("->") {
            p.i += 1;
            let o = p.next()?;
            outs = Some(split(&o[1..o.len() - 1]));
        }
        let mut flags = None;
        if let Some(x) = p.peek() {
            if let Some(n) = x.strip_prefix('@') {
                flags = n.parse().ok();
                p.i += 1;
            }
        }
        let body = if decl { vec![] } else { p.block()? };
        let all_outs = outs == Some(vec!["*".to_string()]);
        fs.push(Func { name, ins, outs, body, decl, flags, all_outs });
    }
    Ok(fs)
}

// ---------------------------------------------------------------- liveness on names
fn outs_or<'a>(outs: &'a Option<Vec<String>>, ins: &[String]) -> Vec<String> {
    outs.clone().unwrap_or_else(|| ins.iter().filter(|x| slot_linear(x)).cloned().collect())
}
/// Environment after `st`, or an error if a slot is missing / overwritten while live and linear.
pub fn flow(env: &mut BTreeSet<String>, sts: &[St], used: &mut BTreeSet<String>) -> Res<()> {
    for s in sts {
        match s {
            St::Op { ins, outs, .. } | St::Call { ins, outs, .. } | St::Mod { ins, outs, .. } => {
                for i in ins {
                    if !env.contains(i) {
                        return Err(format!("SKIP slot {i} not live"));
                    }
                    used.insert(i.clone());
                    if slot_linear(i) {
                        env.remove(i);
                    }
                }
                for o in outs_or(outs, ins) {
                    if slot_linear(&o) && env.contains(&o) {
                        return Err(format!("SKIP slot {o} overwritten"));
                    }
                    used.insert(o.clone());
                    env.insert(o);
                }
            }
            St::If { cond, els, thn } | St::Cfg { cond, els, thn } => {
                if !env.contains(cond) {
                    return Err(format!("SKIP cond {cond} not live"));
                }
                used.insert(cond.clone());
                let mut e1 = env.clone();
                let mut e2 = env.clone();
                flow(&mut e1, els, used)?;
                flow(&mut e2, thn, used)?;
                for d in e1.symmetric_difference(&e2) {
                    if slot_linear(d) {
                        return Err("SKIP branches disagree on linear slots".into());
                    }
                }
                *env = e1.intersection(&e2).cloned().collect();
            }
            St::Dfg { body, .. } | St::Blk { body } => flow(env, body, used)?,
            St::Until { cond, body, .. } => {
                let mut e1 = env.clone();
                flow(&mut e1, body, used)?;
                used.insert(cond.clone());
                if !e1.contains(cond) {
                    return Err("SKIP loop cond".into());
                }
                // loop-carried slots must be live before and after
                for d in env.symmetric_difference(&e1) {
                    if slot_linear(d) {
                        return Err("SKIP loop changes linear slots".into());
                    }
                }
                let keep: BTreeSet<String> = env.intersection(&e1).cloned().collect();
                *env = keep;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- ops
pub static MC: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new("mc").unwrap(), Version::new(0, 1, 0), |ext, r| {
        let q = qb_t;
        let b = bool_t;
        for (n, row) in [
            ("opq1", vec![q()]),
            ("opq2", vec![q(), q()]),
            ("opq1b", vec![q()]),
            ("opqb", vec![q(), b()]),
            ("opb", vec![b()]),
            ("opa", vec![rotation_type()]),
            ("opqa", vec![q(), rotation_type()]),
            ("opq3", vec![q(), q(), q()]),
        ] {
            ext.add_op(n.into(), "opaque".into(), Signature::new_endo(row), r).unwrap();
        }
        // an operation of any type
        use tket::hugr::types::{FuncValueType, PolyFuncTypeRV, TypeBound, TypeRV, type_param::TypeParam};
        let row = |i| TypeRV::new_row_var_use(i, TypeBound::Linear);
        let sig = PolyFuncTypeRV::new([TypeParam::new_list_type(TypeBound::Linear), TypeParam::new_list_type(TypeBound::Linear)], FuncValueType::new(row(0), row(1)));
        ext.add_op("mark".into(), "opaque".into(), sig, r).unwrap();
    })
});
pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    use tket::extension as te;
    use tket_qsystem::extension as qe;
    let v: Vec<Arc<Extension>> = vec![
        te::TKET_EXTENSION.clone(),
        te::TKET1_EXTENSION.clone(),
        te::bool::BOOL_EXTENSION.clone(),
        te::rotation::ROTATION_EXTENSION.clone(),
        te::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        te::modifier::MODIFIER_EXTENSION.clone(),
        te::guppy::GUPPY_EXTENSION.clone(),
        te::debug::DEBUG_EXTENSION.clone(),
        qe::futures::EXTENSION.clone(),
        qe::qsystem::EXTENSION.clone(),
        qe::random::EXTENSION.clone(),
        qe::result::EXTENSION.clone(),
        qe::utils::EXTENSION.clone(),
        qe::gpu::EXTENSION.clone(),
        MC.clone(),
    ];
    ExtensionRegistry::new(v.into_iter().chain(tket::hugr::std_extensions::std_reg().iter().cloned()))
});
pub fn ext_op(ext: &str, name: &str, args: Vec<TypeArg>) -> Res<OpType> {
    let x = REG.get(ext).ok_or(format!("no extension {ext}"))?;
    let d = x.get_op(name).ok_or(format!("no op {ext}.{name}"))?;
    Ok(ExtensionOp::new(d.clone(), args).map_err(e)?.into())
}
fn arr_parts(t: &Type) -> Option<(u64, Type)> {
    let c = t.as_extension()?;
    match c.args() {
        [n, ty] => {
            let TypeArg::BoundedNat(n) = n else { return None };
            let TypeArg::Runtime(ty) = ty else { return None };
            Some((*n, ty.clone()))
        }
        _ => None,
    }
}

fn width(t: &Type) -> TypeArg {
    TypeArg::BoundedNat((0..6).find(|w| *t == int_type(*w)).unwrap_or(6))
}
pub enum Made {
    /// the op, and constants appended to its inputs
    Op(OpType, Vec<Value>),
    Const(Value),
    /// expanded into several nodes
    Wires(Vec<Wire>),
}

fn fl(p: &str) -> Res<Vec<f64>> {
    p.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse::<f64>().map_err(e)).collect()
}

/// A constant of type `ty` whose booleans are taken from `bs`
fn bit_value(ty: &Type, bs: &mut dyn Iterator<Item = bool>) -> Res<Value> {
    if *ty == bool_t() {
        return Ok(Value::from_bool(bs.next().ok_or("bits")?));
    }
    if *ty == bool_type() {
        return Ok(ConstBool::new(bs.next().ok_or("bits")?).into());
    }
    if let Some(s) = ty.as_sum() {
        // the last variant
        let k = s.num_variants() - 1;
        let row: TypeRow = s.get_variant(k).unwrap().clone().try_into().map_err(e)?;
        let v = row.iter().map(|t| bit_value(t, bs)).collect::<Res<Vec<_>>>()?;
        return Value::sum(k, v, s.clone()).map_err(e);
    }
    if let Some((n, t)) = arr_parts(ty) {
        let v = (0..n).map(|_| bit_value(&t, bs)).collect::<Res<Vec<_>>>()?;
        return Ok(tket::hugr::std_extensions::collections::array::ArrayValue::new(t, v).into());
    }
    let t = ty.as_extension().and_then(|c| c.args()[0].as_runtime()).ok_or("static array element")?;
    let v = (0..2).map(|_| bit_value(&t, bs)).collect::<Res<Vec<_>>>()?;
    Ok(StaticArrayValue::try_new("sarr_in", t, v).map_err(e)?.into())
}
pub fn make_op(name: &str, params: &str, ins: &[Type], outs: &[Type]) -> Res<Made> {
    use Made::*;
    let rots = |k: usize| -> Res<Vec<Value>> {
        let v = fl(params)?;
        if !v.is_empty() && v.len() != k {
            return Err("angle count".into());
        }
        v.into_iter().map(|x| ConstRotation::new(x).map(|c| c.into()).map_err(e)).collect()
    };
    let floats = || -> Res<Vec<Value>> { Ok(fl(params)?.into_iter().map(|x| ConstF64::new(x).into()).collect()) };
    let plain = |ext: &str, n: &str| -> Res<Made> { Ok(Op(ext_op(ext, n, vec![])?, vec![])) };
    let arr = |ext: &str, n: &str, a: &Type| -> Res<Made> {
        let (k, t) = arr_parts(a).ok_or("array expected")?;
        Ok(Op(ext_op(ext, n, vec![TypeArg::BoundedNat(k), t.into()])?, vec![]))
    };
    let arr_ext = |t: &Type| -> Res<String> {
        Ok(t.as_extension().ok_or("array expected")?.extension().to_string())
    };
    Ok(match name {
        "H" | "X" | "Y" | "Z" | "S" | "Sdg" | "T" | "Tdg" | "V" | "Vdg" | "CX" | "CY" | "CZ" | "Toffoli"
        | "Measure" | "MeasureFree" | "QAlloc" | "TryQAlloc" | "QFree" | "Reset" => plain("tket.quantum", name)?,
        "Rx" | "Ry" | "Rz" | "CRz" => Op(ext_op("tket.quantum", name, vec![])?, rots(1)?),
        "phase" => Op(ext_op("tket.global_phase", "global_phase", vec![])?, rots(1)?),
        "read" | "make_opaque" | "teq" | "tnot" | "tand" | "tor" | "txor" => {
            plain("tket.bool", name.strip_prefix('t').unwrap_or(name))?
        }
        "And" | "Or" | "Not" | "Xor" | "Eq" => plain("logic", name)?,
        "from_halfturns" | "from_halfturns_unchecked" | "to_halfturns" | "radd" => plain("tket.rotation", name)?,
        "fadd" | "fsub" | "fmul" | "fdiv" | "fneg" | "flt" | "feq" | "fpow" | "fabs" | "fmax" | "fmin" | "ffloor" | "fceil" => {
            plain("arithmetic.float", name)?
        }
        "iadd" | "isub" | "imul" | "ieq" | "ine" | "ilt_u" | "ilt_s" | "ineg" | "imod_u" | "idiv_u" | "idiv_s" | "imod_s" | "iand" | "ior" | "ixor" => {
            Op(ext_op("arithmetic.int", name, vec![TypeArg::BoundedNat(6)])?, vec![])
        }
        "convert_u" | "convert_s" | "trunc_u" | "trunc_s" => {
            Op(ext_op("arithmetic.conversions", name, vec![TypeArg::BoundedNat(6)])?, vec![])
        }
        "itousize" | "ifromusize" => plain("arithmetic.conversions", name)?,
        "pack" => Op(MakeTuple::new(ins.to_vec().into()).into(), vec![]),
        "unpack" => {
            let s = ins[0].as_sum().ok_or("tuple expected")?;
            let row: TypeRow = s.as_tuple().ok_or("tuple")?.clone().try_into().map_err(e)?;
            Op(UnpackTuple::new(row).into(), vec![])
        }
        "tag" => {
            let t: usize = params.parse().map_err(e)?;
            let s = outs[0].as_sum().ok_or("sum out")?;
            let rows: Vec<TypeRow> =
                (0..s.num_variants()).map(|k| s.get_variant(k).unwrap().clone().try_into().unwrap()).collect();
            Op(tket::hugr::ops::Tag::new(t, rows).into(), vec![])
        }
        "noop" => Op(Noop::new(ins[0].clone()).into(), vec![]),
        "barrier" => Op(Barrier::new(ins.to_vec()).into(), vec![]),
        "drop" => Op(ext_op("tket.guppy", "drop", vec![ins[0].clone().into()])?, vec![]),
        "res_bool" => Op(ext_op("tket.result", "result_bool", vec![TypeArg::String(params.into())])?, vec![]),
        "res_int" | "res_uint" => Op(
            ext_op("tket.result", &name.replace("res", "result"), vec![TypeArg::String(params.into()), width(&ins[0])])?,
            vec![],
        ),
        "res_f64" => Op(ext_op("tket.result", "result_f64", vec![TypeArg::String(params.into())])?, vec![]),
        "res_arr" | "res_uarr" => {
            let (k, t) = arr_parts(&ins[0]).ok_or("array")?;
            let mut args = vec![TypeArg::String(params.into()), TypeArg::BoundedNat(k)];
            let n = if t == bool_t() {
                "result_array_bool"
            } else if t == float64_type() {
                "result_array_f64"
            } else {
                args.push(width(&t));
                if name == "res_uarr" { "result_array_uint" } else { "result_array_int" }
            };
            Op(ext_op("tket.result", n, args)?, vec![])
        }
        "state" => {
            let (k, _) = arr_parts(&ins[0]).ok_or("array")?;
            Op(ext_op("tket.debug", "StateResult", vec![TypeArg::String(params.into()), TypeArg::BoundedNat(k)])?, vec![])
        }
        "panic" | "exit" => {
            let args = |t: &[Type]| TypeArg::List(t.iter().map(|x| x.clone().into()).collect());
            let err = ConstError::new(7, params);
            let _ = err;
            Op(ext_op("prelude", name, vec![args(&ins[1..]), args(outs)])?, vec![])
        }
        "err" => {
            let (a, b) = params.split_once(',').unwrap_or(("1", params));
            Const(ConstError::new(a.parse().map_err(e)?, b).into())
        }
        "str" => Const(ConstString::new(params.to_string()).into()),
        "true" => Const(Value::true_val()),
        "false" => Const(Value::false_val()),
        "ttrue" => Const(ConstBool::new(true).into()),
        "tfalse" => Const(ConstBool::new(false).into()),
        "rot" => Const(ConstRotation::new(params.parse().map_err(e)?).map_err(e)?.into()),
        "f64" => Const(ConstF64::new(params.parse().map_err(e)?).into()),
        "int" => Const(ConstInt::new_u(6, params.parse::<i64>().map_err(e)? as u64).map_err(e)?.into()),
        "intw" => {
            let (w, x) = params.split_once(',').ok_or("intw")?;
            Const(ConstInt::new_u(w.parse().map_err(e)?, x.parse().map_err(e)?).map_err(e)?.into())
        }
        "int5" => Const(ConstInt::new_u(5, params.parse().map_err(e)?).map_err(e)?.into()),
        "widen_u" | "widen_s" => Op(ext_op("arithmetic.int", &format!("i{name}"), vec![TypeArg::BoundedNat(5), TypeArg::BoundedNat(6)])?, vec![]),
        "u" => Const(ConstUsize::new(params.parse().map_err(e)?).into()),
        "sarr" => {
            // static array of bools given as string of 0/1: sarr(t:0110) or sarr(b:01)
            let (k, bits) = params.split_once(':').ok_or("sarr")?;
            // element type by slot letters; the bits fill its booleans in order
            let ty = slot_type(k)?;
            let mut bs = bits.chars().map(|c| c == '1').peekable();
            let mut vals = vec![];
            while bs.peek().is_some() {
                vals.push(bit_value(&ty, &mut bs)?);
            }
            Const(StaticArrayValue::try_new("sarr", ty, vals).map_err(e)?.into())
        }
        "sget" => {
            let c = ins[0].as_extension().ok_or("static array")?;
            Op(ext_op("collections.static_array", "get", vec![c.args()[0].clone()])?, vec![])
        }
        "slen" => {
            let c = ins[0].as_extension().ok_or("static array")?;
            Op(ext_op("collections.static_array", "len", vec![c.args()[0].clone()])?, vec![])
        }
        // arrays: kind from the output/input type
        "anew" => {
            let (k, t) = arr_parts(&outs[0]).ok_or("array out")?;
            Op(ext_op(&arr_ext(&outs[0])?, "new_array", vec![TypeArg::BoundedNat(k), t.into()])?, vec![])
        }
        "aget" | "aset" | "aswap" | "aunpack" | "aclone" | "adiscard" | "apop_left" | "apop_right" | "adiscard_empty" => {
            let n = &name[1..];
            let (k, t) = arr_parts(&ins[0]).ok_or("array")?;
            let mut args = vec![TypeArg::BoundedNat(k), t.into()];
            if n == "discard_empty" {
                args.remove(0);
            }
            Op(ext_op(&arr_ext(&ins[0])?, n, args)?, vec![])
        }
        "borrow" | "return" | "is_borrowed" | "discard_all_borrowed" => arr("collections.borrow_arr", name, &ins[0])?,
        "new_all_borrowed" => arr("collections.borrow_arr", name, &outs[0])?,
        "b2a" => arr("collections.borrow_arr", "to_array", &ins[0])?,
        "a2b" => arr("collections.borrow_arr", "from_array", &ins[0])?,
        "opq1" | "opq2" | "opq3" | "opq1b" | "opqb" | "opb" | "opa" | "opqa" => plain("mc", name)?,
        // native
        "qsRz" | "PhasedX" | "ZZPhase" => {
            Op(ext_op("tket.qsystem", name.trim_start_matches("qs"), vec![])?, floats()?)
        }
        "qsMeasure" | "LazyMeasure" | "LazyMeasureReset" | "qsTryQAlloc" | "qsQFree" | "qsReset" | "MeasureReset"
        | "LazyMeasureLeaked" => plain("tket.qsystem", name.trim_start_matches("qs"))?,
        "rtbarrier" => {
            let (k, _) = arr_parts(&ins[0]).ok_or("array")?;
            Op(ext_op("tket.qsystem", "RuntimeBarrier", vec![TypeArg::BoundedNat(k)])?, vec![])
        }
        "not" => plain("logic", "Not")?,
        "Read" | "Dup" | "Free" => {
            let t = ins[0].as_extension().ok_or("future")?.args()[0].clone();
            Op(ext_op("tket.futures", name, vec![t])?, vec![])
        }
        "gmod" => Const(qe_gpu::ConstGpuModule { module_filename: "m".into(), config_filename: None }.into()),
        "gctx" => plain("tket.gpu", "get_context")?,
        "gdispose" => plain("tket.gpu", "dispose_context")?,
        "glookup" | "glookid" | "gcall" | "gread" => {
            let t = if name.starts_with("glook") { &outs[0] } else { &ins[ins.len().min(2) - 1] };
            let mut args = vec![];
            let n = match name {
                "glookup" => {
                    args.push(TypeArg::String(params.into()));
                    "lookup_by_name"
                }
                "glookid" => {
                    args.push(TypeArg::BoundedNat(params.parse().map_err(e)?));
                    "lookup_by_id"
                }
                "gcall" => "call",
                _ => "read_result",
            };
            let t = if name == "gcall" { &ins[1] } else { t };
            args.extend(t.as_extension().ok_or("gpu type")?.args().iter().cloned());
            Op(ext_op("tket.gpu", n, args)?, vec![])
        }
        "shot" => plain("tket.qsystem.utils", "GetCurrentShot")?,
        "NewRNGContext" | "DeleteRNGContext" | "RandomInt" | "RandomFloat" | "RandomIntBounded" | "RandomAdvance" => {
            plain("tket.qsystem.random", name)?
        }
        _ => return Err(format!("unknown op {name}")),
    })
}

// ---------------------------------------------------------------- building
struct Fn_ {
    id: FuncID<true>,
    decl_id: Option<FuncID<false>>,
    ins: Vec<Type>,
    outs: Vec<Type>,
}
pub struct Built {
    pub hugr: Hugr,
    pub main: Node,
    pub funcs: HashMap<String, Node>,
    /// output slots of main
    pub outs: Vec<String>,
}
type Env = BTreeMap<String, Wire>;
struct B {
    fns: HashMap<String, Fn_>,
}

fn live_sorted(env: &BTreeSet<String>) -> Vec<String> {
    env.iter().cloned().collect()
}
fn tys(v: &[String]) -> Res<Vec<Type>> {
    v.iter().map(|s| slot_type(s)).collect()
}

impl B {
    fn take(env: &mut Env, s: &str) -> Res<Wire> {
        let w = *env.get(s).ok_or(format!("SKIP slot {s} not live"))?;
        if slot_linear(s) {
            env.remove(s);
        }
        Ok(w)
    }
    fn body<D: Dataflow>(&self, d: &mut D, env: &mut Env, sts: &[St]) -> Res<()> {
        for s in sts {
            self.stmt(d, env, s)?;
        }
        Ok(())
    }
    fn region_io(env: &Env, bodies: &[&[St]], extra: &[String]) -> Res<(Vec<String>, Vec<String>)> {
        let start: BTreeSet<String> = env.keys().cloned().collect();
        let mut used: BTreeSet<String> = extra.iter().cloned().collect();
        let mut end: Option<BTreeSet<String>> = None;
        for b in bodies {
            let mut en = start.clone();
            flow(&mut en, b, &mut used)?;
            end = Some(match end {
                None => en,
                Some(x) => x.intersection(&en).cloned().collect(),
            });
        }
        let end = end.unwrap();
        let ins = used.iter().filter(|x| start.contains(*x)).cloned().collect();
        // outputs: linear slots used, and non-linear slots written by all bodies
        let written: BTreeSet<String> = bodies.iter().flat_map(|b| writes(b)).collect();
        let outs = used
            .iter()
            .filter(|x| end.contains(*x) && (slot_linear(x) || written.contains(*x)))
            .cloned()
            .collect();
        Ok((ins, outs))
    }
    fn stmt<D: Dataflow>(&self, d: &mut D, env: &mut Env, s: &St) -> Res<()> {
        match s {
            St::Op { name, params, ins, outs } => {
                let out_slots = outs_or(outs, ins);
                let it = tys(ins)?;
                let ot = tys(&out_slots)?;
                let mut ws = vec![];
                for i in ins {
                    ws.push(Self::take(env, i)?);
                }
                let res: Vec<Wire> = match name.as_str() {
                    // the value in the last variant, which must be there
                    "unwrap" => {
                        let s = it[0].as_sum().ok_or("sum")?.clone();
                        d.build_unwrap_sum::<1>(s.num_variants() - 1, s, ws[0]).map_err(e)?.to_vec()
                    }
                    _ => match make_op(name, params, &it, &ot)? {
                    Made::Const(v) => vec![d.add_load_value(v)],
                    Made::Op(op, cs) => {
                        for c in cs {
                            ws.push(d.add_load_value(c));
                        }
                        d.add_dataflow_op(op, ws).map_err(e)?.outputs().collect()
                    }
                    Made::Wires(w) => w,
                    },
                };
                if res.len() < out_slots.len() {
                    return Err(format!("{name}: {} results for {} slots", res.len(), out_slots.len()));
                }
                for (o, w) in out_slots.iter().zip(res) {
                    if slot_linear(o) && env.contains_key(o) {
                        return Err(format!("SKIP slot {o} overwritten"));
                    }
                    env.insert(o.clone(), w);
                }
            }
            St::Call { f, ins, outs } => {
                let fi = self.fns.get(f).ok_or(format!("no fn {f}"))?;
                let out_slots = outs_or(outs, ins);
                let mut ws = vec![];
                for i in ins {
                    ws.push(Self::take(env, i)?);
                }
                let h = match &fi.decl_id {
                    Some(x) => d.call(x, &[], ws),
                    None => d.call(&fi.id, &[], ws),
                }
                .map_err(e)?;
                for (o, w) in out_slots.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::Mod { mods, f, ins, outs } => {
                let fi = self.fns.get(f).ok_or(format!("no fn {f}"))?;
                let out_slots = outs_or(outs, ins);
                let mut w = match &fi.decl_id {
                    Some(x) => d.load_func(x, &[]),
                    None => d.load_func(&fi.id, &[]),
                }
                .map_err(e)?;
                let mut it = fi.ins.clone();
                let mut ot = fi.outs.clone();
                for m in mods {
                    let list = |v: &[Type]| TypeArg::List(v.iter().map(|x| x.clone().into()).collect());
                    // Guppy convention: the modified function maps (endo row, other inputs) -> endo row
                    let k = ot.len();
                    if it.len() < k || it[..k] != ot[..] {
                        return Err("SKIP not an endofunction".into());
                    }
                    if let Some(n) = m.strip_prefix('c') {
                        let n: u64 = n.parse().map_err(e)?;
                        let op = ext_op(
                            "tket.modifier",
                            "ControlModifier",
                            vec![TypeArg::BoundedNat(n), list(&it[..k]), list(&it[k..])],
                        )?;
                        w = d.add_dataflow_op(op, [w]).map_err(e)?.out_wire(0);
                        let a = array_type(n, qb_t());
                        it.insert(0, a.clone());
                        ot.insert(0, a);
                    } else if let Some(n) = m.strip_prefix("p") {
                        let n: u64 = n.parse().map_err(e)?;
                        let op = ext_op("tket.modifier", "PowerModifier", vec![list(&it[..k]), list(&it[k..])])?;
                        let c = d.add_load_value(ConstInt::new_u(6, n).map_err(e)?);
                        w = d.add_dataflow_op(op, [w, c]).map_err(e)?.out_wire(0);
                    } else {
                        let op = ext_op("tket.modifier", "DaggerModifier", vec![list(&it[..k]), list(&it[k..])])?;
                        w = d.add_dataflow_op(op, [w]).map_err(e)?.out_wire(0);
                    }
                }
                let mut ws = vec![w];
                for i in ins {
                    ws.push(Self::take(env, i)?);
                }
                let op = tket::hugr::ops::CallIndirect { signature: Signature::new(it, ot) };
                let h = d.add_dataflow_op(op, ws).map_err(e)?;
                for (o, w) in out_slots.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::Dfg { body, nonlocal } => {
                let (mut ins, outs) = Self::region_io(env, &[body], &[])?;
                let saved = env.clone();
                if *nonlocal {
                    ins.retain(|s| slot_linear(s));
                }
                let mut ws = vec![];
                for i in &ins {
                    ws.push(Self::take(env, i)?);
                }
                let mut b = d.dfg_builder(Signature::new(tys(&ins)?, tys(&outs)?), ws).map_err(e)?;
                let mut en: Env = ins.iter().cloned().zip(b.input_wires()).collect();
                if *nonlocal {
                    for (k, w) in saved {
                        if !slot_linear(&k) {
                            en.insert(k, w);
                        }
                    }
                }
                self.body(&mut b, &mut en, body)?;
                let ow: Vec<Wire> = outs.iter().map(|o| en[o]).collect();
                let h = b.finish_with_outputs(ow).map_err(e)?;
                for (o, w) in outs.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::If { cond, els, thn } => {
                let (ins, outs) = Self::region_io(env, &[els, thn], &[])?;
                let cw = Self::take(env, cond)?;
                let mut pairs = vec![];
                for i in &ins {
                    let w = *env.get(i).ok_or("SKIP if in")?;
                    pairs.push((slot_type(i)?, w));
                }
                for i in &ins {
                    if slot_linear(i) {
                        env.remove(i);
                    }
                }
                let mut c = d
                    .conditional_builder(([TypeRow::new(), TypeRow::new()], cw), pairs, tys(&outs)?.into())
                    .map_err(e)?;
                for (k, body) in [els, thn].into_iter().enumerate() {
                    let mut b = c.case_builder(k).map_err(e)?;
                    let mut en: Env = ins.iter().cloned().zip(b.input_wires()).collect();
                    self.body(&mut b, &mut en, body)?;
                    let ow: Vec<Wire> = outs.iter().map(|o| en[o]).collect();
                    b.finish_with_outputs(ow).map_err(e)?;
                }
                let h = c.finish_sub_container().map_err(e)?;
                for (o, w) in outs.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::Blk { body } => {
                let (ins, outs) = Self::region_io(env, &[body], &[])?;
                let mut pairs = vec![];
                for i in &ins {
                    pairs.push((slot_type(i)?, Self::take(env, i)?));
                }
                let mut c = d.cfg_builder(pairs, tys(&outs)?.into()).map_err(e)?;
                let mut b = c.simple_entry_builder(tys(&outs)?.into(), 1).map_err(e)?;
                let mut en: Env = ins.iter().cloned().zip(b.input_wires()).collect();
                self.body(&mut b, &mut en, body)?;
                let ow: Vec<Wire> = outs.iter().map(|o| en[o]).collect();
                let u = b.add_load_value(Value::unary_unit_sum());
                let id = b.finish_with_outputs(u, ow).map_err(e)?;
                let ex = c.exit_block();
                c.branch(&id, 0, &ex).map_err(e)?;
                let h = c.finish_sub_container().map_err(e)?;
                for (o, w) in outs.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::Until { cond, body, carry } => {
                let (mut ins, outs) = Self::region_io(env, &[body], &[])?;
                let nj = if *carry {
                    // classical slots first
                    ins.sort_by_key(|x| slot_linear(x));
                    ins.iter().filter(|x| !slot_linear(x)).count()
                } else {
                    0
                };
                // loop-carried: all inputs; they must be available at the end too
                for o in &outs {
                    if slot_linear(o) && !ins.contains(o) {
                        return Err("SKIP loop linear".into());
                    }
                }
                let mut pairs = vec![];
                for i in &ins {
                    pairs.push((slot_type(i)?, *env.get(i).ok_or("SKIP loop in")?));
                }
                for i in &ins {
                    if slot_linear(i) {
                        env.remove(i);
                    }
                }
                let rest = pairs.split_off(nj);
                let jt = tys(&ins[..nj])?;
                let mut b = d.tail_loop_builder(pairs, rest, jt.clone().into()).map_err(e)?;
                let mut en: Env = ins.iter().cloned().zip(b.input_wires()).collect();
                self.body(&mut b, &mut en, body)?;
                let mut cw = *en.get(cond).ok_or("SKIP loop cond")?;
                let mut ow: Vec<Wire> =
                    ins.iter().map(|o| en.get(o).copied().ok_or("SKIP loop out".to_string())).collect::<Res<_>>()?;
                if *carry {
                    let rows: Vec<TypeRow> = vec![jt.clone().into(), jt.clone().into()];
                    let sum: Type = SumType::new(rows.clone()).into();
                    let last = ow.split_off(nj);
                    let mut c = b
                        .conditional_builder(
                            ([TypeRow::new(), TypeRow::new()], cw),
                            jt.iter().cloned().zip(ow),
                            vec![sum].into(),
                        )
                        .map_err(e)?;
                    for k in 0..2 {
                        let mut cb = c.case_builder(k).map_err(e)?;
                        let ws: Vec<Wire> = cb.input_wires().collect();
                        let w = cb.make_sum(k, rows.clone(), ws).map_err(e)?;
                        cb.finish_with_outputs([w]).map_err(e)?;
                    }
                    cw = c.finish_sub_container().map_err(e)?.out_wire(0);
                    ow = last;
                }
                let h = b.finish_with_outputs(cw, ow).map_err(e)?;
                for (o, w) in ins.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
            St::Cfg { cond, els, thn } => {
                let (mut ins, outs) = Self::region_io(env, &[els, thn], &[])?;
                ins.retain(|x| x != cond);
                let mut pairs = vec![(slot_type(cond)?, Self::take(env, cond)?)];
                for i in &ins {
                    pairs.push((slot_type(i)?, *env.get(i).ok_or("SKIP cfg in")?));
                }
                for i in &ins {
                    if slot_linear(i) {
                        env.remove(i);
                    }
                }
                let mut ctys = vec![slot_type(cond)?];
                ctys.extend(tys(&ins)?);
                let mut c = d.cfg_builder(pairs, tys(&outs)?.into()).map_err(e)?;
                let mut inner: Vec<String> = vec![cond.clone()];
                inner.extend(ins.iter().cloned());
                let eb = c.simple_entry_builder(ctys.clone().into(), 2).map_err(e)?;
                let entry = {
                    let ws: Vec<Wire> = eb.input_wires().collect();
                    eb.finish_with_outputs(ws[0], ws).map_err(e)?
                };
                for (k, body) in [els, thn].into_iter().enumerate() {
                    let mut b = c
                        .simple_block_builder(Signature::new(ctys.clone(), tys(&outs)?), 1)
                        .map_err(e)?;
                    let mut en: Env = inner.iter().cloned().zip(b.input_wires()).collect();
                    self.body(&mut b, &mut en, body)?;
                    let ow: Vec<Wire> = outs.iter().map(|o| en[o]).collect();
                    let u = b.add_load_value(Value::unary_unit_sum());
                    let id = b.finish_with_outputs(u, ow).map_err(e)?;
                    c.branch(&entry, k, &id).map_err(e)?;
                    let ex = c.exit_block();
                    c.branch(&id, 0, &ex).map_err(e)?;
                }
                let h = c.finish_sub_container().map_err(e)?;
                for (o, w) in outs.iter().zip(h.outputs()) {
                    env.insert(o.clone(), w);
                }
            }
        }
        Ok(())
    }
}
fn writes(sts: &[St]) -> Vec<String> {
    let mut v = vec![];
    for s in sts {
        match s {
            St::Op { ins, outs, .. } | St::Call { ins, outs, .. } | St::Mod { ins, outs, .. } => v.extend(outs_or(outs, ins)),
            St::If { els, thn, .. } | St::Cfg { els, thn, .. } => {
                v.extend(writes(els));
                v.extend(writes(thn));
            }
            St::Dfg { body, .. } | St::Until { body, .. } | St::Blk { body } => v.extend(writes(body)),
        }
    }
    v
}

/// Build a module from program text; `main` (or the last function) is the entrypoint.
pub fn build(text: &str) -> Res<Built> {
    let fs = parse(text)?;
    build_funcs(&fs)
}
pub fn build_funcs(fs: &[Func]) -> Res<Built> {
    let mut m = ModuleBuilder::new();
    let mut b = B { fns: HashMap::new() };
    let mut nodes = HashMap::new();
    let mut main = None;
    let mut main_outs = vec![];
    for f in fs {
        let ins = tys(&f.ins)?;
        if f.decl {
            let outs = f.outs.clone().unwrap_or_else(|| f.ins.iter().filter(|s| slot_linear(s)).cloned().collect());
            let ot = tys(&outs)?;
            let id = m.declare(f.name.as_str(), Signature::new(ins.clone(), ot.clone()).into()).map_err(e)?;
            nodes.insert(f.name.clone(), id.node());
            b.fns.insert(f.name.clone(), Fn_ { id: id.node().into(), decl_id: Some(id), ins, outs: ot });
            continue;
        }
        let mut env: BTreeSet<String> = f.ins.iter().cloned().collect();
        let mut used = BTreeSet::new();
        flow(&mut env, &f.body, &mut used)?;
        let outs = match &f.outs {
            Some(o) if !f.all_outs => {
                for l in env.iter().filter(|x| slot_linear(x)) {
                    if !o.contains(l) {
                        return Err(format!("SKIP linear slot {l} left over"));
                    }
                }
                for x in o {
                    if !env.contains(x) {
                        return Err(format!("SKIP output {x} not live"));
                    }
                }
                o.clone()
            }
            _ if f.all_outs => live_sorted(&env).into_iter().filter(|s| !s.starts_with(['H', 'E', 'S'])).collect(),
            _ => live_sorted(&env).into_iter().filter(|s| slot_linear(s) || s.starts_with('b') || s.starts_with('t')).collect(),
        };
        let ot = tys(&outs)?;
        use tket::hugr::core::Visibility::{Private, Public};
        let vis = if f.name == "main" { Public } else { Private };
        let mut fb = m.define_function_vis(f.name.as_str(), Signature::new(ins.clone(), ot.clone()), vis).map_err(e)?;
        let mut en: Env = f.ins.iter().cloned().zip(fb.input_wires()).collect();
        b.body(&mut fb, &mut en, &f.body)?;
        let ow: Vec<Wire> = outs.iter().map(|o| en[o]).collect();
        let h = fb.finish_with_outputs(ow).map_err(e)?;
        let id = h.handle().clone();
        nodes.insert(f.name.clone(), id.node());
        if f.name == "main" || main.is_none() || fs.iter().all(|x| x.name != "main") {
            main = Some(id.node());
            main_outs = outs.clone();
        }
        b.fns.insert(f.name.clone(), Fn_ { id, decl_id: None, ins, outs: ot });
    }
    let mut h = m.finish_hugr().map_err(|x| format!("build: {x}"))?;
    for f in fs {
        if let Some(fl) = f.flags {
            use tket::hugr::hugr::hugrmut::HugrMut;
            h.set_metadata(nodes[&f.name], "unitary", fl);
        }
    }
    let main = main.ok_or("no main")?;
    tket::hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, main);
    Ok(Built { hugr: h, main, funcs: nodes, outs: main_outs })
}
