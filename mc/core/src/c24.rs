//! C24: programs, operations and constants that are stored and loaded again.
use crate::c01::canon;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::{build, REG};
use std::collections::BTreeMap;
use std::sync::Arc;
use tket::extension as te;
use tket::hugr::builder::{DFGBuilder, Dataflow, DataflowHugr, FunctionBuilder};
use tket::hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use tket::hugr::extension::prelude::{bool_t, option_type, qb_t, usize_t};
use tket::hugr::extension::simple_op::{MakeExtensionOp, MakeOpDef};
use tket::hugr::extension::{Extension, ExtensionRegistry};
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::dataflow::DataflowOpTrait;
use tket::hugr::ops::{ExtensionOp, OpType, Value};
use tket::hugr::std_extensions::arithmetic::float_types::float64_type;
use tket::hugr::std_extensions::arithmetic::int_types::int_type;
use tket::hugr::std_extensions::collections::borrow_array::borrow_array_type;
use tket::hugr::types::type_param::TypeParam;
use tket::hugr::types::{Signature, Type, TypeArg, TypeBound};
use tket::hugr::{Hugr, HugrView, Node};
use tket::serialize::pytket::load_tk1_json_str;
use tket::Circuit;
use tket_qsystem::extension as qe;
use tket_qsystem::extension::classical_compute::{gpu, wasm};

fn own() -> Vec<Arc<Extension>> {
    vec![
        te::TKET_EXTENSION.clone(),
        te::TKET1_EXTENSION.clone(),
        te::bool::BOOL_EXTENSION.clone(),
        te::rotation::ROTATION_EXTENSION.clone(),
        te::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        te::modifier::MODIFIER_EXTENSION.clone(),
        te::guppy::GUPPY_EXTENSION.clone(),
        te::debug::DEBUG_EXTENSION.clone(),
        qe::futures::EXTENSION.clone(),
        qe::qsystem::EXTENSION.clone(),
        qe::random::EXTENSION.clone(),
        qe::result::EXTENSION.clone(),
        qe::utils::EXTENSION.clone(),
        wasm::EXTENSION.clone(),
        gpu::EXTENSION.clone(),
    ]
}
/// Formats that can hold any program. The textual model is experimental and written without types of constants.
fn configs() -> Vec<(&'static str, EnvelopeConfig)> {
    let c = |format, z: bool| {
        let mut c = EnvelopeConfig::new(format);
        c.zstd = z.then(Default::default);
        c
    };
    vec![
        ("text", EnvelopeConfig::text()),
        ("binary", EnvelopeConfig::binary()),
        ("json compressed", c(EnvelopeFormat::PackageJson, true)),
        ("model", c(EnvelopeFormat::Model, false)),
        ("model compressed", c(EnvelopeFormat::Model, true)),
        ("model with extensions", c(EnvelopeFormat::ModelWithExtensions, false)),
        ("default", EnvelopeConfig::default()),
    ]
}
/// everything about a module that does not depend on numbering
fn module(h: &Hugr) -> BTreeMap<String, (String, Option<String>, String)> {
    let mut m = BTreeMap::new();
    for n in h.children(h.module_root()) {
        let meta = format!("{:?}", ["unitary", "tkmc.note"].map(|k| h.get_metadata(n, k)));
        match h.get_optype(n) {
            OpType::FuncDefn(f) => {
                m.insert(f.func_name().to_string(), (format!("{:?} {:?}", f.signature(), f.visibility()), canon(h, n), meta));
            }
            OpType::FuncDecl(f) => {
                m.insert(f.func_name().to_string(), (format!("{:?} {:?}", f.signature(), f.visibility()), None, meta));
            }
            o => {
                m.insert(format!("{o:?}"), (String::new(), None, meta));
            }
        }
    }
    m
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {b:?}, it was {a:?}"))
    }
}
fn owner(h: &Hugr, mut n: Node) -> Option<String> {
    loop {
        if let OpType::FuncDefn(f) = h.get_optype(n) {
            return Some(f.func_name().to_string());
        }
        n = h.get_parent(n)?;
    }
}
fn program(ctx: &Ctx, text: &str, all: bool) -> Result<(), String> {
    let mut b = build(text)?;
    for (f, n) in b.funcs.clone() {
        b.hugr.set_metadata(n, "unitary", 7);
        b.hugr.set_metadata(n, "tkmc.note", serde_json::json!({"name": f, "list": [1, null, 0.5]}));
    }
    let before = module(&b.hugr);
    let mut roots = vec![];
    for n in b.hugr.descendants(b.hugr.module_root()).collect::<Vec<_>>() {
        let mut h = b.hugr.clone();
        h.set_entrypoint(n);
        if let Ok(c) = Circuit::try_new(h) {
            roots.push((n, c));
        }
    }
    for (n, c) in &roots {
        for (name, cfg) in configs().into_iter().take(if all { 7 } else { 2 }) {
            let what = |s: &str| format!("entry {n} ({}) as {name}: {s}", b.hugr.get_optype(*n));
            let mut bytes: Vec<u8> = vec![];
            c.store(&mut bytes, cfg).map_err(|e| what(&e.to_string()))?;
            let mut loaded = vec![("loaded", Circuit::load(&bytes[..], None).map_err(|e| what(&e.to_string()))?)];
            if cfg.zstd.is_none() && cfg.format.ascii_printable() {
                let s = c.store_str(cfg).map_err(|e| what(&e.to_string()))?;
                loaded.push(("from a string", Circuit::load_str(&s, Some(&REG)).map_err(|e| what(&e.to_string()))?));
            }
            for (w, l) in loaded {
                ctx.trans(1);
                let what = |s: &str| what(&format!("{w}: {s}"));
                eq(&what("name"), c.name().map(str::to_string), l.name().map(str::to_string))?;
                eq(&what("entry"), c.hugr().get_optype(*n), l.hugr().get_optype(l.parent()))?;
                eq(&what("entry's function"), owner(c.hugr(), *n), owner(l.hugr(), l.parent()))?;
                eq(&what("entry region"), canon(c.hugr(), *n), canon(l.hugr(), l.parent()))?;
                eq(&what("signature"), c.circuit_signature().into_owned(), l.circuit_signature().into_owned())?;
                if *c != l {
                    return Err(what("not equal"));
                }
                eq(&what("module"), before.clone(), module(l.hugr()))?;
            }
            // by function name
            if *n == b.main {
                for (f, node) in &b.funcs {
                    let isdef = matches!(b.hugr.get_optype(*node), OpType::FuncDefn(_));
                    match Circuit::load_function(&bytes[..], f) {
                        Ok(l) if isdef => {
                            eq(&what("function"), Some(f.as_str()), l.name())?;
                            eq(&what("function body"), canon(&b.hugr, *node), canon(l.hugr(), l.parent()))?;
                            eq(&what("module"), before.clone(), module(l.hugr()))?;
                        }
                        Ok(_) => return Err(what(&format!("{f} is only declared, but loaded"))),
                        Err(e) if isdef => return Err(what(&format!("function {f}: {e}"))),
                        Err(_) => {}
                    }
                }
                if Circuit::load_function(&bytes[..], "nofunction").is_ok() {
                    return Err(what("a function that does not exist was loaded"));
                }
            }
        }
    }
    ctx.traces(1);
    Ok(())
}
// ---------------------------------------------------------------- operations
/// `x` recognised as each of the library's operations: (which, its value, made into an operation again)
fn kinds(x: &ExtensionOp) -> Vec<(&'static str, String, ExtensionOp)> {
    let mut v = vec![];
    macro_rules! t {
        ($name:expr, $t:ty) => {
            if let Ok(k) = <$t>::from_extension_op(x) {
                let reg = k.clone().to_extension_op().expect("an operation");
                if let Some(k2) = OpType::from(x.clone()).cast::<$t>() {
                    assert_eq!(k, k2);
                } else {
                    panic!("{} is not recognised in a graph", $name);
                }
                v.push(($name, format!("{k:?}"), reg));
            } else if OpType::from(x.clone()).cast::<$t>().is_some() {
                panic!("{} is only recognised in a graph", $name);
            }
        };
    }
    use tket::hugr::extension::simple_op::MakeRegisteredOp;
    t!("TketOp", tket::TketOp);
    t!("SympyOp", te::sympy::SympyOp);
    t!("BoolOp", te::bool::BoolOp);
    t!("RotationOp", te::rotation::RotationOp);
    t!("GlobalPhase", te::global_phase::GlobalPhase);
    t!("StateResult", te::debug::StateResult);
    t!("FutureOp", qe::futures::FutureOp);
    t!("QSystemOp", qe::qsystem::QSystemOp);
    t!("RandomOp", qe::random::RandomOp);
    t!("ResultOp", qe::result::ResultOp);
    t!("UtilsOp", qe::utils::UtilsOp);
    t!("WasmOp", wasm::WasmOp);
    t!("GpuOp", gpu::GpuOp);
    v
}
fn expected(ext: &str, op: &str) -> Option<&'static str> {
    Some(match ext {
        "tket.quantum" if op == "symbolic_angle" => "SympyOp",
        "tket.quantum" => "TketOp",
        "tket.bool" => "BoolOp",
        "tket.rotation" => "RotationOp",
        "tket.global_phase" => "GlobalPhase",
        "tket.debug" => "StateResult",
        "tket.futures" => "FutureOp",
        "tket.qsystem" if op != "RuntimeBarrier" => "QSystemOp",
        "tket.qsystem.random" => "RandomOp",
        "tket.qsystem.utils" => "UtilsOp",
        "tket.result" => "ResultOp",
        "tket.wasm" => "WasmOp",
        "tket.gpu" => "GpuOp",
        _ => return None,
    })
}
fn args_for(p: &TypeParam, th: bool) -> Vec<TypeArg> {
    let copyable = || vec![bool_t(), usize_t(), float64_type(), int_type(3), int_type(6), te::rotation::rotation_type(), Type::new_tuple(vec![bool_t(), float64_type()])];
    let linear = || vec![qb_t(), option_type(vec![qb_t()]).into(), borrow_array_type(2, qb_t()), te::bool::bool_type()];
    let strings = ["", "a", "b", "USER:BOOL:x", "\"q[0]\" \\ \n µ", "2*pi/3 + alpha_0"];
    match p {
        TypeParam::StringType => strings.iter().map(|s| TypeArg::String(s.to_string())).collect(),
        TypeParam::BoundedNatType(_) => (0..8u64).chain([64, 1 << 40]).map(TypeArg::BoundedNat).collect(),
        TypeParam::RuntimeType(TypeBound::Copyable) => copyable().into_iter().map(|t| t.into()).collect(),
        TypeParam::RuntimeType(TypeBound::Linear) => copyable().into_iter().chain(linear()).map(|t| t.into()).collect(),
        TypeParam::ListType(t) => {
            let e = args_for(t, false);
            let mut v = vec![TypeArg::List(vec![])];
            for a in &e {
                v.push(TypeArg::List(vec![a.clone()]));
                for b in e.iter().take(if th { 20 } else { 3 }) {
                    v.push(TypeArg::List(vec![a.clone(), b.clone()]));
                }
            }
            v
        }
        _ => vec![],
    }
}
fn linear(a: &TypeArg) -> bool {
    match a {
        TypeArg::Runtime(t) => !t.copyable(),
        TypeArg::List(l) => l.iter().any(linear),
        _ => false,
    }
}
fn grid(params: &[TypeParam], th: bool) -> Vec<Vec<TypeArg>> {
    params.iter().fold(vec![vec![]], |acc, p| {
        let a = args_for(p, th);
        acc.iter().flat_map(|v| a.iter().map(move |x| v.iter().cloned().chain([x.clone()]).collect())).collect()
    })
}
fn operation(ctx: &Ctx, x: &ExtensionOp, full: &ExtensionRegistry, stores: usize) -> Result<(), String> {
    let (ext, name) = (x.def().extension_id().to_string(), x.def().name().to_string());
    let k = kinds(x);
    let want = expected(&ext, &name);
    eq("recognised as", want.into_iter().collect::<Vec<_>>(), k.iter().map(|x| x.0).collect())?;
    eq("modifier", ext == "tket.modifier", te::modifier::Modifier::from_op(x).is_ok())?;
    eq("runtime barrier", name == "RuntimeBarrier", qe::qsystem::RuntimeBarrierDef::from_op(x).is_ok())?;
    for (t, v, again) in &k {
        if again.def().extension_id() != x.def().extension_id() || again.def().name() != x.def().name() || again.args() != x.args() || again.signature() != x.signature() {
            return Err(format!("{t} {v} as an operation is {again:?}"));
        }
    }
    if let Ok(m) = te::modifier::Modifier::from_op(x) {
        eq("modifier's name", x.def().name().clone(), m.opdef_id())?;
    }
    let sig = x.signature().into_owned();
    let mut b = FunctionBuilder::new("f", sig.clone()).map_err(|e| e.to_string())?;
    let ins: Vec<_> = b.input_wires().collect();
    let o = b.add_dataflow_op(x.clone(), ins).map_err(|e| e.to_string())?;
    let h = b.finish_hugr_with_outputs(o.outputs()).map_err(|e| e.to_string())?;
    for (fmt, cfg) in configs().into_iter().take(stores) {
        let mut bytes = vec![];
        h.store(&mut bytes, cfg).map_err(|e| format!("{fmt}: {e}"))?;
        for default in [true, false] {
            // the default registry is that of the tket crate
            if default && !te_registry(&ext) {
                continue;
            }
            let l = if default {
                Circuit::load(&bytes[..], None).map_err(|e| format!("{fmt}: {e}"))?.into_hugr()
            } else {
                let l = Hugr::load(&bytes[..], Some(full)).map_err(|e| format!("{fmt}: {e}"))?;
                l.validate().map_err(|e| format!("{fmt}: {e}"))?;
                l
            };
            ctx.trans(1);
            let y = l.nodes().find_map(|n| l.get_optype(n).as_extension_op().cloned()).ok_or(format!("{fmt}: operation lost"))?;
            if y.def().extension_id() != x.def().extension_id() || y.def().name() != x.def().name() || y.args() != x.args() || y.signature() != x.signature() {
                return Err(format!("{fmt}: loaded as {y:?}"));
            }
            eq(&format!("{fmt}: loaded, recognised"), k.iter().map(|x| (x.0, x.1.clone())).collect::<Vec<_>>(), kinds(&y).into_iter().map(|x| (x.0, x.1)).collect())?;
        }
    }
    ctx.traces(1);
    Ok(())
}
fn te_registry(ext: &str) -> bool {
    ["tket.quantum", "tket.bool", "tket.rotation", "tket.debug", "tket.modifier", "tket.guppy", "tket.global_phase", "TKET1"].contains(&ext)
}
fn constant(ctx: &Ctx, v: Value, full: &ExtensionRegistry) -> Result<(), String> {
    let t = v.get_type();
    let mut b = DFGBuilder::new(Signature::new(vec![], vec![t.clone()])).map_err(|e| e.to_string())?;
    let w = b.add_load_value(v.clone());
    let h = b.finish_hugr_with_outputs([w]).map_err(|e| e.to_string())?;
    for (fmt, cfg) in configs() {
        let mut bytes = vec![];
        h.store(&mut bytes, cfg).map_err(|e| format!("{fmt}: {e}"))?;
        let l = Hugr::load(&bytes[..], Some(full)).map_err(|e| format!("{fmt}: {e}"))?;
        l.validate().map_err(|e| format!("{fmt}: {e}"))?;
        let c = l.nodes().find_map(|n| l.get_optype(n).as_const().map(|c| c.value().clone())).ok_or("constant lost")?;
        ctx.trans(1);
        if c != v || c.get_type() != t {
            return Err(format!("{fmt}: {v:?} was loaded as {c:?}"));
        }
    }
    ctx.traces(1);
    Ok(())
}
/// What users of an extension rely on: its types, and the operations with their signatures
fn declared(j: &serde_json::Value) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in j["types"].as_object().into_iter().flatten() {
        m.insert(format!("type {k}"), format!("{} {}", v["params"], v["bound"]));
    }
    for (k, v) in j["operations"].as_object().into_iter().flatten() {
        m.insert(format!("operation {k}"), v["signature"].to_string());
    }
    m.insert("name".into(), j["name"].to_string());
    m
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let full = ExtensionRegistry::new(own().into_iter().chain(REG.iter().cloned()));
    // extensions
    let files = std::path::Path::new("/repo/tket-exts/src/tket_exts/data");
    for x in own() {
        ctx.case(&format!("extension {} is well-formed", x.name()), || ExtensionRegistry::new([x.clone()]).validate().map_err(|e| e.to_string()));
        ctx.case(&format!("extension {}", x.name()), || {
            let now = serde_json::to_value(&*x).map_err(|e| e.to_string())?;
            let file = files.join(format!("{}.json", x.name().to_string().replace('.', "/")));
            ctx.trans(1);
            if let Ok(t) = std::fs::read_to_string(&file) {
                let pub_: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                let (a, b) = (declared(&pub_), declared(&now));
                for k in a.keys().chain(b.keys()) {
                    eq(&format!("published {k}"), a.get(k), b.get(k))?;
                }
                eq("published version", pub_["version"].to_string(), now["version"].to_string())?;
            }
            let back: Extension = serde_json::from_value(now.clone()).map_err(|e| e.to_string())?;
            eq("stored and loaded", declared(&now), declared(&serde_json::to_value(&back).map_err(|e| e.to_string())?))?;
            Ok(())
        });
    }
    // operations
    let mut ops = vec![];
    for x in own() {
        for (name, def) in x.operations() {
            let _ = name;
            let grid: Vec<Vec<TypeArg>> = match def.params() {
                Ok(_) if def.extension_id().to_string() == "TKET1" => tk1_args(),
                Ok(p) => grid(p, th),
                Err(_) => vec![],
            };
            for a in grid {
                // declared for any types, and used for copyable ones
                if ["tket.wasm", "tket.gpu"].contains(&&def.extension_id().to_string()[..]) && a.iter().any(linear) {
                    continue;
                }
                if let Ok(o) = ExtensionOp::new(def.clone(), a) {
                    ops.push(o);
                }
            }
        }
    }
    ctx.bound("operations", ops.len() as u64);
    ctx.bound("pytket operations", ops.iter().filter(|o| o.def().extension_id().to_string() == "TKET1").count() as u64);
    ctx.par(ops.len(), |i| {
        ctx.case(&format!("operation {} {}", ops[i].qualified_id(), serde_json::to_string(ops[i].args()).unwrap()), || operation(ctx, &ops[i], &full, if th { 7 } else { 3 }));
    });
    ctx.case("malformed pytket operation", || {
        for (_, def) in te::TKET1_EXTENSION.operations() {
            for t in ["", "a", "{}", "[1]", "{\"inputs\": []}", "{\"serialised_op\":{\"type\":\"Nonsense\"},\"num_qubits\":1}"] {
                if ExtensionOp::new(def.clone(), vec![TypeArg::String(t.into())]).is_ok() {
                    return Err(format!("{t:?} was accepted"));
                }
            }
        }
        Ok(())
    });
    ctx.case("every operation is listed", || {
        use strum::IntoEnumIterator;
        for o in tket::TketOp::iter() {
            eq("TketOp", Some(o), OpType::from(o).cast())?;
        }
        for o in qe::qsystem::QSystemOp::iter() {
            eq("QSystemOp", Some(o), OpType::from(o).cast())?;
        }
        for o in te::rotation::RotationOp::iter() {
            eq("RotationOp", Some(o), OpType::from(o).cast())?;
        }
        for o in te::bool::BoolOp::iter() {
            eq("BoolOp", Some(o), OpType::from(o).cast())?;
        }
        Ok(())
    });
    // constants
    let mut consts: Vec<(String, Value)> = vec![];
    for x in [-3.75, -2.0, -1.0, -0.5, -1e-12, 0.0, 1e-300, 0.1, 1.0 / 3.0, 0.5, 1.0, 1.5, 2.0, 1e17] {
        consts.push((format!("rotation {x}"), te::rotation::ConstRotation::new(x).unwrap().into()));
    }
    for x in [true, false] {
        consts.push((format!("bool {x}"), te::bool::ConstBool::new(x).into()));
    }
    for m in ["", "a", "dir/file \"x\".wasm"] {
        consts.push((format!("wasm {m}"), Value::extension(wasm::ConstWasmModule { module_filename: m.into() })));
        for c in [None, Some(""), Some("cfg.json")] {
            consts.push((format!("gpu {m} {c:?}"), Value::extension(gpu::ConstGpuModule { module_filename: m.into(), config_filename: c.map(str::to_string) })));
        }
    }
    ctx.par(consts.len(), |i| ctx.case(&format!("constant {}", consts[i].0), || constant(ctx, consts[i].1.clone(), &full)));
    ctx.case("results made by kind", || {
        use qe::result::{ResultArgs, ResultOp, ResultOpDef as D, SimpleArgs};
        for tag in ["", "a", "tag \"x\""] {
            let mut v = vec![(ResultOp::new_bool(tag), D::Bool, D::ArrBool, SimpleArgs::Basic), (ResultOp::new_f64(tag), D::F64, D::ArrF64, SimpleArgs::Basic)];
            for w in 0..=6 {
                v.push((ResultOp::new_int(tag, w), D::Int, D::ArrInt, SimpleArgs::Int(w)));
                v.push((ResultOp::new_uint(tag, w), D::UInt, D::ArrUInt, SimpleArgs::Int(w)));
            }
            for (o, d, arr, a) in v {
                eq("ResultOp", Some(ResultOp { tag: tag.into(), result_op: d, args: ResultArgs::Simple(a.clone()) }), Some(o.clone()))?;
                for n in [0, 1, 7] {
                    let Some(got) = std::panic::catch_unwind(|| o.clone().array_op(n)).ok() else { return Err(format!("no array form of {o:?}")) };
                    eq("ResultOp", Some(ResultOp { tag: tag.into(), result_op: arr, args: ResultArgs::Array(a.clone(), n) }), Some(got))?;
                }
            }
        }
        Ok(())
    });
    ctx.case("rotations in radians", || {
        use te::rotation::ConstRotation as R;
        for k in -64..=64 {
            let x = k as f64 / 16.0 + if k % 3 == 0 { 0.013 } else { 0.0 };
            let r = R::new(x).unwrap();
            let b = R::from_radians(x).map_err(|e| e.to_string())?;
            if r.half_turns() != x || (r.to_radians() - x * std::f64::consts::PI).abs() > 1e-12 || (b.half_turns() - x / std::f64::consts::PI).abs() > 1e-12 {
                return Err(format!("{x}: {r:?}, {} in radians; {x} radians are {b:?}", r.to_radians()));
            }
        }
        for (r, x) in [(R::PI, 1.0), (R::TAU, 2.0), (R::PI_2, 0.5), (R::PI_4, 0.25)] {
            if r.half_turns() != x {
                return Err(format!("{r:?} is not {x}"));
            }
        }
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            if R::new(x).is_ok() || R::from_radians(x).is_ok() {
                return Err(format!("a rotation by {x}"));
            }
        }
        Ok(())
    });
    ctx.case("different constants differ", || {
        for (i, (n, a)) in consts.iter().enumerate() {
            for (m, b) in &consts[..i] {
                if a == b {
                    return Err(format!("{n} equals {m}"));
                }
            }
        }
        Ok(())
    });
    // programs
    let mut progs = vec![];
    let alpha = ["H q0", "CX q0 q1", "CX q1 q0", "Rz(0.3) q0", "Rz q0 a0", "QAlloc -> q2", "CX q2 q0", "QFree q2 ->", "Measure q0 -> q0 b0", "dfg {H q0;CX q0 q1}", "if b0 {X q0} else {call f q0}", "call f q0", "call g q1", "cfg b0 {X q0}", "until b0 {Measure q0 -> q0 b0}", "dfgx {if b0 {H q0}}", "phase(0.25)", "barrier q0 q1", "anew q1 -> V1q0;mod c1 d : f V1q0 q0;aunpack V1q0 -> q1"];
    for n in 0..=if th { 3 } else { 2 } {
        progs.extend(programs("q0,q1,a0,b0", "", &alpha, n, "").into_iter().map(|p| format!("fn f(q0){{S q0;H q0}} decl g(q0) {p}")));
        progs.extend(programs("q0,q1,a0,b0", "", &alpha[..8], n + 1, ""));
    }
    let other = ["H q0", "PhasedX(0.5,0.25) q0", "qsRz(0.5) q0", "ZZPhase(0.5) q0 q1", "LazyMeasure q0 -> m0", "qsReset q0", "res_bool(r) b0", "CX q0 q1"];
    let mut outside = vec![];
    for n in 1..=if th { 3 } else { 2 } {
        outside.extend(programs("q0,q1,b0", "", &other, n, ""));
    }
    ctx.bound("programs with other extensions", outside.len() as u64);
    ctx.par(outside.len(), |i| ctx.case(&format!("registries {}", outside[i]), || registries(ctx, &outside[i])));
    progs.sort();
    progs.dedup();
    ctx.bound("programs", progs.len() as u64);
    ctx.par(progs.len(), |i| {
        ctx.case(&progs[i], || {
            let t = te_only(&progs[i]);
            if t {
                program(ctx, &progs[i], th || i % 4 == 0)
            } else {
                Err("SKIP not in the default registry".into())
            }
        });
    });
}
/// Programs with operations from outside the library's registry, loaded with registries of several sizes
fn registries(ctx: &Ctx, text: &str) -> Result<(), String> {
    let b = build(text)?;
    let c = Circuit::new(b.hugr.clone());
    let used: Vec<Arc<Extension>> = REG.iter().filter(|x| b.hugr.nodes().any(|n| b.hugr.get_optype(n).as_extension_op().is_some_and(|o| o.def().extension_id() == x.name()))).cloned().collect();
    let types = ["prelude", "tket.bool", "tket.rotation", "tket.futures", "arithmetic.float.types", "arithmetic.int.types"];
    let typed: Vec<Arc<Extension>> = REG.iter().filter(|x| types.contains(&&x.name()[..])).cloned().collect();
    let own = own();
    let regs: Vec<(&str, ExtensionRegistry)> = vec![
        ("everything", ExtensionRegistry::new(own.iter().chain(REG.iter()).cloned())),
        ("the programs'", REG.clone()),
        ("the library's and one more", ExtensionRegistry::new(own.iter().chain(REG.iter()).filter(|x| te_registry(x.name()) || !x.name().starts_with("tket")).chain(used.iter()).chain(typed.iter()).cloned())),
        ("only those used", ExtensionRegistry::new(used.iter().chain(typed.iter()).cloned())),
    ];
    for (name, cfg) in configs() {
        let mut bytes: Vec<u8> = vec![];
        c.store(&mut bytes, cfg).map_err(|e| format!("{name}: {e}"))?;
        for (r, reg) in &regs {
            let mut loaded = vec![("loaded", Circuit::load(&bytes[..], Some(reg)).map_err(|e| format!("{name} with registry of {r}: {e}"))?)];
            if cfg.zstd.is_none() && cfg.format.ascii_printable() {
                let s = c.store_str(cfg).map_err(|e| format!("{name}: {e}"))?;
                loaded.push(("from a string", Circuit::load_str(&s, Some(reg)).map_err(|e| format!("{name} string with registry of {r}: {e}"))?));
            }
            for (w, l) in loaded {
                ctx.trans(1);
                eq(&format!("{name} {w} with registry of {r}: program"), canon(c.hugr(), c.parent()), canon(l.hugr(), l.parent()))?;
                eq(&format!("{name} {w} with registry of {r}: module"), module(c.hugr()), module(l.hugr()))?;
                if c != l {
                    return Err(format!("{name} {w} with registry of {r}: not equal"));
                }
            }
        }
    }
    ctx.traces(1);
    Ok(())
}
fn te_only(p: &str) -> bool {
    !p.contains("res_")
}
/// Operations of pytket that have no native counterpart, as the decoder stores them
fn tk1_args() -> Vec<Vec<TypeArg>> {
    let mut v = vec![];
    for (op, params, q, c) in [("CSWAP", "", 3, 0), ("SXdg", "", 1, 0), ("U3", "\"0.1\",\"a\",\"2*b/3\"", 1, 0), ("ISWAP", "\"0.25\"", 2, 0), ("ECR", "", 2, 0), ("Measure", "", 1, 1), ("ClassicalTransform", "", 0, 2), ("CnX", "", 4, 0)] {
        let reg = |r: &str, n| (0..n).map(|i| format!("[\"{r}\",[{i}]]")).collect::<Vec<_>>().join(",");
        let (qs, cs) = (reg("q", q), reg("c", c));
        let sep = if q > 0 && c > 0 { "," } else { "" };
        let params = if params.is_empty() { String::new() } else { format!(",\"params\":[{params}]") };
        let json = format!("{{\"phase\":\"0\",\"bits\":[{cs}],\"qubits\":[{qs}],\"implicit_permutation\":[],\"commands\":[{{\"args\":[{qs}{sep}{cs}],\"op\":{{\"type\":\"{op}\"{params}}}}}]}}");
        if let Ok(c) = load_tk1_json_str(&json, tket::serialize::pytket::DecodeOptions::new()) {
            v.extend(c.hugr().nodes().filter_map(|n| c.hugr().get_optype(n).as_extension_op().filter(|o| o.def().extension_id().to_string() == "TKET1").map(|o| o.args().to_vec())));
        }
    }
    v
}
