//! C14: programs survive being encoded as pytket circuits and put together again.
use crate::c15;
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::qs::*;
use serde_json::Value as J;
use std::collections::HashMap;
use std::sync::Arc;
use tket::extension::rotation::rotation_type;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::extension::prelude::{bool_t, qb_t};
use tket::hugr::ops::dataflow::IOTrait;
use tket::hugr::ops::{FuncDefn, Input, OpTag, OpTrait, OpType, Output};
use tket::hugr::{Hugr, HugrView, Node};
use tket::hugr::types::Signature;
use tket::serialize::pytket::{load_tk1_json_reader, lower_to_pytket, load_tk1_json_str, save_tk1_json_str, save_tk1_json_writer, DecodeInsertionTarget, DecodeOptions, EncodeOptions, EncodedCircuit};
use tket::serialize::TKETDecode;
use tket::Circuit;
use tket_qsystem::pytket::{qsystem_decoder_config, qsystem_encoder_config};

fn enc(qs: bool) -> EncodeOptions<Hugr> {
    let o = EncodeOptions::new();
    if qs {
        o.with_config(qsystem_encoder_config())
    } else {
        o
    }
}
fn dec(qs: bool) -> DecodeOptions {
    let o = DecodeOptions::new();
    if qs {
        o.with_config(qsystem_decoder_config())
    } else {
        o
    }
}
pub fn one(ctx: &Ctx, key: &str) {
    ctx.case(key, || {
        let (qs, text) = match key.strip_prefix("qs ") {
            Some(t) => (true, t),
            None => (false, key),
        };
        let (b, ord) = source(text)?;
        let o = opts(ord);
        let before = behave_with(ctx, &b.hugr, b.main, &o).map_err(|e| format!("reference program: {e}"))?;
        let f = b.hugr.get_optype(b.main).as_func_defn().unwrap();
        let (sig, name) = (f.signature().clone(), f.func_name().clone());
        let check = |h: &Hugr, main: Node| -> Result<(), String> {
            h.validate().map_err(|e| format!("invalid result: {e}"))?;
            let f = h.get_optype(main).as_func_defn().ok_or("the function is gone")?;
            if *f.signature() != sig {
                return Err(format!("signature {}", f.signature()));
            }
            if *f.func_name() != name {
                return Err(format!("name {}", f.func_name()));
            }
            let after = behave_with(ctx, h, main, &o).map_err(|e| format!("result: {e}"))?;
            same(&before, &after)?;
            if after.leaked_qubits > before.leaked_qubits {
                return Err("qubits are lost".into());
            }
            ctx.traces(1);
            Ok(())
        };
        let mut h = b.hugr.clone();
        h.set_entrypoint(b.main);
        let circ = Circuit::new(h.clone());
        // made ready for encoding
        if text_of(key).matches(';').count() < 3 {
            if let Ok(c) = lower_to_pytket(&circ) {
                check(c.hugr(), c.parent()).map_err(|e| format!("lower_to_pytket: {e}"))?;
            } else if !region_ops(&h, b.main).iter().any(|n| h.static_source(*n).is_some() || h.first_child(*n).is_some()) {
                return Err("lower_to_pytket fails".into());
            }
        }
        // next to the program
        for sub in [false, true] {
            let f = || -> Result<(), String> {
                let e = EncodedCircuit::new(&circ, enc(qs).with_subcircuits(sub)).map_err(|e| not_encoded(&e.to_string()))?;
                let mut g = h.clone();
                e.reassemble_inplace(&mut g, qs.then(|| Arc::new(qsystem_decoder_config()))).map_err(|e| format!("not decoded: {e}"))?;
                if g.entrypoint() != b.main {
                    return Err("another entrypoint".into());
                }
                check(&g, b.main)?;
                if !sub {
                    for (region, s) in e.iter() {
                        circuit_alone(ctx, &h, region, &serde_json::to_value(s).unwrap(), &before, ord).map_err(|e| format!("as a circuit: {e}"))?;
                    }
                    // once more, from what came back
                    let e = EncodedCircuit::new(&Circuit::new(g.clone()), enc(qs)).map_err(|e| format!("not encoded again: {e}"))?;
                    e.reassemble_inplace(&mut g, qs.then(|| Arc::new(qsystem_decoder_config()))).map_err(|e| format!("not decoded again: {e}"))?;
                    check(&g, b.main).map_err(|e| format!("again: {e}"))?;
                }
                Ok(())
            };
            match f() {
                // refused in a nested region only
                Err(e) if e.starts_with("SKIP") && sub => {}
                Err(e) if e.starts_with("SKIP") => return Err(e),
                r => r.map_err(|e| format!("subcircuits {sub}: {e}"))?,
            }
        }
        // on its own
        match save_tk1_json_str(&circ, enc(qs)) {
            Err(e) => {
                let s = e.to_string();
                if not_encoded(&s).starts_with("SKIP") {
                    return Err(not_encoded(&s));
                }
                if !refused(&h, b.main, &s) {
                    return Err(format!("standalone: not encoded: {s}"));
                }
            }
            Ok(text) => {
                if !complete(&h, b.main) {
                    return Ok(());
                }
                // the encoder numbers the angles it is given
                let angles = sig.body().input.iter().filter(|t| **t == rotation_type()).count();
                let names = (0..angles).map(|k| format!("f{k}"));
                let d = dec(qs).with_input_params(names).with_signature(sig.body().clone()).with_extensions(h.extensions().clone());
                let c = load_tk1_json_str(&text, d).map_err(|e| format!("standalone: not decoded: {e}"))?;
                check(c.hugr(), c.parent()).map_err(|e| format!("standalone: {e}"))?;
                if text_of(key).matches(';').count() < 3 {
                    other_ways(ctx, &circ, qs, &|| {
                        let names = (0..angles).map(|k| format!("f{k}"));
                        dec(qs).with_input_params(names).with_signature(sig.body().clone()).with_extensions(h.extensions().clone())
                    }, &before, &o)
                    .map_err(|e| format!("other ways: {e}"))?;
                }
            }
        }
        Ok(())
    });
}
/// The statements of the main function
fn text_of(key: &str) -> &str {
    key.rsplit("main(").next().unwrap()
}
/// The other ways to get a circuit that stands alone, and to read it: they all give the same.
fn other_ways(ctx: &Ctx, circ: &Circuit, qs: bool, d: &dyn Fn() -> DecodeOptions, before: &Behaviour, o: &Opts) -> Result<(), String> {
    let (h, main) = (circ.hugr(), circ.parent());
    let sig = h.get_optype(main).as_func_defn().unwrap().signature().body().clone();
    let mut e = EncodedCircuit::new(circ, enc(qs)).map_err(|e| format!("not encoded: {e}"))?;
    e.ensure_standalone(h).map_err(|e| format!("ensure_standalone: {e}"))?;
    if !e.contains_circuit(main) || e.len() != 1 || e.is_empty() || e.contains_circuit(h.module_root()) {
        return Err("another region is encoded".into());
    }
    let s = e.iter().next().unwrap().1;
    let mut v = vec![];
    save_tk1_json_writer(circ, &mut v, enc(qs)).map_err(|e| format!("writer: {e}"))?;
    let c = load_tk1_json_reader(&v[..], d()).map_err(|e| format!("reader: {e}"))?;
    let same_fn = |h: &Hugr, f: Node, name: &str| -> Result<(), String> {
        h.validate().map_err(|e| format!("invalid result: {e}"))?;
        let t = h.get_optype(f).as_func_defn().ok_or("not a function")?;
        if t.func_name() != name || *t.signature().body() != sig {
            return Err(format!("function {} of {}", t.func_name(), t.signature()));
        }
        let after = behave_with(ctx, h, f, o).map_err(|e| format!("result: {e}"))?;
        ctx.traces(1);
        same(before, &after)
    };
    same_fn(c.hugr(), c.parent(), "main").map_err(|e| format!("reader: {e}"))?;
    // as a new program
    for name in [None, Some("other")] {
        let g = e.reassemble(main, name.map(|n| n.to_string()), d()).map_err(|e| format!("reassemble: {e}"))?;
        let want = name.unwrap_or("main");
        let f = g.children(g.module_root()).find(|n| g.get_optype(*n).as_func_defn().is_some_and(|f| f.func_name() == want)).ok_or("reassemble: the function is not there")?;
        same_fn(&g, f, want).map_err(|e| format!("reassemble: {e}"))?;
    }
    if e.reassemble(h.module_root(), None, d()).is_ok() {
        return Err("reassemble gives a region that was not encoded".into());
    }
    // next to what is there already
    let mut g = h.clone();
    let f = s.decode_inplace(&mut g, DecodeInsertionTarget::function("other"), d()).map_err(|e| format!("as a function: {e}"))?;
    if g.entrypoint() != main {
        return Err("as a function: another entrypoint".into());
    }
    same_fn(&g, f, "other").map_err(|e| format!("as a function: {e}"))?;
    same_fn(&g, main, "main").map_err(|e| format!("what was there: {e}"))?;
    // as a region of a function
    let (g, f) = as_function(&sig, |g, f| {
        let r = s.decode_inplace(g, DecodeInsertionTarget::Region { parent: f }, d()).map_err(|e| format!("as a region: {e}"))?;
        if g.get_parent(r) != Some(f) {
            return Err("as a region: elsewhere".into());
        }
        Ok(r)
    })?;
    same_fn(&g, f, "main").map_err(|e| format!("as a region: {e}"))
}
/// A main function around one region
fn as_function(sig: &Signature, region: impl FnOnce(&mut Hugr, Node) -> Result<Node, String>) -> Result<(Hugr, Node), String> {
    let mut g = Hugr::new();
    let f = g.add_node_with_parent(g.module_root(), FuncDefn::new("main", sig.clone()));
    let i = g.add_node_with_parent(f, Input::new(sig.input.clone()));
    let out = g.add_node_with_parent(f, Output::new(sig.output.clone()));
    let r = region(&mut g, f)?;
    (0..sig.input.len()).for_each(|k| g.connect(i, k, r, k));
    (0..sig.output.len()).for_each(|k| g.connect(r, k, out, k));
    Ok((g, f))
}
fn region_ops(h: &Hugr, main: Node) -> Vec<Node> {
    h.children(main).filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_))).collect()
}
/// An operation without counterpart is attached to qubits or bits, and refused when there are none
fn not_encoded(e: &str) -> String {
    let skip = if e.contains("no qubits or bits") { "SKIP " } else { "" };
    format!("{skip}not encoded: {e}")
}
/// Errors that are documented: what is kept as a program must be flat and have no edges to the outside
fn refused(h: &Hugr, main: Node, e: &str) -> bool {
    let nested = region_ops(h, main).into_iter().any(|n| h.first_child(n).is_some() || h.get_optype(n).tag() <= OpTag::FnCall || h.get_optype(n).tag() == OpTag::LoadFunc);
    nested && (e.contains("nested structure") || e.contains("non-local"))
}
/// A circuit holds everything the program does: every wire has qubits or bits, or parameters made from such
fn complete(h: &Hugr, main: Node) -> bool {
    let ok = |t: &tket::hugr::types::Type| *t == qb_t() || *t == bool_t() || *t == tket::extension::bool::bool_type();
    let s = h.get_optype(main).as_func_defn().unwrap().signature().body().clone();
    s.output.iter().all(ok)
        && s.input.iter().all(|t| ok(t) || *t == rotation_type())
        && region_ops(h, main).into_iter().all(|n| {
            let o = h.get_optype(n);
            // something that acts on neither qubits nor bits, for its effect alone
            let sig = h.signature(n);
            sig.is_none_or(|s| s.output.iter().next().is_some() || s.input.iter().any(ok)) || o.is_const()
        })
}
/// The behaviour of the circuit by itself, for programs that are translated entirely
fn circuit_alone(ctx: &Ctx, h: &Hugr, region: Node, j: &J, before: &Behaviour, ord: bool) -> Result<(), String> {
    let s = j["commands"].to_string();
    if s.contains("HugrExternal") || s.contains("HugrInline") || ord {
        return Ok(());
    }
    let sig = h.get_optype(region).as_func_defn().unwrap().signature().body().clone();
    let bit = |t: &tket::hugr::types::Type| *t == bool_t() || *t == tket::extension::bool::bool_type();
    let count = |r: &tket::hugr::types::TypeRow| (r.iter().filter(|t| **t == qb_t()).count(), r.iter().filter(|t| bit(t)).count());
    // inputs: qubits, bits, rotations; outputs: all those qubits, then bits
    let rank = |t: &tket::hugr::types::Type| if *t == qb_t() { 0 } else if bit(t) { 1 } else if *t == rotation_type() { 2 } else { 9 };
    let sorted = |r: &tket::hugr::types::TypeRow| r.iter().map(rank).is_sorted() && r.iter().all(|t| rank(t) < 9);
    let (qi, bi) = count(&sig.input);
    let (qo, bo) = count(&sig.output);
    if !sorted(&sig.input) || !sorted(&sig.output) || sig.output.iter().any(|t| rank(t) == 2) || region_ops(h, region).iter().any(|n| unsupported(h.get_optype(*n))) {
        return Ok(());
    }
    let args = args_for(&sig.input.iter().cloned().collect::<Vec<_>>()).ok_or("SKIP no arguments")?;
    let mut syms = HashMap::new();
    for (k, a) in args[qi + bi..].iter().enumerate() {
        if let Arg::Val(v) = a {
            syms.insert(format!("f{k}"), v.f());
        }
    }
    let got = c15::reference_io(ctx, j, (qi, bi), (qo, bo), &args, &syms)?;
    same(before, &got).map_err(|e| format!("{e}: {}", j["commands"]))
}
fn unsupported(o: &OpType) -> bool {
    matches!(o, OpType::Conditional(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::DFG(_) | OpType::Call(_) | OpType::CallIndirect(_))
        || o.as_extension_op().is_some_and(|x| matches!(x.def().extension_id().to_string().as_str(), "tket.result" | "mc" | "tket.debug" | "tket.global_phase") || matches!(x.def().name().to_string().as_str(), "panic" | "exit" | "QFree"))
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let mut io: Vec<String> = vec![];
    let mut add = |pre: &str, ins: &str, start: &str, al: &[&str], n: usize, post: &str| {
        jobs.extend(programs(ins, start, al, n, post).into_iter().map(|s| format!("{pre}{}", s.replace("){", ")->(*){"))));
    };
    let d = |_q: usize, t: usize| if th { t + 1 } else { t };
    // gates and measurements; qubits come and go
    let a = ["H q0", "Rz q1 a0", "CX q0 q1", "CX q1 q0", "Measure q0 -> q0 b0", "Measure q1 -> q1 b1", "MeasureFree q1 -> t0", "QAlloc -> q1", "QAlloc -> q2", "QFree q0 ->", "QFree q2 ->", "Reset q0", "read t0 -> b1", "Toffoli q0 q1 q2"];
    for n in 1..=d(3, 4) {
        add("", "q0,q1,a0", "", &a, n, "");
    }
    // bits: shared, duplicated, overwritten, unused
    let a = ["read t0 -> b0", "make_opaque b0 -> t0", "make_opaque b1 -> t1", "tand t0 t1 -> t2", "txor t0 t0 -> t0", "tnot t0 -> t1", "tor t1 t2 -> t0", "teq t1 t0 -> t1", "Measure q0 -> q0 b1", "ttrue -> t1", "tfalse -> t2", "true -> b1", "noop b0 -> b1", "noop b1 -> b0"];
    for n in 1..=d(3, 4) {
        add("", "q0,b0,t0,t1", "", &a, n, "");
    }
    for ins in ["b0,b1", "b0,q0,b1,q1", "b1,b0,q0", "q0,b0,b1,b2"] {
        let have: Vec<&str> = ins.split(',').collect();
        let lin: Vec<&str> = have.iter().copied().filter(|s| s.starts_with('q')).collect();
        let cop: Vec<&str> = have.iter().copied().filter(|s| !s.starts_with('q')).collect();
        // every list of at most three copyable outputs, with the qubits in every order and place
        let mut lists: Vec<Vec<&str>> = vec![vec![]];
        let mut last = lists.clone();
        for _ in 0..3 {
            last = last.iter().flat_map(|l| cop.iter().map(|c| [l.clone(), vec![*c]].concat())).collect();
            lists.extend(last.clone());
        }
        for l in lists {
            for o in c15::orders(lin.len(), lin.len()) {
                let q: Vec<&str> = o.iter().map(|k| lin[*k]).collect();
                let mut all: Vec<Vec<&str>> = vec![[q.clone(), l.clone()].concat()];
                if !q.is_empty() {
                    all.push([l.clone(), q.clone()].concat());
                }
                for outs in all {
                    for body in ["", if q.is_empty() { "" } else { "Measure q0 -> q0 b0" }] {
                        if body.is_empty() || cop.contains(&"b0") {
                            let s = format!("fn main({ins})->({}){{{body}}}", outs.join(","));
                            io.push(s);
                        }
                    }
                }
            }
        }
    }
    // parameters
    let a = ["radd a0 a1 -> a0", "rot(0.25) -> a1", "Rz q0 a0", "Rx q0 a1", "CRz q0 q1 a0", "to_halfturns a0 -> f0", "f64(0.5) -> f1", "fmul f0 f1 -> f0", "from_halfturns_unchecked f0 -> a1", "pack a0 a1 -> Paa0", "unpack Paa0 -> a1 a0", "noop a0 -> a1", "phase a0", "fmax f0 f1 -> f0"];
    for n in 1..=d(2, 3) {
        add("", "q0,q1,a0,a1,f0", "", &a, n, "");
    }
    let a3 = ["radd a0 a1 -> a0", "Rz q0 a0", "to_halfturns a0 -> f0", "fmax f0 f1 -> f0", "from_halfturns_unchecked f0 -> a1", "Rx q0 a1"];
    for n in 2..=d(4, 5) {
        add("", "q0,a0,a1,f0,f1", "", &a3, n, "Rz q0 a1");
    }
    // things with no counterpart: kept as they are, between other operations
    let a = ["H q0", "Measure q0 -> q0 b0", "opq1 q0", "opq2 q0 q1", "opq1b q0", "opqb q1 b0 -> q1 b0", "opb b0 -> b0", "opa a0 -> a0", "Rz q1 a0", "CX q0 q1", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b1", "int(3) -> i0", "barrier q1 q0", "barrier q0 b0", "TryQAlloc -> Oq0"];
    for n in 1..=d(2, 3) {
        add("", "q0,q1,b0,a0", "", &a, n, "");
        add("", "q0,q1,b0,a0,i1", "", &a, n, "CX q0 q1");
    }
    let a = ["opq2 q0 q1", "Measure q0 -> q0 b0", "opqb q1 b0 -> q1 b0", "CX q1 q0", "opb b0 -> b0", "Rz q1 a0", "opa a0 -> a0"];
    for n in 3..=d(3, 4) {
        add("", "q0,q1,b0,a0", "", &a, n, "");
    }
    // calls that give several bits, qubits or angles at once
    let lib = "fn g(q0)->(q0,b0,b1){true -> b0;false -> b1;H q0} fn h(b0)->(b0,b1,b2){true -> b1;false -> b2} fn k(q0)->(q0,q1,q2){QAlloc -> q1;QAlloc -> q2;X q2} fn l(q0,q1)->(q0){QFree q1 ->} ";
    let a = ["call g q0 -> q0 b0 b1", "call h b0 -> b2 b1 b0", "call h b1 -> b0 b3 b1", "call k q0 -> q1 q2 q0", "call l q1 q0 -> q0", "Measure q0 -> q0 b0", "MeasureFree q1 -> t0", "read t0 -> b3", "opb b0 -> b0", "CX q0 q1"];
    for n in 1..=d(3, 4) {
        add(lib, "q0,q1,b0", "", &a, n, "");
    }
    // effects, with and without an order
    let a = ["res_bool(r) b0", "res_bool(s) b1", "Measure q0 -> q0 b0", "H q0", "err(3,bye) -> E0; if b1 {exit E0 ->}", "CX q0 q1"];
    for n in 1..=3 {
        add("ord:", "q0,q1,b0,b1", "", &a, n, "");
    }
    // nested regions
    let lib = "fn f(q0,b0)->(q0,b0){if b0 {X q0}; Measure q0 -> q0 b0} ";
    let a = ["if b0 {X q0}", "if b1 {H q0; CX q0 q1} else {Measure q0 -> q0 b0}", "dfg {H q0; CX q0 q1}", "dfg {Measure q0 -> q0 b0; Rz q1 a0}", "dfgx {H q0; rot(0.5) -> a1; radd a0 a1 -> a2; Rz q0 a2}", "until b0 {H q1; Measure q1 -> q1 b0; true -> b0}", "cfg b1 {CX q0 q1} else {X q0}", "Measure q0 -> q0 b0", "H q1", "call f q0 b0", "CX q0 q1"];
    for n in 1..=d(2, 3) {
        add(lib, "q0,q1,b0,b1,a0", "", &a, n, "");
    }
    for s in ["if b0 {dfg {H q0; MeasureFree q1 -> t0; QAlloc -> q1; read t0 -> b1}}", "dfg {dfg {CX q1 q0; Rz q0 a0}; H q0}", "dfgx {dfgx {Rz q0 a0; CX q0 q1}}"] {
        add(lib, "q0,q1,b0,b1,a0", "", &[s, "CX q0 q1"], 2, "");
    }
    // arrays and other types
    let a = ["anew q0 q1 -> A2q0", "aunpack A2q0 -> q0 q1", "H q0", "noop A2q0 -> A2q0", "Measure q0 -> q0 b0", "anew b0 b1 -> A2b0", "aunpack A2b0 -> b1 b0", "pack b0 b1 -> Pbb0", "unpack Pbb0 -> b1 b0", "tag(1) q0 -> Oq0"];
    for n in 1..=d(3, 4) {
        add("", "q0,q1,b0,b1", "", &a, n, "");
    }
    let a = ["pack b0 b1 -> Pbb0", "unpack Pbb0 -> b1 b0", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b1", "Measure q0 -> q0 b0", "H q0", "noop Pbb0 -> Pbb0", "opb b0 -> b0", "pack Pbb0 q0 -> PPbbq0", "unpack PPbbq0 -> Pbb0 q0", "noop b0 -> b1"];
    for n in 1..=d(2, 3) {
        for ins in ["q0,b0,b1,Pbb0", "b0,b1,Pqb0,Pqb1", "PPbbq0,Pbb0,b1", "Pbt0,q0,t0,Paq0"] {
            add("", ins, "", &a, n, "");
        }
    }
    for ins in ["q0,b0,b1", "Pbb0,b0", "q1,Pqb0"] {
        add("", ins, "", &a, d(3, 4), "");
    }
    // operations without counterpart that give angles
    let a = ["opqa q0 a0 -> q0 a0", "opqa q1 a0 -> q1 a1", "Rz q0 a0", "Rx q1 a1", "radd a0 a1 -> a0", "to_halfturns a0 -> f0", "from_halfturns_unchecked f0 -> a1", "pack q0 a0 -> Pqa0", "unpack Pqa0 -> q0 a1", "opa a1 -> a1", "CX q0 q1"];
    for n in 1..=d(3, 4) {
        add("", "q0,q1,a0,a1", "", &a, n, "");
    }
    // qsystem
    let a = ["qsRz q0 f0", "PhasedX q0 f0 f1", "ZZPhase q0 q1 f0", "qsMeasure q0 -> t0", "MeasureReset q1 -> q1 t0", "qsReset q0", "qsTryQAlloc -> Oq0", "qsQFree q1 ->", "LazyMeasure q0 -> m0", "LazyMeasureReset q1 -> q1 m0", "Read m0 -> b0", "f64(0.5) -> f0", "fmul f0 f1 -> f1", "read t0 -> b0", "H q0", "QAlloc -> q0"];
    for n in 1..=d(2, 3) {
        add("qs ", "q0,q1,f0,f1", "", &a, n, "");
    }
    let a = ["LazyMeasure q0 -> m0", "LazyMeasureReset q1 -> q1 m0", "Read m0 -> b0", "Read m1 -> b1", "Dup m0 -> m0 m1", "Free m0 ->", "Free m1 ->", "QAlloc -> q0", "H q1", "anew q0 q1 -> V2q0; rtbarrier V2q0 -> V2q0; aunpack V2q0 -> q0 q1"];
    for n in 1..=d(4, 5) {
        add("qs ", "q0,q1", "", &a, n, "");
    }
    for n in 1..=d(2, 3) {
        add("qs ", "q0,q1,m1,V2q0", "", &[&a[..], &["rtbarrier V2q0 -> V2q0"]].concat(), n, "");
    }
    // angles that only the circuit needs
    let a = ["opqa q0 a0 -> q0 a0", "opqa q1 a0 -> q1 a1", "Rz q0 a0", "Rx q1 a1", "radd a0 a1 -> a0", "opq2 q0 q1", "to_halfturns a0 -> f0; fmul f0 f0 -> f0; from_halfturns_unchecked f0 -> a1"];
    for n in 1..=d(3, 4) {
        for ins in ["q0,q1,a0,a1", "q0,a0,a1,q1"] {
            io.extend(programs(ins, "", &a, n, "").into_iter().map(|s| s.replace("){", ")->(q0,q1){")));
        }
    }
    jobs.extend(io);
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
