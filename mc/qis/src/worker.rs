//! Compiles one program, runs it on every measurement outcome and compares with the reference. One process per thread.
use crate::interp::*;
use crate::qs;
use crate::rt;
use pyo3::prelude::*;
use pyo3::types::PyBytes;
use serde_json::{json, Value as J};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::rc::Rc;
use tket::hugr::envelope::EnvelopeConfig;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::llvm::inkwell;
use tket::hugr::llvm::inkwell::values::BasicValue;
use tket::hugr::ops::OpType;
use tket::hugr::package::Package;
use tket::hugr::{Hugr, HugrView, Node};

extern crate qis as _;
extern "C" {
    fn PyInit_selene_hugr_qis_compiler() -> *mut pyo3::ffi::PyObject;
}
pub const TC: i64 = 5;

fn start_python() {
    unsafe {
        pyo3::ffi::PyImport_AppendInittab(c"selene_hugr_qis_compiler".as_ptr(), Some(PyInit_selene_hugr_qis_compiler));
    }
    Python::initialize();
}
/// The published entry point: a stored package in, LLVM bitcode out
fn compile(pkg: &[u8], opt: u32) -> Result<Vec<u8>, String> {
    Python::attach(|py| -> PyResult<Vec<u8>> {
        let m = py.import("selene_hugr_qis_compiler")?;
        m.call_method1("compile_to_bitcode", (PyBytes::new(py, pkg), opt))?.extract()
    })
    .map_err(|e| format!("compilation fails: {e}"))
}

/// What the runtime does and what is run
#[derive(Clone, Copy, Default)]
struct How {
    /// allocations may fail
    fail: bool,
    /// calls of the GPU library may fail
    gpufail: bool,
    /// the program is run twice in one process
    twice: bool,
    /// the entry point is the module
    module: bool,
}
impl How {
    fn set(&self, m: &mut Machine) {
        m.alloc_may_fail = self.fail;
        m.gpu.may_fail = self.gpufail;
    }
}
/// One behaviour of the reference
pub struct Run {
    script: Oracle,
    ev: Vec<String>,
}
/// All behaviours of the lowered program
fn reference(h: &Hugr, main: Node, how: How) -> Result<Vec<Run>, String> {
    let prog = Prog::new(h);
    let mut out = vec![];
    let mut oracle = Oracle::default();
    loop {
        let mut m = Machine::new();
        m.rt = Some(vec![format!("setup {TC}")]);
        how.set(&mut m);
        m.oracle = oracle;
        let mut r = prog.call_fn(&mut m, main, vec![], Rc::new(vec![]));
        if how.twice && r.is_ok() {
            m.rt.as_mut().unwrap().extend(["teardown".to_string(), format!("setup {TC}")]);
            r = prog.call_fn(&mut m, main, vec![], Rc::new(vec![]));
        }
        let mut ev = m.rt.take().unwrap();
        match r {
            Ok(_) => ev.extend(["teardown".to_string(), "return 77".to_string()]),
            Err(Stop::Panic(_) | Stop::Exit(_)) => {
                if !ev.last().is_some_and(|e| e.starts_with("panic ")) {
                    ev.push("panic *".into())
                }
            }
            Err(Stop::Fuel) => return Err("SKIP does not end".into()),
            Err(Stop::Bad(s)) => return Err(format!("reference: {s}")),
        }
        out.push(Run { script: m.oracle.clone(), ev });
        if out.len() > 600 {
            return Err("SKIP too many branches".into());
        }
        oracle = std::mem::take(&mut m.oracle);
        if !oracle.next() {
            return Ok(out);
        }
    }
}
fn close(a: &str, b: &str) -> bool {
    if a == b || a == "*" {
        return true;
    }
    // only numbers with a fraction may differ
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) if a.contains(['.', 'e']) && b.contains(['.', 'e']) => (x - y).abs() <= 1e-9 * x.abs().max(1.0) || x.is_nan() && y.is_nan(),
        _ => false,
    }
}
fn same_event(a: &str, b: &str) -> bool {
    if a == "panic *" {
        return b.starts_with("panic ");
    }
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| close(x, y))
}
fn compare(want: &[String], got: &[String]) -> Result<(), String> {
    for k in 0..want.len().max(got.len()) {
        let (a, b) = (want.get(k).map_or("(end)", |x| x), got.get(k).map_or("(end)", |x| x));
        if !same_event(a, b) {
            let n = |e: &str| e.split(' ').next().unwrap_or("").to_string();
            return Err(format!("the runtime sees {} where the program has {} | call {k}: {b} instead of {a} | program: {} | runtime: {}", n(b), n(a), want.join("; "), got.join("; ")));
        }
    }
    Ok(())
}
/// Run the code in a child process with the given measurement outcomes
fn run_child(f: usize, script: &Oracle, how: How) -> Result<J, String> {
    let mut p = [0i32; 2];
    unsafe {
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err("SKIP pipe".into());
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::alarm(20);
            let mut m = Machine::new();
            m.rt = Some(vec![]);
            how.set(&mut m);
            m.oracle = Oracle { script: script.script.clone(), arity: script.arity.clone(), pos: 0 };
            rt::W = Some(rt::world(m, p[1]));
            let q: extern "C" fn(i64) -> i64 = std::mem::transmute(f);
            if how.twice {
                q(TC);
            }
            let r = q(TC);
            rt::end(&format!("return {r}"));
        }
        libc::close(p[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(p[0]).read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            return Err(format!("the generated code dies (wait status {st:#x})"));
        }
        serde_json::from_str(&s).map_err(|e| format!("the generated code dies without an answer ({e})"))
    }
}
/// Key: "[mod ][fail ][gpufail ][twice ]program"
pub fn case(key: &str, opts: &[u32]) -> Result<J, String> {
    let (mut t, mut how) = (key, How::default());
    loop {
        match t.split_once(' ') {
            Some(("mod", r)) => (t, how.module) = (r, true),
            Some(("fail", r)) => (t, how.fail) = (r, true),
            Some(("gpufail", r)) => (t, how.gpufail) = (r, true),
            Some(("twice", r)) => (t, how.twice) = (r, true),
            _ => break,
        }
    }
    let (b, _) = qs::source(&format!("ordb:{t}")).map_err(|e| if e.starts_with("SKIP") { format!("SKIP flow: {}", &e[4..]) } else { format!("program: {e}") })?;
    let mut h = b.hugr.clone();
    let low = qs::compile(&h, b.main, Default::default()).map_err(|e| format!("SKIP lowering {e}"))?;
    let runs = reference(&low, low.entrypoint(), how)?;
    if how.module {
        h.set_entrypoint(h.module_root());
    } else {
        h.set_entrypoint(b.main);
    }
    let exts = h.extensions().clone();
    let mut p = Package::new([h]);
    p.extensions = exts;
    let mut pkg = vec![];
    p.store(&mut pkg, EnvelopeConfig::binary()).map_err(|e| format!("SKIP store {e}"))?;
    let (mut events, mut heap) = (0, 0);
    for opt in opts {
        let bc = compile(&pkg, *opt)?;
        let ctx = inkwell::context::Context::create();
        let buf = inkwell::memory_buffer::MemoryBuffer::create_from_memory_range_copy(&bc, "m");
        let module = inkwell::module::Module::parse_bitcode_from_buffer(&buf, &ctx).map_err(|e| format!("unreadable bitcode: {e}"))?;
        // the execution engine has one thread
        for g in module.get_globals() {
            g.set_thread_local(false);
        }
        let ee = module.create_jit_execution_engine(inkwell::OptimizationLevel::None).map_err(|e| format!("no execution engine: {e}"))?;
        let table = rt::table();
        let mut f = module.get_first_function();
        while let Some(x) = f {
            f = x.get_next_function();
            let name = x.get_name().to_string_lossy().into_owned();
            if x.count_basic_blocks() == 0 && !name.starts_with("llvm.") {
                match table.iter().find(|t| t.0 == name) {
                    Some((_, a)) => ee.add_global_mapping(&x, *a),
                    None if matches!(name.as_str(), "pow" | "malloc" | "free" | "abort" | "memcpy" | "memset" | "memmove" | "fmod" | "round" | "floor" | "ceil") => {}
                    None if x.as_global_value().as_pointer_value().get_first_use().is_none() => {}
                    None => return Err(format!("call of {name}, which no runtime has")),
                }
            }
        }
        let a = ee.get_function_address("qmain").map_err(|e| format!("no entry point: {e}"))?;
        for r in &runs {
            let o = run_child(a, &r.script, how).map_err(|e| format!("O{opt}: {e}"))?;
            let got: Vec<String> = o["ev"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            compare(&r.ev, &got).map_err(|e| format!("O{opt}: {e}"))?;
            events += got.len();
            heap += o["heap"].as_u64().unwrap_or(0);
        }
    }
    let main = match low.entrypoint_optype() {
        OpType::FuncDefn(f) => f.func_name().to_string(),
        _ => String::new(),
    };
    Ok(json!({"branches": runs.len(), "events": events, "heap": heap, "main": main}))
}
/// Requests on stdin, answers on stdout
pub fn serve() {
    start_python();
    // the code under test may print; keep the answers apart
    let out = unsafe {
        let fd = libc::dup(1);
        libc::dup2(2, 1);
        fd
    };
    let mut out = unsafe { std::fs::File::from_raw_fd(out) };
    if std::env::var("TKMC_HOOK").is_err() {std::panic::set_hook(Box::new(|_| ()));}
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let j: J = serde_json::from_str(&l).unwrap();
        let opts: Vec<u32> = j["opts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let key = j["key"].as_str().unwrap().to_string();
        let r = match std::panic::catch_unwind(|| case(&key, &opts)) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => json!({ "err": e }),
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"err": format!("panic: {s}")})
            }
        };
        if writeln!(out, "{r}").is_err() {
            break;
        }
    }
}
