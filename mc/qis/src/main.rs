//! C23: the generated LLVM code, run on every measurement outcome against a recording runtime.
#![allow(dead_code)]
#[path = "../../core/src/ctx.rs"]
mod ctx;
#[path = "../../core/src/gen.rs"]
mod gen;
#[path = "../../core/src/interp.rs"]
mod interp;
#[path = "../../core/src/prog.rs"]
mod prog;
mod pyt;
#[path = "../../core/src/qs.rs"]
mod qs;
mod rt;
#[path = "../../core/src/sim.rs"]
mod sim;
mod space;
mod worker;

use ctx::Ctx;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Peer {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Peer {
    fn new() -> Peer {
        let mut child = Command::new(std::env::current_exe().unwrap()).arg("--worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let (tx, rx) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Peer { child, tx, rx }
    }
    fn ask(&mut self, j: &J) -> Option<J> {
        writeln!(self.tx, "{j}").ok()?;
        let mut l = String::new();
        self.rx.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
fn check(ctx: &Ctx, key: &str, opts: &[u32]) -> Result<(), String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let a = p.get_or_insert_with(Peer::new).ask(&json!({"key": key, "opts": opts}));
        let Some(a) = a else {
            let s = p.take().and_then(|mut p| p.child.wait().ok());
            return Err(format!("the process that compiles and runs the program died: {s:?}"));
        };
        if let Some(e) = a["err"].as_str() {
            return Err(e.into());
        }
        let n = |k: &str| a[k].as_u64().unwrap_or(0);
        ctx.states(n("branches"));
        ctx.trans(n("events"));
        ctx.traces(n("branches") * opts.len() as u64);
        ctx.count("allocations left at the end", n("heap"));
        Ok(())
    })
}
fn run(ctx: &Ctx, thorough: bool) {
    let opts: Vec<u32> = if thorough { vec![0, 1, 2, 3] } else { vec![0, 2] };
    ctx.bound("optimisation levels", json!(opts));
    if let Some(k) = ctx.only() {
        let k = k.to_string();
        ctx.case(&k, || check(ctx, &k, &opts));
        return;
    }
    let all = space::programs(thorough);
    for (name, v) in &all {
        ctx.bound(&format!("programs: {name}"), v.len() as u64);
    }
    let flat: Vec<String> = all.into_iter().flat_map(|x| x.1).collect();
    ctx.par(flat.len(), |i| ctx.case(&flat[i], || check(ctx, &flat[i], &opts)));
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--worker") {
        worker::serve();
        return;
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let ctx = Ctx::new(&args[1], thorough, get("--case"));
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&ctx, thorough))).is_err() {
        let p = ctx::PANIC.with(|p| p.borrow().clone());
        ctx.fail("preparing the cases", &format!("panic: {p}"));
    }
    std::process::exit(ctx.finish());
}
