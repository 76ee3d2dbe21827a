//! C10: optimising circuits with the shipped optimiser: unitary, signature, cost.
use crate::c05::{graph, Terms};
use crate::ctx::*;
use crate::gen::*;
use crate::interp::{same, Behaviour};
use itertools::Itertools;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use std::num::NonZeroUsize;
use tket::hugr::ops::OpType;
use tket::hugr::HugrView;
use tket::optimiser::badger::{BadgerOptions, DefaultBadgerStrategy, ECCBadgerOptimiser};
use tket::optimiser::{BadgerLogger, BadgerOptimiser};
use tket::rewrite::strategy::*;
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::Circuit;

fn form(c: &Circuit) -> String {
    let g = graph(c.hugr(), c.parent());
    let mut l = g.label[2..].to_vec();
    l.sort();
    format!("{:?} {:?}", Terms::plain(&g).outputs(), l)
}
fn count(c: &Circuit, f: impl Fn(&str) -> bool) -> usize {
    c.hugr().descendants(c.parent()).filter(|n| matches!(c.hugr().get_optype(*n), OpType::ExtensionOp(e) if f(e.def().name()))).count()
}
fn quantum(n: &str) -> bool {
    ["H", "X", "T", "Tdg", "S", "CX", "CZ", "Rz", "Rx", "Measure", "MeasureFree", "QAlloc", "QFree", "TryQAlloc", "Reset", "Y", "Z", "V", "CY"].contains(&n)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cost {
    Cx,
    Rz,
    Gates,
}
fn cost(k: Cost, c: &Circuit) -> (usize, usize) {
    match k {
        Cost::Cx => (count(c, |n| n == "CX"), count(c, quantum)),
        Cost::Rz => (count(c, |n| n == "Rz"), count(c, quantum)),
        Cost::Gates => (count(c, |n| !["MakeTuple", "UnpackTuple", "Noop"].contains(&n)), 0),
    }
}
type Run = Box<dyn Fn(&Circuit, BadgerLogger, BadgerOptions) -> Circuit + Sync + Send>;
struct Opt {
    name: String,
    cost: Cost,
    run: Run,
}
fn opts(files: &[&str]) -> Vec<Opt> {
    let mut out: Vec<Opt> = vec![];
    let mut add = |name: String, cost: Cost, run: Run| out.push(Opt { name, cost, run });
    for f in files {
        let p = format!("/repo/test_files/eccs/{f}");
        let r = if f.ends_with(".rwr") { ECCRewriter::load_binary(&p).unwrap() } else { ECCRewriter::try_from_eccs_json_file(&p).unwrap() };
        let o = if f.ends_with(".rwr") { ECCBadgerOptimiser::default_with_rewriter_binary(&p).unwrap() } else { ECCBadgerOptimiser::default_with_eccs_json_file(&p).unwrap() };
        add(format!("{f} default"), Cost::Cx, Box::new(move |c, l, k| o.optimise_with_log(c, l, k)));
        let o = if f.ends_with(".rwr") { ECCBadgerOptimiser::rz_opt_with_rewriter_binary(&p).unwrap() } else { ECCBadgerOptimiser::rz_opt_with_eccs_json_file(&p).unwrap() };
        add(format!("{f} rz"), Cost::Rz, Box::new(move |c, l, k| o.optimise_with_log(c, l, k)));
        let o = BadgerOptimiser::new(r.clone(), DefaultBadgerStrategy::default());
        add(format!("{f} cx"), Cost::Cx, Box::new(move |c, _, k| o.optimise(c, k)));
        let o = BadgerOptimiser::new(r.clone(), GreedyRewriteStrategy);
        add(format!("{f} greedy"), Cost::Gates, Box::new(move |c, _, k| o.optimise(c, k)));
        let o = BadgerOptimiser::new(r.clone(), LexicographicCostFunction::cx_count().into_threshold_strategy());
        add(format!("{f} threshold"), Cost::Cx, Box::new(move |c, _, k| o.optimise(c, k)));
    }
    out
}
fn config(q: usize, max: Option<usize>, threads: usize, split: bool, t: Option<u64>, p: Option<u64>) -> BadgerOptions {
    BadgerOptions { queue_size: q, max_circuit_count: max, n_threads: NonZeroUsize::new(threads).unwrap(), split_circuit: split, timeout: t, progress_timeout: p }
}
fn check(ctx: &Ctx, opts: &[Opt], configs: &[BadgerOptions], c: &Circuit) -> Result<(), String> {
    let before = behave(ctx, c.hugr(), c.parent())?;
    let sig = c.circuit_signature().into_owned();
    let mut seen: HashMap<String, Behaviour> = HashMap::new();
    let start = form(c);
    for o in opts {
        let old = cost(o.cost, c);
        for k in configs {
            let what = format!("{} queue {} count {:?} threads {}{} timeouts {:?} {:?}", o.name, k.queue_size, k.max_circuit_count, k.n_threads, if k.split_circuit { " split" } else { "" }, k.timeout, k.progress_timeout);
            let mut log = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)(c, BadgerLogger::new(&mut log), *k)));
            let Ok(r) = r else { return Err(format!("{what}: panic {}", PANIC.with(|p| p.borrow().clone()))) };
            ctx.trans(1);
            r.hugr().validate().map_err(|e| format!("{what}: {e}"))?;
            if *r.circuit_signature() != sig {
                return Err(format!("{what}: the signature changed to {}", r.circuit_signature()));
            }
            let new = cost(o.cost, &r);
            if new > old {
                return Err(format!("{what}: the cost was {old:?} and is {new:?}"));
            }
            let f = form(&r);
            if !seen.contains_key(&f) {
                let b = behave(ctx, r.hugr(), r.parent()).map_err(|e| format!("{what}: {e}"))?;
                same(&before, &b).map_err(|e| format!("{what}: {e}"))?;
                ctx.traces(1);
                if f != start {
                    ctx.count("circuits changed", 1);
                }
                seen.insert(f, b);
            }
        }
    }
    ctx.states(1);
    if form(c) != start {
        return Err("the input circuit changed".into());
    }
    Ok(())
}
/// Lets the threads of the chunks finish in one given order: thread `chunk-k` starts its work when the one before it
/// in that order has ended (or after a while, should the work be spread over threads in another way).
#[derive(Clone)]
struct Ordered {
    inner: ECCRewriter,
    turns: Arc<Turns>,
}
struct Turns {
    order: Vec<usize>,
    at: Mutex<usize>,
    wake: Condvar,
    most: AtomicUsize,
    late: AtomicBool,
}
struct Ends(Arc<Turns>);
impl Drop for Ends {
    fn drop(&mut self) {
        *self.0.at.lock().unwrap() += 1;
        self.0.wake.notify_all();
    }
}
thread_local!(static ENDS: RefCell<Option<Ends>> = const { RefCell::new(None) });
impl Ordered {
    fn new(inner: &ECCRewriter, order: &[usize]) -> Self {
        Ordered { inner: inner.clone(), turns: Arc::new(Turns { order: order.to_vec(), at: Mutex::new(0), wake: Condvar::new(), most: AtomicUsize::new(0), late: AtomicBool::new(false) }) }
    }
}
impl Rewriter for Ordered {
    fn get_rewrites(&self, circ: &Circuit<impl HugrView<Node = tket::hugr::Node>>) -> Vec<CircuitRewrite> {
        let me: Option<usize> = std::thread::current().name().and_then(|n| n.strip_prefix("chunk-")?.parse().ok());
        if let Some(k) = me {
            let t = &self.turns;
            t.most.fetch_max(k + 1, SeqCst);
            let first = ENDS.with(|e| e.borrow_mut().replace(Ends(t.clone())).map(std::mem::forget).is_none());
            if let (true, Some(turn)) = (first, t.order.iter().position(|x| *x == k)) {
                let g = t.at.lock().unwrap();
                let (_g, r) = t.wake.wait_timeout_while(g, Duration::from_secs(2), |at| *at < turn && !t.late.load(SeqCst)).unwrap();
                if r.timed_out() {
                    t.late.store(true, SeqCst);
                }
            }
        }
        self.inner.get_rewrites(circ)
    }
}
/// Every order in which the chunks can be finished gives the same circuit
fn finishing_orders(ctx: &Ctx, rw: &ECCRewriter, c: &Circuit, threads: usize) -> Result<(), String> {
    let cfg = config(4, Some(6), threads, true, None, None);
    let run = |order: &[usize]| {
        let o = Ordered::new(rw, order);
        let t = o.turns.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| BadgerOptimiser::new(o, DefaultBadgerStrategy::default()).optimise(c, cfg)))
            .map_err(|_| format!("chunks finished in order {order:?}: panic {}", PANIC.with(|p| p.borrow().clone())))?;
        ctx.trans(1);
        if t.late.load(SeqCst) {
            ctx.count("orders not forced", 1);
        }
        Ok::<_, String>((r, t.most.load(SeqCst)))
    };
    let before = behave(ctx, c.hugr(), c.parent())?;
    let old = cost(Cost::Cx, c);
    let (_, n) = run(&[])?;
    let mut seen: Vec<String> = vec![];
    let all: Vec<Vec<usize>> = if n <= 4 { (0..n).permutations(n).collect() } else { (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).chain([(0..n).rev().collect()]).collect() };
    for order in all {
        let (r, _) = run(&order)?;
        let what = format!("chunks finished in order {order:?}");
        r.hugr().validate().map_err(|e| format!("{what}: {e}"))?;
        if cost(Cost::Cx, &r) > old {
            return Err(format!("{what}: the cost was {old:?} and is {:?}", cost(Cost::Cx, &r)));
        }
        let f = form(&r);
        if !seen.contains(&f) {
            same(&before, &behave(ctx, r.hugr(), r.parent())?).map_err(|e| format!("{what}: {e}"))?;
            seen.push(f);
        }
        ctx.count("orders of finished chunks", 1);
        ctx.traces(1);
    }
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut files = vec!["small_eccs.json", "nam_4_2.rwr"];
    if th {
        files.extend(["h_rz_cxcomplete_ECC_set.json", "nam_4_2.json", "small_eccs.rwr", "cx_cx_eccs.json", "h_h_eccs.json"]);
    }
    let all = opts(&files);
    let lim = |k: usize| if th { k * 2 } else { k };
    let single: Vec<BadgerOptions> = vec![
        config(20, Some(lim(8)), 1, false, None, None),
        config(1, Some(lim(12)), 1, false, None, None),
        config(2, Some(1), 1, false, None, Some(1000)),
        config(3, Some(lim(4)), 1, true, Some(1000), None),
        config(20, None, 1, false, Some(0), None),
        config(20, None, 1, false, None, Some(0)),
    ];
    let split: Vec<BadgerOptions> = vec![config(20, Some(lim(4)), 2, true, None, None), config(2, Some(lim(6)), 3, true, None, None), config(20, Some(2), 7, true, None, None), config(4, None, 2, true, Some(0), None)];
    let threads: Vec<BadgerOptions> = vec![config(20, None, 2, false, Some(0), None), config(2, None, 3, false, Some(1000), Some(0))];
    let mut cases: Vec<(String, String)> = vec![];
    let gates = ["H q0", "H q1", "X q0", "T q1", "Tdg q1", "CX q0 q1", "CX q1 q0"];
    let rots = ["H q0", "Rz q0 a0", "Rz q0 a1", "Rz q1 a0", "Rz(0.25) q0", "Rz(0.75) q1", "CX q0 q1", "X q1"];
    let more = ["CX q0 q1", "CX q1 q2", "H q2", "Measure q2 -> q2 b0", "QFree q2 ->", "QAlloc -> q2", "dfg {CX q0 q1; CX q0 q1}", "CX q1 q0"];
    for n in 0..=if th { 5 } else { 4 } {
        cases.extend(programs("q0,q1", "", if n < 4 || th && n < 5 { &gates } else { &["CX q0 q1", "CX q1 q0", "H q0"] }, n, "").into_iter().map(|p| ("gates".into(), p)));
        if n < 4 || th {
            cases.extend(programs("q0,q1,a0,a1", "", if n < 3 || th && n < 4 { &rots } else { &["Rz q0 a0", "CX q0 q1", "Rz q0 a1"] }, n, "").into_iter().map(|p| ("rotations".into(), p)));
            cases.extend(programs("q0,q1,q2", "", if n < 3 || th && n < 4 { &more } else { &["CX q0 q1", "CX q1 q2", "H q2", "CX q1 q0"] }, n, "").into_iter().map(|p| ("others".into(), p)));
        }
    }
    cases.sort();
    cases.dedup();
    ctx.bound("circuits", cases.len() as u64);
    for (name, cfg) in [("whole", &single), ("split", &split), ("threads", &threads)] {
        // the thread schedule is the system's; C09 explores schedules
        let step = if name == "threads" { 23 } else { 1 };
        ctx.par(cases.len().div_ceil(step), |i| {
            let p = &cases[i * step].1;
            ctx.case(&format!("{name} @ {p}"), || {
                let (_, c) = match circuit(p) {
                    Ok(x) => x,
                    Err(e) => return Err(e),
                };
                check(ctx, &all, cfg, &c)
            });
        });
    }
    let rw = ECCRewriter::load_binary("/repo/test_files/eccs/nam_4_2.rwr").unwrap();
    let mut cases: Vec<String> = vec![];
    for n in 2..=if th { 5 } else { 4 } {
        cases.extend(programs("q0,q1", "", &["CX q0 q1", "CX q1 q0", "H q0", "T q1"], n, ""));
    }
    ctx.par(cases.len(), |i| {
        let p = &cases[i];
        ctx.case(&format!("orders @ {p}"), || {
            let (_, c) = circuit(p)?;
            for threads in if th { 2..5 } else { 2..4 } {
                finishing_orders(ctx, &rw, &c, threads)?;
            }
            Ok(())
        });
    });
}
