//! C09: the multi-threaded optimiser under every schedule.
//!
//! The real coordinator, queue thread and workers run on a stand-in for `crossbeam-channel` whose operations are
//! scheduling points; every interleaving that differs in more than the order of independent operations is run.
#![allow(dead_code)]
#[path = "../../core/src/ctx.rs"]
mod ctx;
mod hooks;

use crossbeam_channel::world::{self, Event, Plan, Run, World};
use ctx::Ctx;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use tket::circuit::cost::{CircuitCost, LexicographicCost};
use tket::hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use tket::hugr::extension::prelude::qb_t;
use tket::hugr::ops::OpType;
use tket::hugr::types::Signature;
use tket::hugr::{HugrView, Node};
use tket::optimiser::badger::{BadgerOptimiser, BadgerOptions};
use tket::rewrite::strategy::{RewriteResult, RewriteStrategy};
use tket::rewrite::{CircuitRewrite, Rewriter};
use tket::{Circuit, TketOp};

/// An abstract search space: what every state is rewritten into, and its cost.
#[derive(Clone, Debug)]
struct Graph {
    name: String,
    succ: Vec<Vec<usize>>,
    cost: Vec<usize>,
}
impl Graph {
    fn new(text: &str) -> Graph {
        // "3>1,2 2>3 ..." : cost and successors of state 0, 1, ...
        let mut g = Graph { name: text.into(), succ: vec![], cost: vec![] };
        for s in text.split(' ') {
            let (c, n) = s.split_once('>').unwrap();
            g.cost.push(c.parse().unwrap());
            g.succ.push(n.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        }
        g
    }
    fn reachable(&self) -> BTreeSet<usize> {
        let mut r = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(s) = todo.pop() {
            for &n in &self.succ[s] {
                if r.insert(n) {
                    todo.push(n);
                }
            }
        }
        r
    }
}

/// State k is the circuit with k + 1 Hadamard gates.
fn circuit(k: usize) -> Circuit {
    let mut b = DFGBuilder::new(Signature::new_endo(vec![qb_t()])).unwrap();
    let mut q = b.input_wires().next().unwrap();
    for _ in 0..=k {
        q = b.add_dataflow_op(TketOp::H, [q]).unwrap().out_wire(0);
    }
    Circuit::new(b.finish_hugr_with_outputs([q]).unwrap())
}
fn state(c: &Circuit<impl HugrView<Node = Node>>) -> usize {
    c.num_operations() - 1
}

#[derive(Clone)]
struct Fake {
    g: Arc<Graph>,
    circuits: Arc<Vec<Circuit>>,
}
type Cost = LexicographicCost<usize, 1>;

impl Rewriter for Fake {
    fn get_rewrites(&self, _: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        world::current().step();
        vec![]
    }
}
impl RewriteStrategy for Fake {
    type Cost = Cost;
    fn apply_rewrites(
        &self,
        _: impl IntoIterator<Item = CircuitRewrite>,
        circ: &Circuit,
    ) -> impl Iterator<Item = RewriteResult<Cost>> {
        let s = state(circ);
        world::current().note(1, s as u32);
        let g = self.g.clone();
        let cs = self.circuits.clone();
        self.g.succ[s].clone().into_iter().map(move |n| RewriteResult {
            circ: cs[n].clone(),
            cost_delta: Cost::from([g.cost[n]]).sub_cost(&[g.cost[s]].into()),
        })
    }
    fn op_cost(&self, _: &OpType) -> Cost {
        [1].into()
    }
    fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Cost {
        [self.g.cost[state(circ)]].into()
    }
}

#[derive(Clone, Debug)]
struct Config {
    g: Arc<Graph>,
    threads: usize,
    queue: usize,
    timeout: bool,
    progress: bool,
    max: Option<usize>,
    steps: bool,
    /// without reduction, to validate it
    full: bool,
}
impl Config {
    fn key(&self) -> String {
        format!(
            "{} threads={} queue={}{}{}{}{}",
            self.g.name,
            self.threads,
            self.queue,
            if self.timeout { " timeout" } else { "" },
            if self.progress { " progress-timeout" } else { "" },
            self.max.map(|m| format!(" max={m}")).unwrap_or_default(),
            if self.steps { " steps" } else { "" },
        )
    }
    fn options(&self) -> BadgerOptions {
        BadgerOptions {
            timeout: self.timeout.then_some(1000),
            progress_timeout: self.progress.then_some(10),
            max_circuit_count: self.max,
            n_threads: self.threads.try_into().unwrap(),
            split_circuit: false,
            queue_size: self.queue,
        }
    }
}

/// One execution under the given plan; the state that was returned.
fn execute(cfg: &Config, circuits: &Arc<Vec<Circuit>>, plan: Plan) -> (Run, Option<usize>) {
    let w = World::new(plan, cfg.steps, cfg.full);
    let out = Arc::new(Mutex::new(None));
    let (w2, out2, cfg2, cs) = (w.clone(), out.clone(), cfg.clone(), circuits.clone());
    let th = std::thread::spawn(move || {
        w2.start(0);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let f = Fake { g: cfg2.g.clone(), circuits: cs.clone() };
            let opt = BadgerOptimiser::new(f.clone(), f);
            opt.optimise(&cs[0], cfg2.options())
        }));
        if let Ok(c) = r {
            *out2.lock().unwrap() = Some(state(&c));
        }
        w2.finish(0);
    });
    let run = w.result(Duration::from_secs(20));
    if run.deadlock.is_none() && run.diverged.is_none() {
        let _ = th.join();
    }
    let o = out.lock().unwrap().take();
    (run, o)
}

/// What must hold of every execution.
fn judge(cfg: &Config, run: &Run, out: Option<usize>) -> Result<(), String> {
    let g = &cfg.g;
    for (t, e) in &run.events {
        if let Event::Panic(p) = e {
            return Err(format!("thread {t} panicked: {p}"));
        }
    }
    if let Some(d) = &run.deadlock {
        return Err(format!("deadlock: {d}"));
    }
    let out = out.ok_or("no circuit was returned")?;
    let reach = g.reachable();
    if !reach.contains(&out) {
        return Err(format!("the circuit returned (state {out}) is not reachable from the input"));
    }
    let mut processed = BTreeSet::new();
    for (_, e) in &run.events {
        if let Event::Note(1, s) = e {
            if !processed.insert(*s as usize) {
                return Err(format!("state {s} was given to two workers"));
            }
            if !reach.contains(&(*s as usize)) {
                return Err(format!("state {s} is not reachable"));
            }
        }
    }
    // what workers had handed to the queue before the coordinator told it to stop
    let stop = run.events.iter().rposition(|(t, e)| *t == 0 && matches!(e, Event::Sent(_)));
    let mut best = g.cost[0];
    for (i, (t, e)) in run.events.iter().enumerate() {
        let Event::Note(1, s) = e else { continue };
        let sent = run.events[i..].iter().position(|(u, e)| u == t && matches!(e, Event::Sent(_)));
        if let (Some(j), Some(stop)) = (sent, stop) {
            if i + j < stop {
                for &n in &g.succ[*s as usize] {
                    best = best.min(g.cost[n]);
                }
            }
        }
    }
    if g.cost[out] > best {
        return Err(format!(
            "returned state {out} of cost {}, but one of cost {best} was reported before the stop",
            g.cost[out]
        ));
    }
    // stopped by a timer with nothing left to do: nothing that was accepted may be missing
    if run.quiescent {
        let mut found: BTreeSet<usize> = BTreeSet::from([0]);
        for &s in &processed {
            found.extend(g.succ[s].iter().copied());
        }
        for &s in &found {
            let better = found.iter().filter(|&&x| x != s && g.cost[x] <= g.cost[s]).count();
            if !processed.contains(&s) && better < cfg.queue {
                return Err(format!(
                    "state {s} was found but never processed, although nothing else was left to do (found {found:?}, processed {processed:?})"
                ));
            }
        }
    }
    Ok(())
}
type Classes = (BTreeSet<u64>, BTreeSet<(usize, usize)>, u64);

struct Search {
    todo: Mutex<(Vec<Plan>, usize)>,
    cv: Condvar,
    runs: AtomicU64,
    redundant: AtomicU64,
    transitions: AtomicU64,
    quiet: AtomicU64,
    deepest: AtomicUsize,
    failed: Mutex<Option<String>>,
    outcomes: Mutex<BTreeSet<(usize, usize)>>,
    classes: Mutex<BTreeSet<u64>>,
}

fn explore(ctx: &Ctx, cfg: &Config, limit: u64, keep: bool) -> Result<Classes, String> {
    let n = cfg.g.succ.len();
    let circuits = Arc::new((0..n).map(circuit).collect::<Vec<_>>());
    let s = Search {
        todo: Mutex::new((vec![Plan::default()], 0)),
        cv: Condvar::new(),
        runs: 0.into(),
        redundant: 0.into(),
        transitions: 0.into(),
        quiet: 0.into(),
        deepest: 0.into(),
        failed: Mutex::new(None),
        outcomes: Default::default(),
        classes: Default::default(),
    };
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let plan = {
                    let mut g = s.todo.lock().unwrap();
                    loop {
                        if s.failed.lock().unwrap().is_some() || ctx.stopped() || s.runs.load(Relaxed) >= limit {
                            s.cv.notify_all();
                            return;
                        }
                        if let Some(p) = g.0.pop() {
                            g.1 += 1;
                            break p;
                        }
                        if g.1 == 0 {
                            s.cv.notify_all();
                            return;
                        }
                        g = s.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    }
                };
                let l = plan.prefix.len();
                let (run, out) = execute(cfg, &circuits, plan.clone());
                s.runs.fetch_add(1, Relaxed);
                s.transitions.fetch_add(run.transitions, Relaxed);
                s.deepest.fetch_max(run.trace.len(), Relaxed);
                if run.quiescent {
                    s.quiet.fetch_add(1, Relaxed);
                }
                let mut verdict = Ok(());
                if let Some(d) = &run.diverged {
                    verdict = Err(format!("SCHEDULER {d}"));
                } else if run.redundant {
                    s.redundant.fetch_add(1, Relaxed);
                }
                if verdict.is_ok() {
                    verdict = judge(cfg, &run, out);
                }
                if keep && !run.redundant {
                    let mut h = std::hash::DefaultHasher::new();
                    world::class(&run.trace).hash(&mut h);
                    s.classes.lock().unwrap().insert(h.finish());
                }
                if let Err(e) = verdict {
                    let ev: Vec<String> = run.events.iter().map(|(t, e)| format!("{t}:{e:?}")).collect();
                    let mut f = s.failed.lock().unwrap();
                    if f.is_none() {
                        *f = Some(format!("{e}\n  schedule: {}", ev.join(" ")));
                    }
                }
                let mut more = vec![];
                if l > 0 && !plan.rest.is_empty() && run.trace.len() >= l {
                    let mut prefix = plan.prefix.clone();
                    let key = prefix.pop().unwrap();
                    let mut sleep = plan.sleep.clone();
                    sleep.push((key, run.trace[l - 1].fp.clone()));
                    prefix.push(plan.rest[0]);
                    more.push(Plan { prefix, sleep, rest: plan.rest[1..].to_vec() });
                }
                for k in l..run.trace.len() {
                    let node = &run.trace[k];
                    if node.rest.is_empty() {
                        continue;
                    }
                    let mut prefix: Vec<_> = run.trace[..k].iter().map(|n| n.key).collect();
                    prefix.push(node.rest[0]);
                    let mut sleep = node.sleep.clone();
                    sleep.push((node.key, node.fp.clone()));
                    more.push(Plan { prefix, sleep, rest: node.rest[1..].to_vec() });
                }
                if let Some(o) = out {
                    let p = run.events.iter().filter(|e| matches!(e.1, Event::Note(1, _))).count();
                    s.outcomes.lock().unwrap().insert((o, p));
                }
                let mut g = s.todo.lock().unwrap();
                g.0.extend(more);
                g.1 -= 1;
                drop(g);
                s.cv.notify_all();
            });
        }
    });
    let (runs, red) = (s.runs.load(Relaxed), s.redundant.load(Relaxed));
    let left = s.todo.lock().unwrap().0.len();
    ctx.states(s.transitions.load(Relaxed));
    ctx.trans(s.transitions.load(Relaxed));
    ctx.traces(runs);
    ctx.count("schedules", runs - red);
    ctx.count("redundant executions", red);
    ctx.count("schedules stopped with nothing left to do", s.quiet.load(Relaxed));
    if std::env::var_os("TKMC_VERBOSE").is_some() {
        println!(
            "{:60} {} runs, {} redundant, {} quiet, depth {}, outcomes {:?}{}",
            cfg.key(), runs, red, s.quiet.load(Relaxed), s.deepest.load(Relaxed), s.outcomes.lock().unwrap(),
            if left > 0 { " CUT" } else { "" }
        );
    }
    if left > 0 && s.failed.lock().unwrap().is_none() {
        ctx.count("configurations cut at the schedule limit", 1);
        ctx.incomplete.store(true, Relaxed);
    }
    let f = s.failed.lock().unwrap().take();
    match f {
        Some(e) => Err(e),
        None => Ok((s.classes.into_inner().unwrap(), s.outcomes.into_inner().unwrap(), runs - red)),
    }
}

fn config(g: &str, threads: usize, queue: usize, stop: &str) -> Config {
    Config {
        g: Arc::new(Graph::new(g)),
        threads,
        queue,
        timeout: stop.contains('t'),
        progress: stop.contains('p'),
        max: stop.chars().find(|c| c.is_ascii_digit()).map(|c| c as usize - 48),
        steps: stop.contains('s'),
        full: false,
    }
}

fn configs(thorough: bool) -> Vec<Config> {
    let mut v = vec![];
    let mut add = |g: &str, threads: usize, queue: usize, stop: &str| v.push(config(g, threads, queue, stop));
    let graphs = [
        "1>",                // nothing to rewrite
        "2>0",               // itself
        "2>1 1>0",           // there and back
        "1>1 2>",            // only worse
        "2>1 1>2 1>0",       // a cycle with equal costs
        "3>1 2>2 1>",        // a chain
        "3>1,2 2> 1>",       // two ways
        "3>1,2 2>2 1>1",     // found twice
        "2>1,1 1>",          // the same circuit twice in a batch
        "2>1 3>2 1>",        // over a hill
    ];
    for g in graphs {
        for stop in ["t", "p"] {
            for queue in [1, 2, 10] {
                add(g, 2, queue, stop);
            }
        }
        add(g, 2, 10, "tp");
    }
    for (g, max) in [("2>1 1>0", 0), ("2>1 1>0", 1), ("3>1,2 2>2 1>1", 2), ("3>1 2>2 1>", 1)] {
        add(g, 2, 10, &format!("{max}"));
        add(g, 2, 10, &format!("t{max}"));
    }
    add("2>1 1>", 2, 10, "ts");
    add("1>", 3, 10, "t");
    add("2>1 1>0", 3, 10, "t");
    add("2>1 1>0", 2, 2, "ts");
    add("1>", 3, 10, "tp");
    add("2>1,1 1>0", 3, 1, "t");
    if thorough {
        // every graph of three states without self-loops in which all are reachable
        for bits in 0..64usize {
            let succ: Vec<Vec<usize>> = (0..3)
                .map(|i| {
                    let others: Vec<usize> = (0..3).filter(|j| *j != i).collect();
                    (0..2).filter(|k| bits >> (2 * i + k) & 1 == 1).map(|k| others[k]).collect()
                })
                .collect();
            for cost in [[3, 2, 1], [2, 3, 1], [2, 1, 3], [2, 2, 1]] {
                let text: Vec<String> = (0..3)
                    .map(|i| {
                        let n: Vec<String> = succ[i].iter().map(|x| x.to_string()).collect();
                        format!("{}>{}", cost[i], n.join(","))
                    })
                    .collect();
                let text = text.join(" ");
                if Graph::new(&text).reachable().len() == 3 {
                    add(&text, 2, 1, "t");
                    add(&text, 2, 10, "t");
                }
            }
        }
        for g in graphs {
            add(g, 3, 1, "t");
            add(g, 3, 2, "t");
            add(g, 2, 2, "ts");
            add(g, 3, 10, "p");
            add(g, 3, 10, "tp");
        }
        for g in ["4>1,2 3>3 2>3 1>", "4>1,2,3 3> 2> 1>", "4>1 3>2 2>3 1>0", "2>1,2 3>3 1>0 1>"] {
            for q in [1, 2, 10] {
                add(g, 2, q, "t");
                add(g, 2, q, "p");
                add(g, 3, q, "t");
            }
        }
    }
    let mut seen = BTreeSet::new();
    v.retain(|c: &Config| seen.insert(c.key()));
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").unwrap_or("quick".into());
    let ctx = Ctx::new(&args[1], tier == "thorough", get("--case"));
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        if let Some((w, _)) = world::try_current() {
            w.panicked(ctx::PANIC.with(|p| p.borrow().clone()));
        }
    }));
    let w = ctx.thorough;
    ctx.bound("threads", if w { "2 or 3 workers, the queue and the coordinator" } else { "2 workers (3 on three graphs), the queue and the coordinator" });
    ctx.bound("search spaces", if w { "all of 3 states without self-loops with 4 cost assignments; chosen ones of up to 4 states" } else { "10 rewrite graphs of up to 3 states" });
    ctx.bound("queue sizes", "1, 2 and 10");
    ctx.bound("stops", "each of the two timers (or both) at every instant; maximum number of circuits, with and without a timer");
    ctx.bound("preemptions", "not bounded; executions that differ in the order of independent operations are run once (sleep sets)");
    ctx.assume("code between two channel operations, joins and (in the configurations with steps) reads of the shared cost bound runs without interruption: it touches no other shared memory");
    ctx.assume("a timer may fire at any moment; no time passes otherwise");
    let limit: u64 = get("--limit").and_then(|s| s.parse().ok()).unwrap_or(if ctx.thorough { 3_000_000 } else { 100_000 });
    *ctx.case_limit.lock().unwrap() = Duration::from_secs(800);
    for c in configs(ctx.thorough) {
        ctx.case(&c.key(), || explore(&ctx, &c, limit, false).map(|_| ()));
    }
    // the reduction is validated where everything can be run: same classes, same outcomes, each class once
    for g in if ctx.thorough { &["1>", "2>0"][..] } else { &["1>"] } {
        let mut c = config(*g, 2, 10, "t");
        ctx.case(&format!("reduction: {}", c.key()), || {
            let a = explore(&ctx, &c, limit, true)?;
            c.full = true;
            let b = explore(&ctx, &c, 50 * limit, true)?;
            if ctx.stopped() || (a.0 == b.0 && a.1 == b.1) {
                ctx.count("executions without reduction", b.2);
                Ok(())
            } else {
                Err(format!("{} classes with reduction, {} without", a.0.len(), b.0.len()))
            }
        });
    }
    std::process::exit(ctx.finish());
}
