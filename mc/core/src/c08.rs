//! C08: the backtracking optimiser over explicit transition graphs, against a nondeterministic
//! model of its bounded queue (the set of contents it may have, given what was observed).
use crate::ctx::*;
use std::collections::BTreeSet;
use tket::optimiser::{BacktrackingOptimiser, BadgerLogger, Optimiser, OptimiserOptions, State};

/// A transition graph over states 0..n. `hash` and `cost` may fail (None).
#[derive(Clone, Debug)]
struct Graph {
    cost: Vec<Option<u8>>,
    hash: Vec<Option<u64>>,
    next: Vec<Vec<u8>>,
    visited: Vec<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct S(u8);
impl State<&mut Graph> for S {
    type Cost = u8;
    fn hash(&self, g: &&mut Graph) -> Option<u64> {
        g.hash[self.0 as usize]
    }
    fn cost(&self, g: &&mut Graph) -> Option<u8> {
        g.cost[self.0 as usize]
    }
    fn next_states(&self, g: &mut &mut Graph) -> Vec<S> {
        g.visited.push(self.0);
        g.next[self.0 as usize].iter().map(|s| S(*s)).collect()
    }
}
/// What the queue may hold: states, seen hashes, and everything accepted in order.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct M {
    q: BTreeSet<u8>,
    seen: BTreeSet<u64>,
    accepted: Vec<u8>,
}
/// All models after pushing one state
fn push(g: &Graph, size: usize, ms: BTreeSet<M>, s: u8) -> BTreeSet<M> {
    let (Some(h), Some(c)) = (g.hash[s as usize], g.cost[s as usize]) else { return ms };
    let cost = |x: &u8| g.cost[*x as usize].unwrap();
    let mut out = BTreeSet::new();
    for m in ms {
        let full = m.q.len() >= size;
        if full && (size == 0 || c >= m.q.iter().map(cost).max().unwrap()) {
            out.insert(m);
            continue;
        }
        if m.seen.contains(&h) {
            out.insert(m);
            continue;
        }
        let mut m = m;
        m.seen.insert(h);
        m.accepted.push(s);
        if full {
            let max = m.q.iter().map(cost).max().unwrap();
            for e in m.q.iter().filter(|x| cost(x) == max) {
                let mut n = m.clone();
                n.q.remove(e);
                n.q.insert(s);
                out.insert(n);
            }
        } else {
            m.q.insert(s);
            out.insert(m);
        }
    }
    out
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    size: usize,
    best: Option<usize>,
    max: Option<usize>,
    timeout: Option<u64>,
    progress: Option<u64>,
}
fn check(ctx: &Ctx, g: &Graph, cfg: Cfg) -> Result<(), String> {
    let mut run = Graph { visited: vec![], ..g.clone() };
    let opt = BacktrackingOptimiser { queue_size: cfg.size, timeout: cfg.timeout, progress_timeout: cfg.progress, max_visited_count: cfg.max };
    let mut log = vec![];
    let mut options: OptimiserOptions = BadgerLogger::new(&mut log).into();
    options.track_n_best = cfg.best;
    let r = opt.optimise_with_options(S(0), &mut run, options);
    ctx.traces(1);
    if g.hash[0].is_none() || g.cost[0].is_none() || cfg.size == 0 {
        return match r {
            None => Ok(()),
            Some(_) => Err("an answer for a state that cannot be processed".into()),
        };
    }
    let r = r.ok_or("no answer")?;
    let cost = |x: u8| g.cost[x as usize].unwrap();
    // replay the visits on the model
    let mut ms = push(g, cfg.size, [M { q: BTreeSet::new(), seen: BTreeSet::new(), accepted: vec![] }].into(), 0);
    for (i, &v) in run.visited.iter().enumerate() {
        ctx.trans(1);
        ms = ms
            .into_iter()
            .filter(|m| m.q.contains(&v) && m.q.iter().all(|x| cost(*x) >= cost(v)))
            .map(|mut m| {
                m.q.remove(&v);
                m
            })
            .collect();
        if ms.is_empty() {
            return Err(format!("visit {i} of {:?} is not of a cheapest state in the queue", run.visited));
        }
        for &s in &g.next[v as usize] {
            ms = push(g, cfg.size, ms, s);
        }
        ctx.states(ms.len() as u64);
    }
    let limited = cfg.max.is_some_and(|m| run.visited.len() >= m.max(1)) || cfg.timeout.is_some() || cfg.progress.is_some();
    if !limited {
        ms.retain(|m| m.q.is_empty());
        if ms.is_empty() {
            return Err(format!("stopped after {:?} with states left in the queue", run.visited));
        }
    }
    if cfg.max.is_some_and(|m| run.visited.len() > m.max(1)) {
        return Err(format!("visited {:?}, more than the limit", run.visited));
    }
    let best = run.visited.iter().map(|v| cost(*v)).min().ok_or("nothing visited")?;
    if !run.visited.contains(&r.best_state.0) || cost(r.best_state.0) != best {
        return Err(format!("returned {} after {:?}", r.best_state.0, run.visited));
    }
    match (cfg.best, r.n_best_states) {
        (None, None) => {}
        (Some(n), Some(b)) => {
            let got: Vec<u8> = b.iter().map(|s| cost(s.0)).collect();
            if ms.iter().all(|m| {
                let mut want: Vec<u8> = m.accepted.iter().map(|s| cost(*s)).collect();
                want.sort();
                want.truncate(n);
                want != got || b.iter().any(|s| !m.accepted.contains(&s.0)) || (0..b.len()).any(|i| b[..i].contains(&b[i]))
            }) {
                return Err(format!("the {n} best states: {:?} with costs {got:?} after visiting {:?}", b, run.visited));
            }
        }
        (_, x) => return Err(format!("n_best_states is {}", if x.is_some() { "given" } else { "missing" })),
    }
    // the reachable states, if nothing limits the search
    if !limited && cfg.size >= g.cost.len() {
        let mut reach = vec![0u8];
        let mut seen: BTreeSet<u64> = [g.hash[0].unwrap()].into();
        let mut i = 0;
        while i < reach.len() {
            for &s in &g.next[reach[i] as usize] {
                if let (Some(h), Some(_)) = (g.hash[s as usize], g.cost[s as usize]) {
                    if seen.insert(h) {
                        reach.push(s);
                    }
                }
            }
            i += 1;
        }
        if g.hash.iter().flatten().collect::<BTreeSet<_>>().len() == g.hash.iter().flatten().count() {
            let a: BTreeSet<_> = reach.iter().collect();
            if a != run.visited.iter().collect() || run.visited.len() != reach.len() {
                return Err(format!("visited {:?}, reachable {reach:?}", run.visited));
            }
        }
    }
    // the log of the best costs, strictly falling and ending with the best one
    let log = String::from_utf8(log).map_err(|e| e.to_string())?;
    let costs: Vec<u8> = log.lines().skip(1).filter_map(|l| l.split(',').next().and_then(|x| x.trim().parse().ok())).collect();
    if !log.is_empty() && (costs.windows(2).any(|w| w[1] >= w[0]) || costs.last() != Some(&best)) {
        return Err(format!("logged costs {costs:?} but the best is {best}: {log}"));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    // (states, cost labels, successor lists: subsets in ascending, descending order, configurations)
    let mut cfgs = vec![];
    for size in 0..=4 {
        for best in [None, Some(0), Some(1), Some(2), Some(3)] {
            for max in [None, Some(1), Some(2), Some(3)] {
                cfgs.push(Cfg { size, best, max, timeout: None, progress: None });
            }
        }
    }
    cfgs.push(Cfg { size: 3, best: Some(2), max: None, timeout: Some(0), progress: None });
    cfgs.push(Cfg { size: 3, best: None, max: None, timeout: None, progress: Some(0) });
    cfgs.push(Cfg { size: 3, best: None, max: None, timeout: Some(1000), progress: Some(1000) });
    let small: Vec<Cfg> = cfgs.iter().copied().filter(|c| c.timeout.is_none() && c.progress.is_none() && (1..=3).contains(&c.size) && matches!(c.best, None | Some(2)) && matches!(c.max, None | Some(2))).collect();
    ctx.bound("configurations", cfgs.len() as u64);
    let subsets = |n: usize, rev: bool| -> Vec<Vec<u8>> {
        (0..1u32 << n)
            .map(|m| {
                let mut v: Vec<u8> = (0..n as u8).filter(|i| m >> i & 1 == 1).collect();
                if rev {
                    v.reverse();
                }
                v
            })
            .collect()
    };
    let run_graph = |name: &str, g: &Graph, cfgs: &[Cfg]| {
        let key = format!("{name} cost{:?} hash{:?} next{:?}", g.cost, g.hash, g.next).replace("Some(", "").replace(')', "").replace("None", "-");
        ctx.case(&key, || {
            for c in cfgs {
                check(ctx, g, *c).map_err(|e| format!("{c:?}: {e}"))?;
            }
            Ok(())
        });
    };
    // all graphs of three states, with every labelling by costs 0..=2 and a failing one
    let n = 3;
    let labels: Vec<Option<u8>> = vec![None, Some(0), Some(1), Some(2)];
    let subs = [subsets(n, false), subsets(n, true)];
    ctx.par(labels.len().pow(3), |l| {
        let cost: Vec<_> = (0..3u32).map(|i| labels[l / 4usize.pow(i) % 4]).collect();
        for hash in [vec![Some(0), Some(1), Some(2)], vec![Some(7), Some(5), Some(5)], vec![Some(7), Some(5), Some(7)], vec![Some(9), Some(3), None], vec![None, Some(3), Some(1)]] {
            for sub in &subs {
                for e in seqs(8, n) {
                    let g = Graph { cost: cost.clone(), hash: hash.clone(), next: e.iter().map(|i| sub[*i].clone()).collect(), visited: vec![] };
                    run_graph("3:", &g, &cfgs);
                }
            }
        }
    });
    // all graphs of four states (without edges to the start) with few configurations
    let n = 4;
    let subs = [subsets(n, false), subsets(n, true)];
    let cmax: usize = if th { 4 } else { 3 };
    ctx.par(cmax.pow(3) * 64, |l| {
        let (l, part) = (l / 64, l % 64);
        let cost: Vec<_> = [Some(1)].into_iter().chain((0..3u32).map(|i| Some((l / cmax.pow(i) % cmax) as u8))).collect();
        for (rev, sub) in subs.iter().enumerate() {
            for e in seqs(8, 4).skip(part).step_by(64) {
                let g = Graph { cost: cost.clone(), hash: (0..4).map(|i| Some([3, 8, 1, 2][i])).collect(), next: e.iter().map(|i| sub[*i << 1].clone()).collect(), visited: vec![] };
                run_graph(if rev == 0 { "4:" } else { "4r:" }, &g, if th { &cfgs } else { &small });
            }
        }
    });
    // wide graphs: the start offers every sequence of pushes, the others too
    let n = if th { 6 } else { 5 };
    let perms: Vec<Vec<u8>> = seqs(n - 1, n - 1).map(|v| v.iter().map(|x| *x as u8 + 1).collect::<Vec<_>>()).filter(|v| v.iter().collect::<BTreeSet<_>>().len() >= n - 2).collect();
    ctx.par(3usize.pow(n as u32 - 1), |l| {
        let cost: Vec<_> = [Some(1)].into_iter().chain((0..n as u32 - 1).map(|i| Some((l / 3usize.pow(i) % 3) as u8))).collect();
        for p in &perms {
            for k in 1..n {
                let mut next = vec![vec![]; n];
                next[0] = p[..k].to_vec();
                next[p[0] as usize] = p[k..].to_vec();
                let g = Graph { cost: cost.clone(), hash: (0..n).map(|i| Some(i as u64 * 7 % 5 + i as u64 * 5)).collect(), next, visited: vec![] };
                run_graph("wide:", &g, &small);
            }
        }
    });
}
