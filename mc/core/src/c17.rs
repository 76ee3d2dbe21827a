//! C17: resource scopes of every convex set of operations, and expressions of copyable values.
use crate::c05::regions;
use crate::ctx::*;
use crate::gen::*;
use std::collections::{BTreeMap, BTreeSet};
use tket::hugr::hugr::views::sibling_subgraph::InvalidSubgraph;
use tket::hugr::hugr::views::SiblingSubgraph;
use tket::hugr::ops::{OpTrait, OpType};
use tket::hugr::types::EdgeKind;
use tket::hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use tket::resource::{CircuitUnit, DefaultResourceFlow, ResourceFlow, ResourceId, ResourceScope, ResourceScopeConfig, UnsupportedOp};
use tket::subcircuit::CopyableExpr;
use tket::Circuit;

/// A flow of our own: CX exchanges its qubits, H ends one and starts another.
struct Odd;
impl<H: HugrView> ResourceFlow<H> for Odd {
    fn map_resources(&self, n: H::Node, h: &H, i: &[Option<ResourceId>]) -> Result<Vec<Option<ResourceId>>, UnsupportedOp> {
        match odd(h.get_optype(n)) {
            Some(m) => Ok(m.into_iter().map(|k: Option<usize>| k.and_then(|k| i[k])).collect()),
            None => DefaultResourceFlow.map_resources(n, h, i),
        }
    }
}
fn odd(o: &OpType) -> Option<Vec<Option<usize>>> {
    match o {
        OpType::ExtensionOp(e) if e.def().name() == "CX" => Some(vec![Some(1), Some(0)]),
        OpType::ExtensionOp(e) if e.def().name() == "H" => Some(vec![None]),
        _ => None,
    }
}
fn types(h: &Hugr, n: Node, d: Direction) -> Vec<tket::hugr::types::Type> {
    h.value_types(n, d).map(|(_, t)| t).collect()
}
/// for each output the input that carries the same resource
fn flow(h: &Hugr, n: Node, custom: bool) -> Vec<Option<usize>> {
    if let (true, Some(m)) = (custom, odd(h.get_optype(n))) {
        return m;
    }
    let (i, o) = (types(h, n, Direction::Incoming), types(h, n, Direction::Outgoing));
    let keeps = (0..i.len().max(o.len())).all(|k| match (i.get(k), o.get(k)) {
        (Some(a), Some(b)) => a.copyable() && b.copyable() || a == b,
        (Some(a), None) | (None, Some(a)) => a.copyable(),
        _ => true,
    });
    (0..o.len()).map(|k| (keeps && !o[k].copyable()).then_some(k)).collect()
}
fn sorted(h: &Hugr, parent: Node) -> Vec<Node> {
    let all: Vec<Node> = h.children(parent).collect();
    let mut done: Vec<Node> = vec![];
    while done.len() < all.len() {
        let n = *all.iter().find(|n| !done.contains(n) && h.input_neighbours(**n).all(|p| h.get_parent(p) != Some(parent) || done.contains(&p))).unwrap();
        done.push(n);
    }
    done
}
type NP = (Node, Port);
fn scope(ctx: &Ctx, h: &Hugr, parent: Node, order: &[Node], s: &ResourceScope<&Hugr>, custom: bool) -> Result<(), String> {
    let nodes: Vec<Node> = order.iter().copied().filter(|n| s.nodes().contains(n)).collect();
    let inside = |n: Node| nodes.contains(&n);
    ctx.states(1);
    // reference: resource of every linear port
    let mut res: BTreeMap<NP, usize> = BTreeMap::new();
    let mut count = 0;
    let mut boundary = vec![];
    if let Some(g) = s.subgraph() {
        for (n, p) in g.incoming_ports().iter().flatten() {
            if let Some(EdgeKind::Value(t)) = h.get_optype(*n).port_kind(*p) {
                if !t.copyable() {
                    res.insert((*n, (*p).into()), count);
                    boundary.push((*n, *p));
                    count += 1;
                }
            }
        }
    }
    let mut paths: Vec<Vec<Node>> = vec![vec![]; count];
    for n in &nodes {
        for (p, t) in h.in_value_types(*n).filter(|(_, t)| !t.copyable()) {
            let _ = t;
            let (src, sp) = h.single_linked_output(*n, p).unwrap();
            let r = match inside(src) {
                true => res[&(src, sp.into())],
                false => *res.get(&(*n, p.into())).ok_or(format!("{n} {p}: linear value from outside is not an input of the region"))?,
            };
            res.insert((*n, p.into()), r);
            paths[r].push(*n);
        }
        let f = flow(h, *n, custom);
        for ((p, t), from) in h.out_value_types(*n).zip(f) {
            if t.copyable() {
                continue;
            }
            let r = match from {
                Some(k) => res[&(*n, IncomingPort::from(k).into())],
                None => {
                    paths.push(vec![]);
                    count += 1;
                    count - 1
                }
            };
            res.insert((*n, p.into()), r);
            if paths[r].last() != Some(n) {
                paths[r].push(*n);
            }
        }
    }
    // same classes
    let mut id: BTreeMap<usize, ResourceId> = BTreeMap::new();
    let mut back: BTreeMap<ResourceId, usize> = BTreeMap::new();
    for n in &nodes {
        for d in [Direction::Incoming, Direction::Outgoing] {
            let mut units = vec![];
            let mut wires = vec![];
            let mut rs = vec![];
            for (p, t) in h.value_types(*n, d).collect::<Vec<_>>() {
                let u = s.get_circuit_unit(*n, p).ok_or(format!("no unit for {n} {p}"))?;
                units.push(u);
                ctx.trans(1);
                if u.is_resource() == u.is_copyable() || u.as_resource() != s.get_resource_id(*n, p) {
                    return Err(format!("{n} {p}: {u:?} is inconsistent"));
                }
                match u {
                    CircuitUnit::Copyable(w) => {
                        if !t.copyable() {
                            return Err(format!("{n} {p}: a linear value has no resource"));
                        }
                        let (wn, wp) = match p.as_directed() {
                            itertools::Either::Left(i) => h.single_linked_output(*n, i).unwrap(),
                            itertools::Either::Right(o) => (*n, o),
                        };
                        if w != Wire::new(wn, wp) {
                            return Err(format!("{n} {p}: copyable value is the wire {w}, it is {wn} {wp}"));
                        }
                        wires.push(w);
                    }
                    CircuitUnit::Resource(r) => {
                        if t.copyable() {
                            return Err(format!("{n} {p}: a copyable value is a resource"));
                        }
                        let k = res[&(*n, p)];
                        if *id.entry(k).or_insert(r) != r || *back.entry(r).or_insert(k) != k {
                            return Err(format!("{n} {p}: resource {r:?} is not that of the same qubit, or of another one"));
                        }
                        rs.push(r);
                        if s.get_port(*n, r, d) != Some(p) {
                            return Err(format!("{n}: port of {r:?} is {:?}, it is {p}", s.get_port(*n, r, d)));
                        }
                    }
                }
            }
            if s.get_circuit_units_slice(*n, d).unwrap_or(&[]) != units || s.get_resources(*n, d).collect::<Vec<_>>() != rs || s.get_copyable_wires(*n, d).collect::<Vec<_>>() != wires {
                return Err(format!("{n}: lists of units are not those of the ports"));
            }
        }
        let mut all: Vec<ResourceId> = s.get_resources(*n, Direction::Incoming).chain(s.get_resources(*n, Direction::Outgoing)).collect();
        all.sort();
        all.dedup();
        if s.get_all_resources(*n) != all {
            return Err(format!("{n}: all resources are {:?}, not {all:?}", s.get_all_resources(*n)));
        }
        if h.get_optype(*n).dataflow_signature().is_some() != s.get_position(*n).is_some() {
            return Err(format!("{n}: position {:?}", s.get_position(*n)));
        }
        for (p, _) in h.out_value_types(*n) {
            for (t, _) in h.linked_inputs(*n, p).filter(|(t, _)| inside(*t)) {
                if s.get_position(*n) >= s.get_position(t) {
                    return Err(format!("{t} follows {n} but its position is {:?}, that of {n} is {:?}", s.get_position(t), s.get_position(*n)));
                }
            }
        }
    }
    for n in order {
        if !inside(*n) && (s.get_position(*n).is_some() || s.get_circuit_unit(*n, OutgoingPort::from(0)).is_some() || s.get_resources(*n, Direction::Incoming).next().is_some()) {
            return Err(format!("{n} is not in the scope but is answered for"));
        }
    }
    // inputs come first
    for (k, (n, p)) in boundary.iter().enumerate() {
        if id[&k].as_usize() != k {
            return Err(format!("the input {n} {p} has resource {:?}", id[&k]));
        }
    }
    let mut ids: Vec<ResourceId> = back.keys().copied().collect();
    ids.sort();
    if s.resources_iter().collect::<Vec<_>>() != ids {
        return Err(format!("all resources are {:?}, not {ids:?}", s.resources_iter().collect::<Vec<_>>()));
    }
    // paths
    for (k, path) in paths.iter().enumerate().filter(|(k, _)| id.contains_key(k)) {
        let r = id[&k];
        let mut path = path.clone();
        path.dedup();
        for i in 0..path.len() {
            let fwd: Vec<Node> = s.resource_path_iter(r, path[i], Direction::Outgoing).collect();
            let bwd: Vec<Node> = s.resource_path_iter(r, path[i], Direction::Incoming).collect();
            // ports of the same resource on one operation need not be linked
            if !custom && (fwd != path[i..] || bwd != path[..=i].iter().rev().copied().collect::<Vec<_>>()) {
                return Err(format!("path of {r:?} from {}: {fwd:?} {bwd:?}, it is {path:?}", path[i]));
            }
            let starts = h.out_value_types(path[i]).any(|(p, _)| res.get(&(path[i], p.into())) == Some(&k)) && !h.in_value_types(path[i]).any(|(p, _)| res.get(&(path[i], p.into())) == Some(&k));
            if s.is_resource_start(path[i], r) != starts {
                return Err(format!("{} is (not) the start of {r:?}", path[i]));
            }
        }
    }
    // reachability
    let mut reach: BTreeSet<(Node, Node)> = BTreeSet::new();
    for n in nodes.iter().rev() {
        for t in h.output_neighbours(*n).filter(|t| inside(*t)).collect::<BTreeSet<_>>() {
            reach.insert((*n, t));
            for x in nodes.iter().filter(|x| reach.contains(&(t, **x))).copied().collect::<Vec<_>>() {
                reach.insert((*n, x));
            }
        }
    }
    let starts: Vec<(Node, OutgoingPort)> = nodes.iter().flat_map(|n| h.out_value_types(*n).map(|(p, _)| (*n, p))).collect();
    let ends: Vec<(Node, IncomingPort)> = nodes.iter().flat_map(|n| h.in_value_types(*n).map(|(p, _)| (*n, p))).collect();
    let want = |a: &(Node, OutgoingPort), e: &(Node, IncomingPort)| h.linked_inputs(a.0, a.1).any(|(t, _)| inside(t) && (t == e.0 || reach.contains(&(t, e.0))));
    for a in &starts {
        for e in &ends {
            if s.any_reachable_from([*a], [*e]) != want(a, e) {
                return Err(format!("{e:?} is{} reachable from {a:?}", if want(a, e) { "" } else { " not" }));
            }
            for e2 in &ends {
                if s.any_reachable_from([*a], [*e, *e2]) != (want(a, e) || want(a, e2)) {
                    return Err(format!("{e:?} or {e2:?}, reachability from {a:?} is wrong"));
                }
            }
        }
    }
    let _ = parent;
    Ok(())
}
struct Term<'a> {
    h: &'a Hugr,
    ins: BTreeMap<(Node, IncomingPort), usize>,
}
impl Term<'_> {
    /// term of a value, stopping at the given input ports
    fn val(&self, n: Node, p: OutgoingPort, top: &BTreeSet<Node>) -> String {
        let a: Vec<String> = if top.contains(&n) {
            self.h
                .in_value_types(n)
                .map(|(q, _)| match self.ins.get(&(n, q)) {
                    Some(k) => format!("in{k}"),
                    None => {
                        let (s, sp) = self.h.single_linked_output(n, q).unwrap();
                        self.val(s, sp, top)
                    }
                })
                .collect()
        } else {
            return format!("?{n}.{p}");
        };
        let extra = match self.h.get_optype(n) {
            OpType::LoadConstant(_) | OpType::Call(_) | OpType::LoadFunction(_) => {
                let s = self.h.static_source(n).unwrap();
                match self.h.get_optype(s) {
                    OpType::FuncDefn(f) => f.func_name().to_string(),
                    OpType::FuncDecl(f) => f.func_name().to_string(),
                    o => format!("{o:?}"),
                }
            }
            _ => String::new(),
        };
        format!("{}{extra}({})#{}", self.h.get_optype(n), a.join(","), p.index())
    }
}
fn expression(ctx: &Ctx, h: &Hugr, s: &ResourceScope<&Hugr>, out: (Node, OutgoingPort), allowed: &[(Node, IncomingPort)], excl: &[Node]) -> Result<(), String> {
    let what = || format!("expression of {} {} with boundary {allowed:?} without {excl:?}", out.0, out.1);
    let got = CopyableExpr::try_new(out, allowed.iter().copied().collect(), excl.iter().copied().collect(), s);
    ctx.trans(1);
    let ok = |n: Node| !excl.contains(&n) && s.nodes().contains(&n) && [Direction::Incoming, Direction::Outgoing].iter().all(|d| types(h, n, *d).iter().all(|t| t.copyable()));
    if !ok(out.0) {
        return match got {
            Ok(CopyableExpr::Wire(w)) if w == Wire::new(out.0, out.1) => Ok(()),
            g => Err(format!("{}: {g:?}, expected the wire itself", what())),
        };
    }
    let mut set: BTreeSet<Node> = [out.0].into();
    let mut todo = vec![out.0];
    let mut ins: BTreeSet<(Node, IncomingPort)> = BTreeSet::new();
    while let Some(n) = todo.pop() {
        for (p, _) in h.in_value_types(n) {
            let (src, _) = h.single_linked_output(n, p).unwrap();
            if allowed.contains(&(n, p)) || !ok(src) {
                ins.insert((n, p));
            } else if set.insert(src) {
                todo.push(src);
            }
        }
    }
    // outgoing values: to other operations, or back to an input of the expression
    let uses = |n: Node, p: OutgoingPort| -> Vec<(Node, IncomingPort)> { h.linked_inputs(n, p).filter(|(t, q)| !set.contains(t) || ins.contains(&(*t, *q))).collect() };
    let outs: BTreeSet<(Node, OutgoingPort)> = set.iter().flat_map(|n| h.out_value_types(*n).map(|(p, _)| (*n, p))).filter(|(n, p)| !uses(*n, *p).is_empty()).collect();
    let mut convex = true;
    let mut seen: BTreeSet<Node> = BTreeSet::new();
    let mut todo: Vec<Node> = vec![];
    for (n, p) in &outs {
        for u in uses(*n, *p) {
            if ins.contains(&u) {
                convex = false;
            } else {
                todo.push(u.0);
            }
        }
    }
    while let Some(n) = todo.pop() {
        if set.contains(&n) {
            convex = false;
        } else if s.nodes().contains(&n) && seen.insert(n) {
            todo.extend(h.output_neighbours(n));
        }
    }
    let sub = match got {
        Err(InvalidSubgraph::NotConvex) if !convex => return Ok(()),
        Err(e) => return Err(format!("{}: {e}, the expression is the convex set {set:?}", what())),
        Ok(CopyableExpr::Composite { subgraph }) if convex => subgraph,
        Ok(g) => return Err(format!("{}: {g:?}, convex: {convex}", what())),
    };
    let e = CopyableExpr::Composite { subgraph: sub.clone() };
    if e.output() != out || e.as_subgraph() != Some(&sub) {
        return Err(format!("{}: its output is {:?}", what(), e.output()));
    }
    // loaded constants of the region belong to it
    let consts: BTreeSet<Node> = set.iter().filter(|n| matches!(h.get_optype(**n), OpType::LoadConstant(_))).filter_map(|n| h.static_source(*n)).collect();
    let full: BTreeSet<Node> = set.iter().chain(consts.iter().filter(|c| s.nodes().contains(c))).copied().collect();
    if sub.nodes().iter().copied().collect::<BTreeSet<_>>() != full || sub.nodes().len() != full.len() {
        return Err(format!("{}: its operations are {:?}, not {set:?}", what(), sub.nodes()));
    }
    let flat: Vec<(Node, IncomingPort)> = sub.incoming_ports().iter().flatten().copied().collect();
    if flat.iter().copied().collect::<BTreeSet<_>>() != ins || flat.len() != ins.len() {
        return Err(format!("{}: its inputs are {flat:?}, not {ins:?}", what()));
    }
    let rank = |x: &(Node, IncomingPort)| match allowed.iter().position(|a| a == x) {
        Some(k) => (0, k as isize),
        None => {
            let src = h.single_linked_output(x.0, x.1).unwrap().0;
            (1, excl.iter().position(|n| *n == src).map_or(-1, |k| k as isize))
        }
    };
    // those from neither list are not ordered with respect to the list of excluded operations
    let ranks: Vec<_> = flat.iter().map(rank).filter(|r| r.1 >= 0 || r.0 == 0).collect();
    if !ranks.is_sorted() {
        return Err(format!("{}: its inputs {flat:?} are out of order", what()));
    }
    let o: BTreeSet<(Node, OutgoingPort)> = sub.outgoing_ports().iter().copied().collect();
    let want: BTreeSet<_> = outs.iter().copied().chain([out]).collect();
    if o != want {
        return Err(format!("{}: its outputs are {o:?}, not {want:?}", what()));
    }
    // not subgraphs that hugr accepts
    if h.linked_inputs(out.0, out.1).next().is_none() || consts.iter().any(|c| !full.contains(c) || h.output_neighbours(*c).any(|l| !full.contains(&l))) {
        return Ok(());
    }
    sub.validate(h, Default::default()).map_err(|e| format!("{}: {e}", what()))?;
    if set.iter().any(|n| h.children(*n).next().is_some() || h.get_optype(*n).is_call() || h.get_optype(*n).is_load_function()) {
        return Ok(());
    }
    // its value
    let x = sub.extract_subgraph(h, "e");
    x.validate().map_err(|e| format!("{}: extracted: {e}", what()))?;
    let f = x.entrypoint();
    let [xi, xo] = x.get_io(f).unwrap();
    let t = Term { h, ins: flat.iter().enumerate().map(|(i, p)| (*p, i)).collect() };
    let want = t.val(out.0, out.1, &set);
    let mut xin = BTreeMap::new();
    for n in x.children(f) {
        for (p, _) in x.in_value_types(n) {
            let (s, sp) = x.single_linked_output(n, p).unwrap();
            if s == xi {
                xin.insert((n, p), sp.index());
            }
        }
    }
    let (s0, p0) = x.single_linked_output(xo, 0).unwrap();
    let has = Term { h: &x, ins: xin }.val(s0, p0, &x.children(f).filter(|n| *n != xi && *n != xo).collect());
    if want != has {
        return Err(format!("{}: it evaluates to {has}, not {want}", what()));
    }
    ctx.traces(1);
    Ok(())
}
fn check(ctx: &Ctx, c: &Circuit, th: bool) -> Result<(), String> {
    let h = c.hugr();
    let parent = c.parent();
    let order: Vec<Node> = sorted(h, parent).into_iter().filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_))).collect();
    let ops: Vec<Node> = order.iter().copied().filter(|n| !h.get_optype(*n).is_const() && !h.get_optype(*n).is_func_defn()).collect();
    let whole = match ResourceScope::try_from_circuit(Circuit::new(h)) {
        Ok(s) => s,
        Err(e) => {
            // not local
            if ops.iter().any(|n| h.in_value_types(*n).any(|(p, _)| h.single_linked_output(*n, p).is_some_and(|s| h.get_parent(s.0) != Some(parent)))) {
                return Ok(());
            }
            return Err(format!("no scope: {e}"));
        }
    };
    if whole.is_empty() != ops.is_empty() || ops.iter().any(|n| !whole.nodes().contains(n)) {
        return Err(format!("the scope has the operations {:?}", whole.nodes()));
    }
    if whole.is_empty() {
        return Ok(());
    }
    let mut scopes: Vec<(ResourceScope<&Hugr>, bool)> = vec![(whole, false)];
    for m in 1u32..1 << ops.len().min(7) {
        let set: Vec<Node> = (0..ops.len()).filter(|i| m >> i & 1 == 1).map(|i| ops[i]).collect();
        let Ok(sub) = SiblingSubgraph::try_from_nodes(set.clone(), h) else { continue };
        for custom in [false, true] {
            let s = if custom { ResourceScope::with_config(h, sub.clone(), &[Odd].into_iter().collect::<ResourceScopeConfig<&Hugr>>()) } else { ResourceScope::new(h, sub.clone()) };
            if s.subgraph() != Some(&sub) {
                return Err("the scope has another subgraph".into());
            }
            scopes.push((s, custom));
        }
    }
    for (s, custom) in &scopes {
        let what = |e: String| format!("scope {:?}{}: {e}", s.nodes(), if *custom { " with own flow" } else { "" });
        scope(ctx, h, parent, &order, s, *custom).map_err(what)?;
        if *custom || s.nodes().len() > 6 {
            continue;
        }
        // expressions
        let pure: Vec<Node> = ops.iter().copied().filter(|n| h.out_value_types(*n).chain(std::iter::empty()).any(|(_, t)| t.copyable())).collect();
        let ports: Vec<(Node, IncomingPort)> = ops.iter().flat_map(|n| h.in_value_types(*n).filter(|(_, t)| t.copyable()).map(|(p, _)| (*n, p))).collect();
        let mut bounds: Vec<Vec<(Node, IncomingPort)>> = vec![vec![]];
        let mut excl: Vec<Vec<Node>> = vec![vec![]];
        for a in &ports {
            bounds.push(vec![*a]);
            for b in ports.iter().filter(|b| *b != a && (th || ports.len() < 5)) {
                bounds.push(vec![*a, *b]);
            }
        }
        for a in &pure {
            excl.push(vec![*a]);
            for b in pure.iter().filter(|b| *b != a) {
                excl.push(vec![*a, *b]);
            }
        }
        let [inp, _] = h.get_io(parent).unwrap();
        for n in pure.iter().copied().chain([inp]) {
            for (p, _) in h.out_value_types(n).filter(|(_, t)| t.copyable()) {
                for b in &bounds {
                    for x in &excl {
                        expression(ctx, h, s, (n, p), b, x).map_err(what)?;
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut progs: Vec<String> = vec![];
    let gates = ["H q0", "CX q0 q1", "CX q1 q0", "QAlloc -> q2", "QFree q0 ->", "Measure q1 -> q1 b0", "QFree q2 ->", "CX q1 q2"];
    let rots = ["Rz q0 a0", "Rz q1 a2", "radd a0 a1 -> a2", "radd a2 a1 -> a0", "pack a0 a1 -> Paa0", "unpack Paa0 -> a1 a2", "rot(0.5) -> a2", "H q0"];
    let other = ["pack q0 q1 -> Pqq0", "unpack Pqq0 -> q1 q0", "dfg {H q0; CX q0 q1}", "anew q0 q1 -> A2q0", "aunpack A2q0 -> q0 q1", "call f q0", "CX q1 q0", "if b0 {X q0} else {H q0}", "Measure q0 -> q0 b0"];
    for n in 0..=if th { 6 } else { 5 } {
        if n < 5 || th {
            progs.extend(programs("q0,q1", "", if n < 5 || th && n < 6 { &gates } else { &["H q0", "CX q0 q1", "QAlloc -> q2", "QFree q0 ->"] }, n, ""));
        }
        progs.extend(programs("q0,q1,a0,a1", "", if n < 4 || th && n < 5 { &rots } else { &["Rz q0 a0", "radd a0 a1 -> a2", "radd a2 a1 -> a0", "radd a2 a2 -> a1"] }, n, ""));
        if n < 4 || th && n < 5 {
            progs.extend(programs("q0,q1", "", &other, n, "").into_iter().map(|p| format!("fn f(q0){{H q0}} {p}")));
        }
    }
    // operations that return qubits at other positions, or at the positions of values
    let fs = "fn f(q0,q1)->(q1,q0){H q0} fn g(q0,q1)->(q0,b0){Measure q1 -> q1 b0;QFree q1 ->} fn h(b0,q0)->(q0,b0){if b0 {X q0} else {}} fn k(q0,b0)->(b0,q0){H q0} fn l(q0,b0)->(q0,q1){QAlloc -> q1}";
    let calls = ["call f q0 q1", "call f q1 q0", "call g q0 q1 -> q0 b0", "call g q1 q0 -> q1 b0", "call h b0 q0 -> q0 b0", "call h b0 q1 -> q1 b1", "call k q0 b0 -> b0 q0", "call l q0 b0 -> q0 q1", "call l q1 b1 -> q0 q1", "CX q0 q1", "CX q1 q0", "H q0"];
    for n in 0..=if th { 5 } else { 4 } {
        progs.extend(programs("q0,q1,b0", "", &calls, n, "").into_iter().map(|p| format!("{fs} {p}")));
    }
    progs.sort();
    progs.dedup();
    ctx.bound("programs", progs.len() as u64);
    ctx.par(progs.len(), |i| {
        ctx.case(&progs[i], || {
            for c in regions(&progs[i])? {
                check(ctx, &c, th)?;
            }
            Ok(())
        });
    });
}
