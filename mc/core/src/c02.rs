//! C02: circuit traversal (commands, units, operations, costs) against an independent walk of the graph.
use crate::ctx::*;
use crate::gen::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use tket::circuit::cost::{is_quantum, CircuitCost, LexicographicCost};
use tket::circuit::{CircuitHash, Command};
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::OpType;
use tket::hugr::types::EdgeKind;
use tket::hugr::{CircuitUnit, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
use tket::Circuit;


fn value_types(h: &Hugr, n: Node, dir: Direction) -> Vec<(usize, tket::hugr::types::Type)> {
    let o = h.get_optype(n);
    let ports: Vec<tket::hugr::Port> = match dir {
        Direction::Incoming => h.node_inputs(n).map(|p| p.into()).collect(),
        Direction::Outgoing => h.node_outputs(n).map(|p| p.into()).collect(),
    };
    ports
        .into_iter()
        .filter_map(|p| match o.port_kind(p) {
            Some(EdgeKind::Value(t)) | Some(EdgeKind::Const(t)) => Some((p.index(), t)),
            _ => None,
        })
        .collect()
}

/// Let the second load of two equal constants read the first one's constant node.
pub fn share_consts(h: &mut Hugr) -> bool {
    let mut seen: Vec<(Node, Node)> = vec![];
    let mut any = false;
    for n in h.descendants(h.module_root()).collect::<Vec<_>>() {
        if let OpType::LoadConstant(_) = h.get_optype(n) {
            let Some((c, _)) = h.single_linked_output(n, IncomingPort::from(0)) else { continue };
            let par = h.get_parent(c).unwrap();
            let hit = seen.iter().find(|(c2, p2)| *p2 == par && *c2 != c && h.get_optype(*c2) == h.get_optype(c)).copied();
            match hit {
                Some((c2, _)) => {
                    h.disconnect(n, IncomingPort::from(0));
                    h.connect(c2, OutgoingPort::from(0), n, IncomingPort::from(0));
                    h.remove_node(c);
                    any = true;
                }
                None => seen.push((c, par)),
            }
        }
    }
    any
}

pub fn check_region(h: &Hugr, region: Node) -> Result<u64, String> {
    let mut hh = h.clone();
    hh.set_entrypoint(region);
    let Ok(circ) = Circuit::try_new(hh) else { return Ok(0) };
    let what = |s: String| format!("region {region} ({}): {s}", h.get_optype(region));
    let [inp, out] = h.get_io(region).ok_or("no io")?;
    let cmds: Vec<Command<'_, Hugr>> = circ.commands().collect();
    let listed: Vec<Node> = cmds.iter().map(|c| c.node()).collect();
    let kids: Vec<Node> = h.children(region).filter(|n| *n != inp && *n != out).collect();
    let kidset: HashSet<Node> = kids.iter().copied().collect();
    // -- exactly once
    let mut pos: HashMap<Node, usize> = HashMap::new();
    for (i, n) in listed.iter().enumerate() {
        if !kidset.contains(n) {
            return Err(what(format!("command for {n}, not an operation of the region")));
        }
        if pos.insert(*n, i).is_some() {
            return Err(what(format!("operation {n} listed twice")));
        }
    }
    let needed = |n: Node| -> bool {
        // constants count as listed only if something in the region uses them
        fn used(h: &Hugr, n: Node, kids: &HashSet<Node>, out: Node) -> bool {
            h.output_neighbours(n).any(|m| {
                m == out
                    || kids.contains(&m) && (!matches!(h.get_optype(m), OpType::Const(_) | OpType::LoadConstant(_)) || used(h, m, kids, out))
            })
        }
        !matches!(h.get_optype(n), OpType::Const(_) | OpType::LoadConstant(_)) || used(h, n, &kidset, out)
    };
    for n in &kids {
        if !pos.contains_key(n) && needed(*n) {
            return Err(what(format!("operation {n} ({}) not listed", h.get_optype(*n))));
        }
    }
    // -- topological
    for n in &listed {
        for p in h.node_inputs(*n) {
            for (src, _) in h.linked_outputs(*n, p) {
                if kidset.contains(&src) && pos.get(&src).is_none_or(|x| *x >= pos[n]) {
                    return Err(what(format!("{n} listed before {src}, which it depends on")));
                }
            }
        }
    }
    // -- units of the region's inputs
    let itys = value_types(h, inp, Direction::Outgoing);
    let mut unit_of: HashMap<(Node, usize), usize> = HashMap::new();
    let mut want_units = vec![];
    let mut k = 0;
    for (p, t) in &itys {
        if t.copyable() {
            want_units.push((CircuitUnit::Wire(Wire::new(inp, OutgoingPort::from(*p))), *p, t.clone()));
        } else {
            want_units.push((CircuitUnit::Linear(k), *p, t.clone()));
            unit_of.insert((inp, *p), k);
            k += 1;
        }
    }
    let got: Vec<_> = circ.units().map(|(u, p, t)| (u, p.index(), t)).collect();
    if got != want_units {
        return Err(what(format!("units() = {got:?}, want {want_units:?}")));
    }
    let qb = tket::hugr::extension::prelude::qb_t();
    let wantq = itys.iter().filter(|(_, t)| *t == qb).count();
    if circ.qubit_count() != wantq {
        return Err(what(format!("qubit_count {} want {wantq}", circ.qubit_count())));
    }
    let gotq: Vec<_> = circ.qubits().map(|(u, p, _)| (u.index(), p.index())).collect();
    let wq: Vec<_> = itys.iter().filter(|(_, t)| *t == qb).map(|(p, _)| (unit_of[&(inp, *p)], *p)).collect();
    if gotq != wq {
        return Err(what(format!("qubits() = {gotq:?}, want {wq:?}")));
    }
    let gotl: Vec<_> = circ.linear_units().map(|(u, p, _)| (u.index(), p.index())).collect();
    let wl: Vec<_> = itys.iter().filter(|(_, t)| !t.copyable()).map(|(p, _)| (unit_of[&(inp, *p)], *p)).collect();
    if gotl != wl {
        return Err(what(format!("linear_units() = {gotl:?}, want {wl:?}")));
    }
    if circ.nonlinear_units().map(|(w, p, _)| (w, p.index())).collect::<Vec<_>>()
        != itys.iter().filter(|(_, t)| t.copyable()).map(|(p, _)| (Wire::new(inp, OutgoingPort::from(*p)), *p)).collect::<Vec<_>>()
    {
        return Err(what("nonlinear_units()".into()));
    }
    // -- units of each command
    let mut ever: BTreeSet<usize> = unit_of.values().copied().collect();
    for c in &cmds {
        let n = c.node();
        let mut lin_in = vec![];
        let mut want = vec![];
        for (p, t) in value_types(h, n, Direction::Incoming) {
            let (s, sp) = h.single_linked_output(n, IncomingPort::from(p)).ok_or(what(format!("{n}: input {p} not connected")))?;
            if t.copyable() {
                want.push((CircuitUnit::Wire(Wire::new(s, sp)), p, t));
            } else {
                let u = unit_of.remove(&(s, sp.index())).ok_or(what(format!("oracle: no unit for {s} port {sp}")))?;
                lin_in.push(u);
                want.push((CircuitUnit::Linear(u), p, t));
            }
        }
        let got: Vec<_> = c.inputs().map(|(u, p, t)| (u, p.index(), t)).collect();
        if got != want {
            return Err(what(format!("inputs of {n} ({}) = {got:?}, want {want:?}", h.get_optype(n))));
        }
        let stat = matches!(h.get_optype(n).static_input_port().and_then(|p| h.get_optype(n).port_kind(p)), Some(EdgeKind::Function(_))) as usize;
        if c.input_count() != want.len() + stat {
            return Err(what(format!("input_count of {n} is {}, want {}", c.input_count(), want.len())));
        }
        let gl: Vec<_> = c.linear_inputs().map(|(u, p, _)| (u.index(), p.index())).collect();
        let wl: Vec<_> = want.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(u) = u { Some((*u, *p)) } else { None }).collect();
        if gl != wl {
            return Err(what(format!("linear_inputs of {n} = {gl:?}, want {wl:?}")));
        }
        let gq: Vec<_> = c.input_qubits().map(|(u, p, _)| (u.index(), p.index())).collect();
        let wq: Vec<_> = want.iter().filter(|(_, _, t)| *t == qb).filter_map(|(u, p, _)| if let CircuitUnit::Linear(u) = u { Some((*u, *p)) } else { None }).collect();
        if gq != wq {
            return Err(what(format!("input_qubits of {n} = {gq:?}, want {wq:?}")));
        }
        let gw: Vec<_> = c.input_wires().into_iter().collect();
        let ww: Vec<_> = want.iter().map(|(u, p, _)| {
            let (s, sp) = h.single_linked_output(n, IncomingPort::from(*p)).unwrap();
            (*u, Wire::new(s, sp))
        }).collect();
        if gw != ww {
            return Err(what(format!("input_wires of {n} = {gw:?}, want {ww:?}")));
        }
        for (u, p) in &wl {
            if c.linear_unit_port(tket::circuit::units::LinearUnit::new(*u), Direction::Incoming).map(|p| p.index()) != Some(*p) {
                return Err(what(format!("linear_unit_port of {n} unit {u}")));
            }
        }
        let outs = value_types(h, n, Direction::Outgoing);
        let got: Vec<_> = c.outputs().map(|(u, p, t)| (u, p.index(), t)).collect();
        if got.len() != outs.len() || c.output_count() != outs.len() {
            return Err(what(format!("outputs of {n}: {got:?}, want {} of them (output_count {})", outs.len(), c.output_count())));
        }
        let mut li = lin_in.into_iter();
        let mut wlo = vec![];
        for ((u, p, t), (wp, wt)) in got.iter().zip(&outs) {
            let ok = p == wp
                && t == wt
                && match u {
                    CircuitUnit::Wire(w) => wt.copyable() && *w == Wire::new(n, OutgoingPort::from(*wp)),
                    CircuitUnit::Linear(id) => {
                        !wt.copyable()
                            && match li.next() {
                                Some(x) => x == *id,
                                // a new linear value: an identifier never seen before
                                None => !ever.contains(id),
                            }
                    }
                };
            if !ok {
                return Err(what(format!("outputs of {n} ({}) = {got:?}; port {wp} is wrong", h.get_optype(n))));
            }
            if let CircuitUnit::Linear(id) = u {
                ever.insert(*id);
                unit_of.insert((n, *wp), *id);
                wlo.push((*id, *wp));
            }
        }
        let gl: Vec<_> = c.linear_outputs().map(|(u, p, _)| (u.index(), p.index())).collect();
        if gl != wlo {
            return Err(what(format!("linear_outputs of {n} = {gl:?}, want {wlo:?}")));
        }
        let gq: Vec<_> = c.output_qubits().map(|(u, p, _)| (u.index(), p.index())).collect();
        let wq: Vec<_> = wlo.iter().filter(|(_, p)| outs.iter().any(|(q, t)| q == p && *t == qb)).copied().collect();
        if gq != wq {
            return Err(what(format!("output_qubits of {n} = {gq:?}, want {wq:?}")));
        }
        let gw: Vec<_> = c.output_wires().collect();
        let ww: Vec<_> = got.iter().map(|(u, p, _)| (*u, Wire::new(n, OutgoingPort::from(*p)))).collect();
        if gw != ww {
            return Err(what(format!("output_wires of {n} = {gw:?}, want {ww:?}")));
        }
        for (ts, dir) in [(value_types(h, n, Direction::Incoming), Direction::Incoming), (outs.clone(), Direction::Outgoing)] {
            for (p, t) in &ts {
                if c.is_linear_port(tket::hugr::Port::new(dir, *p)) == t.copyable() {
                    return Err(what(format!("is_linear_port of {n} {dir:?} {p} ({t})")));
                }
            }
            if c.units(dir).count() != ts.len() || c.linear_units(dir).count() != ts.iter().filter(|(_, t)| !t.copyable()).count() {
                return Err(what(format!("units or linear_units of {n} {dir:?}")));
            }
        }
        for (u, p) in &wlo {
            if c.linear_unit_port(tket::circuit::units::LinearUnit::new(*u), Direction::Outgoing).map(|p| p.index()) != Some(*p) {
                return Err(what(format!("linear_unit_port of {n} output unit {u}")));
            }
        }
    }
    // -- counts and costs
    let is_op = |n: &Node| {
        let o = h.get_optype(*n);
        match o.as_extension_op() {
            Some(x) => !(x.def().extension_id().to_string() == "prelude" && ["Noop", "MakeTuple", "UnpackTuple"].contains(&x.def().name().as_str())),
            None => matches!(o, OpType::OpaqueOp(_)),
        }
    };
    let ops: Vec<Node> = circ.operations().map(|c| c.node()).collect();
    let want: Vec<Node> = listed.iter().copied().filter(is_op).collect();
    if ops != want {
        return Err(what(format!("operations() = {ops:?}, want {want:?}")));
    }
    let total = h.descendants(h.module_root()).filter(is_op).count();
    if circ.num_operations() != total {
        return Err(what(format!("num_operations {} want {total}", circ.num_operations())));
    }
    let nq: usize = circ.circuit_cost(|o| is_quantum(o) as usize);
    let wq = listed.iter().filter(|n| is_quantum(h.get_optype(**n))).count();
    if nq != wq {
        return Err(what(format!("circuit_cost {nq} want {wq}")));
    }
    let c2: LexicographicCost<usize, 2> = circ.circuit_cost(|o| LexicographicCost::from([is_quantum(o) as usize, 1]));
    if c2 != LexicographicCost::from([wq, listed.len()]) {
        return Err(what(format!("circuit_cost {c2:?} want [{wq},{}]", listed.len())));
    }
    let part: Vec<Node> = kids.iter().copied().step_by(2).collect();
    let nc: usize = circ.nodes_cost(part.iter().copied(), |o| is_quantum(o) as usize);
    if nc != part.iter().filter(|n| is_quantum(h.get_optype(**n))).count() {
        return Err(what(format!("nodes_cost {nc}")));
    }
    // -- questions asked in the middle of the iteration
    for stop in 0..=cmds.len() {
        let mut it = circ.commands();
        for _ in 0..stop {
            it.next();
        }
        let left = cmds.len() - stop;
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|x| x < left) {
            return Err(what(format!("size_hint ({lo},{hi:?}) with {left} commands left")));
        }
        let rest: Vec<_> = it.clone().collect();
        if rest != cmds[stop..] {
            return Err(what(format!("a clone after {stop} commands lists something else")));
        }
        if it.clone().count() != left {
            return Err(what("count()".into()));
        }
        let mut end = it;
        while end.next().is_some() {}
        if end.next().is_some() {
            return Err(what("iterator not fused".into()));
        }
    }
    let _ = circ.circuit_hash(region);
    Ok(1 + cmds.len() as u64)
}

pub fn one(ctx: &Ctx, text: &str, share: bool) {
    let key = if share { format!("shared constants: {text}") } else { text.to_string() };
    ctx.case(&key, || {
        let b = crate::prog::build(text)?;
        let mut h = b.hugr.clone();
        if share && !share_consts(&mut h) {
            return Ok(());
        }
        h.validate().map_err(|e| format!("reference program: {e}"))?;
        let nodes: Vec<Node> = h.descendants(h.module_root()).filter(|n| h.get_io(*n).is_some()).collect();
        for n in nodes {
            let k = check_region(&h, n)?;
            ctx.states(1);
            ctx.trans(k);
        }
        ctx.traces(1);
        Ok(())
    });
}

/// the cost algebra, over every small pair
fn costs(ctx: &Ctx) {
    for a in 0..6usize {
        for b in 0..6usize {
            for c in 0..6usize {
                for d in 0..6usize {
                    ctx.case(&format!("costs {a} {b} {c} {d}"), || {
                        let (x, y) = (LexicographicCost::from([a, b]), LexicographicCost::from([c, d]));
                        if x.add_delta(&y.sub_cost(&x)) != y {
                            return Err("a + (b - a) != b".into());
                        }
                        if a.add_delta(&c.sub_cost(&a)) != c {
                            return Err("a + (b - a) != b".into());
                        }
                        if (x < y) != ((a, b) < (c, d)) || x + y != LexicographicCost::from([a + c, b + d]) {
                            return Err("order or sum".into());
                        }
                        let s: LexicographicCost<usize, 2> = [x, y, x].into_iter().sum();
                        if s != LexicographicCost::from([2 * a + c, 2 * b + d]) || x.as_usize() != a {
                            return Err("sum or as_usize".into());
                        }
                        if c > 0 && a > 0 {
                            let n = std::num::NonZeroUsize::new(c).unwrap();
                            if a.div_cost(n) != a.div_ceil(c) || (b > 0 && x.div_cost(n) != LexicographicCost::from([a.div_ceil(c), b.div_ceil(c)])) {
                                return Err("div_cost is not division rounded up".into());
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let mix = [
        "H q0", "CX q0 q1", "CX q1 q0", "QAlloc -> q2", "QFree q0 ->", "QFree q1 ->", "CX q2 q1", "QFree q2 ->", "QAlloc -> q0", "Measure q0 -> q0 b0", "MeasureFree q1 -> t0",
        "rot(0.25) -> a0", "Rz q0 a0 -> q0", "Rx q1 a0 -> q1", "radd a0 a0 -> a1", "rot(0.25) -> a2; radd a0 a2 -> a0", "opqb q1 b0 -> q1 b0", "opq2 q1 q0", "if b0 {X q1}", "dfg {H q0}", "if b0 {QAlloc -> q4} else {QAlloc -> q4; X q4}",
        "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b0", "anew q0 q1 -> V2q0", "aunpack V2q0 -> q0 q1", "barrier q1 q0", "res_bool(r) b0", "noop q0 -> q0", "Reset q1", "dfgx {rot(0.5) -> a7; radd a7 a0 -> a8; Rz q0 a8 -> q0}",
    ];
    for n in 0..=4 {
        jobs.extend(programs("q0,q1", "", &mix, n, ""));
    }
    if th {
        // five of those that make or take qubits or several values
        let some: Vec<&str> = mix.iter().enumerate().filter(|(i, _)| ![0, 2, 8, 13, 15, 17, 25, 27, 28].contains(i)).map(|(_, s)| *s).collect();
        jobs.extend(programs("q0,q1", "", &some, 5, ""));
    }
    // units are followed through allocation and release in every order
    let al = ["QAlloc -> q1", "QAlloc -> q2", "QFree q0 ->", "QFree q1 ->", "QFree q2 ->", "CX q1 q2", "CX q0 q1", "MeasureFree q2 -> t0", "QAlloc -> q0"];
    for n in 3..=(if th { 8 } else { 6 }) {
        jobs.extend(programs("q0", "", &al, n, ""));
    }
    // constants shared by several consumers, in several orders; classical inputs before and between qubits
    let cs = ["rot(0.25) -> a0", "rot(0.25) -> a1", "radd a0 a1 -> a2", "radd a1 a1 -> a0", "Rz q0 a0 -> q0", "Rz q1 a1 -> q1", "CRz q0 q1 a2 -> q0 q1", "true -> b1", "And b0 b1 -> b2", "if b1 {Rx q0 a0 -> q0}"];
    for n in 2..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("b0,q0,a3,q1", "", &cs, n, ""));
    }
    // nested regions of every kind
    let nest = ["dfg {CX q1 q0; QAlloc -> q2}", "dfg {QFree q2 ->}", "until b1 {H q0; true -> b1}", "cfg b0 {CX q0 q1} else {X q0; QFree q2 ->; QAlloc -> q2}", "if b0 {dfg {H q1; rot(0.5) -> a0; Rz q1 a0 -> q1}}", "CX q0 q2", "true -> b1", "call f q0 q1 b0", "call f q1 q0 b1"];
    for n in 1..=(if th { 6 } else { 5 }) {
        jobs.extend(programs("q0,q1,b0", "", &nest, n, "").into_iter().map(|p| format!("fn f(q0,q1,b0)->(q0,q1){{if b0 {{CX q1 q0}}}} {p}")));
    }
    ctx.bound("programs", jobs.len() as u64 * 2);
    ctx.assume("constants nothing in the region uses may or may not be listed");
    costs(ctx);
    ctx.par(jobs.len(), |i| {
        one(ctx, &jobs[i], false);
        if jobs[i].matches("rot(").count() + jobs[i].matches("true").count() > 1 {
            one(ctx, &jobs[i], true);
        }
    });
}
