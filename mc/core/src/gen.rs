//! Exhaustive enumeration of small programs and helpers shared by the checks.
use crate::ctx::*;
use crate::interp::*;
use crate::prog::*;
use std::collections::BTreeSet;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::OpType;
use tket::hugr::{Hugr, HugrView, Node};
use tket::Circuit;

/// All programs `fn main(ins){s1;..;sn}` with exactly n statements of the alphabet whose slots are live
/// where they are used. Prefixes that are already ill-formed are not extended.
pub fn programs(ins: &str, pre: &str, alpha: &[&str], n: usize, post: &str) -> Vec<String> {
    let parsed: Vec<Vec<St>> = alpha.iter().map(|a| body(a)).collect();
    let mut out = vec![];
    let mut env: BTreeSet<String> = ins.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut used = BTreeSet::new();
    if flow(&mut env, &body(pre), &mut used).is_err() {
        return out;
    }
    let postb = body(post);
    let mut stack: Vec<usize> = vec![];
    fn go(
        env: &BTreeSet<String>, parsed: &[Vec<St>], alpha: &[&str], n: usize, stack: &mut Vec<usize>, postb: &[St],
        emit: &mut dyn FnMut(&[usize]),
    ) {
        if stack.len() == n {
            let mut e = env.clone();
            if flow(&mut e, postb, &mut BTreeSet::new()).is_ok() {
                emit(stack);
            }
            return;
        }
        for k in 0..alpha.len() {
            let mut e = env.clone();
            if flow(&mut e, &parsed[k], &mut BTreeSet::new()).is_ok() {
                stack.push(k);
                go(&e, parsed, alpha, n, stack, postb, emit);
                stack.pop();
            }
        }
    }
    go(&env, &parsed, alpha, n, &mut stack, &postb, &mut |st: &[usize]| {
        let b: Vec<&str> = std::iter::once(pre).chain(st.iter().map(|k| alpha[*k])).chain([post]).filter(|s| !s.is_empty()).collect();
        out.push(format!("fn main({ins}){{{}}}", b.join(";")));
    });
    out
}
fn body(s: &str) -> Vec<St> {
    let f = parse(&format!("fn x(){{{s}}}")).unwrap_or_else(|e| panic!("alphabet {s}: {e}"));
    f.into_iter().next().unwrap().body
}

pub fn args_of(h: &Hugr, f: Node) -> Result<Vec<Arg>, String> {
    let sig = h.get_optype(f).as_func_defn().ok_or("not a function")?.signature().body().clone();
    args_for(&sig.input.iter().cloned().collect::<Vec<_>>()).ok_or("SKIP no argument values".into())
}
/// Behaviour of function `main` of `h`; counted in the evidence.
pub fn behave(ctx: &Ctx, h: &Hugr, main: Node) -> Result<Behaviour, String> {
    behave_with(ctx, h, main, &Opts::default())
}
pub fn behave_with(ctx: &Ctx, h: &Hugr, main: Node, o: &Opts) -> Result<Behaviour, String> {
    let args = args_of(h, main)?;
    let b = explore(h, main, &args, o)?;
    ctx.states(b.leaves);
    ctx.trans(b.steps);
    Ok(b)
}
/// As `behave`, for the program under test before transformation: problems there are machinery errors.
pub fn reference(ctx: &Ctx, h: &Hugr, main: Node) -> Result<Behaviour, String> {
    behave(ctx, h, main).map_err(|e| format!("reference program: {e}"))
}
pub fn circuit(text: &str) -> Result<(Built, Circuit), String> {
    let b = build(text)?;
    let mut h = b.hugr.clone();
    h.set_entrypoint(b.main);
    Ok((b, Circuit::new(h)))
}
/// Multiset of operation names below `root`
pub fn op_names(h: &Hugr, root: Node) -> Vec<String> {
    let mut v: Vec<String> = h
        .descendants(root)
        .filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_)))
        .map(|n| format!("{:?}", h.get_optype(n)))
        .collect();
    v.sort();
    v
}
/// Circuit depth: the longest chain of operations along the linear wires of the region below `root`
pub fn depth(h: &Hugr, root: Node) -> usize {
    use tket::hugr::types::EdgeKind;
    fn d(h: &Hugr, n: Node, memo: &mut std::collections::HashMap<Node, usize>) -> usize {
        if let Some(x) = memo.get(&n) {
            return *x;
        }
        let o = h.get_optype(n);
        let mut m = None;
        for p in h.node_inputs(n).collect::<Vec<_>>() {
            if matches!(o.port_kind(p), Some(EdgeKind::Value(t)) if !t.copyable()) {
                let (src, _) = h.single_linked_output(n, p).unwrap();
                m = Some(m.unwrap_or(0).max(d(h, src, memo)));
            }
        }
        let r = m.map(|x| x + !matches!(o, OpType::Output(_)) as usize).unwrap_or(0);
        memo.insert(n, r);
        r
    }
    let mut memo = Default::default();
    h.children(root).collect::<Vec<_>>().into_iter().map(|n| d(h, n, &mut memo)).max().unwrap_or(0)
}
