//! Helpers for the checks of the hardware compilation (C18, C19, C21, C22).
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::prog::*;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::ops::{OpTag, OpTrait, OpType};
use tket::hugr::{Hugr, HugrView, Node};
use tket_qsystem::QSystemPass;

fn ext_name(o: &OpType) -> Option<String> {
    let x = o.as_extension_op()?;
    Some(format!("{}.{}", x.def().extension_id(), x.def().name()))
}
/// Operations whose relative order is observable
fn effect(h: &Hugr, n: Node) -> bool {
    let o = h.get_optype(n);
    match o {
        OpType::Call(_) | OpType::CallIndirect(_) => true,
        OpType::ExtensionOp(_) => {
            let s = ext_name(o).unwrap();
            s.starts_with("tket.result.") || s.starts_with("tket.debug.") || s.starts_with("prelude.panic") || s.starts_with("prelude.exit") || s == "prelude.print"
        }
        OpType::Conditional(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::DFG(_) => {
            h.descendants(n).skip(1).any(|m| m != n && !matches!(h.get_optype(m), OpType::Conditional(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::DFG(_)) && effect(h, m))
        }
        _ => false,
    }
}
/// Add order edges between the operations with visible effects, in program order, as the front-ends do.
pub fn chain_effects(h: &mut Hugr) {
    chain(h, &effect)
}
/// As `chain_effects`, with the operations on borrow arrays (which may fail) in the chain.
pub fn chain_borrows(h: &mut Hugr) {
    chain(h, &|h, n| effect(h, n) || h.descendants(n).any(|m| ext_name(h.get_optype(m)).is_some_and(|s| s == "collections.borrow_arr.borrow" || s == "collections.borrow_arr.return")))
}
fn chain(h: &mut Hugr, effect: &dyn Fn(&Hugr, Node) -> bool) {
    let parents: Vec<Node> = h.descendants(h.module_root()).filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent).collect();
    for p in parents {
        let v: Vec<Node> = h.children(p).filter(|n| effect(h, *n)).collect();
        for w in v.windows(2) {
            if !h.output_neighbours(w[0]).any(|x| x == w[1]) {
                let (a, b) = (h.get_optype(w[0]).other_output_port().unwrap(), h.get_optype(w[1]).other_input_port().unwrap());
                h.connect(w[0], a, w[1], b);
            }
        }
    }
}
/// Key syntax: "[options ]program" with options among `ord:` (order edges between effects)
pub fn source(text: &str) -> Result<(Built, bool), String> {
    let (ord, all, t) = match (text.strip_prefix("ord:"), text.strip_prefix("ordb:")) {
        (Some(t), _) => (true, false, t),
        (_, Some(t)) => (true, true, t),
        _ => (false, false, text),
    };
    let mut b = build(t)?;
    if ord {
        if all {
            chain_borrows(&mut b.hugr);
        } else {
            chain_effects(&mut b.hugr);
        }
        b.hugr.validate().map_err(|e| format!("SKIP reference invalid {e}"))?;
    }
    Ok((b, ord))
}
pub fn compile(h: &Hugr, main: Node, pass: QSystemPass) -> Result<Hugr, String> {
    let mut h = h.clone();
    h.set_entrypoint(main);
    pass.run(&mut h).map_err(|e| format!("pass failed: {e}"))?;
    h.validate().map_err(|e| format!("invalid result: {e}"))?;
    Ok(h)
}
pub fn passes() -> Vec<(&'static str, QSystemPass)> {
    let d = QSystemPass::default();
    vec![
        ("default", d),
        ("const_fold", d.with_constant_fold(true)),
        ("no monomorphize", d.with_monormophize(false)),
        ("no lazify", d.with_lazify(false)),
        ("no force_order", d.with_force_order(false)),
    ]
}
pub fn opts(ord: bool) -> Opts {
    Opts { unordered_trace: !ord, ..Opts::default() }
}
pub fn native_only(h: &Hugr, lazify: bool) -> Result<(), String> {
    for n in h.nodes() {
        if let Some(s) = ext_name(h.get_optype(n)) {
            let bad = s.starts_with("tket.quantum.")
                || s.starts_with("tket.guppy.")
                || s.starts_with("__tket")
                || lazify && (s.starts_with("tket.bool.") || ["Measure", "MeasureReset"].iter().any(|x| s == format!("tket.qsystem.{x}")));
            if bad {
                return Err(format!("operation {s} left"));
            }
        }
    }
    Ok(())
}
/// The main function of the compiled program and its behaviour under both tie-breaking schedules
pub fn behave_both(ctx: &Ctx, h: &Hugr, before: &Behaviour, ord: bool, total: bool) -> Result<Behaviour, String> {
    let main = h.entrypoint();
    let after = behave_with(ctx, h, main, &opts(ord)).map_err(|e| format!("result: {e}"))?;
    same(before, &after)?;
    if !total {
        let rev = behave_with(ctx, h, main, &Opts { reverse: true, ..opts(ord) }).map_err(|e| format!("result (other schedule): {e}"))?;
        same(before, &rev).map_err(|e| format!("other schedule: {e}"))?;
    }
    Ok(after)
}
