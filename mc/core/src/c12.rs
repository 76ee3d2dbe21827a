//! C12: normalisation of front-end programs, under every combination of the pass's options.
use crate::ctx::*;
use crate::gen::*;
use crate::interp::*;
use crate::qs::*;
use tket::hugr::algorithms::ComposablePass;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::{Hugr, HugrView, Node};
use tket::passes::NormalizeGuppy;
use tket::Circuit;

/// options: bit set of simplify_cfgs, untuple, constant_fold, dead_funcs, inline_dfgs, squash_borrows
fn pass(o: u32) -> NormalizeGuppy {
    let b = |i: u32| o >> i & 1 == 1;
    *NormalizeGuppy::default().simplify_cfgs(b(0)).remove_tuple_untuple(b(1)).constant_folding(b(2)).remove_dead_funcs(b(3)).inline_dfgs(b(4)).squash_borrows(b(5))
}
fn name(h: &Hugr, n: Node) -> String {
    h.get_optype(n).as_extension_op().map(|x| x.def().name().to_string()).unwrap_or_default()
}
/// A tuple packed and unpacked in one region
fn packed(h: &Hugr) -> bool {
    h.nodes().any(|n| name(h, n) == "UnpackTuple" && h.single_linked_output(n, 0).is_some_and(|(m, _)| name(h, m) == "MakeTuple" && h.get_parent(m) == h.get_parent(n)))
}
pub fn one(ctx: &Ctx, text: &str) {
    ctx.case(text, || {
        let (b, ord) = source(text)?;
        let o = Opts { hide_panic: true, ..opts(ord) };
        let before = behave_with(ctx, &b.hugr, b.main, &o).map_err(|e| format!("reference program: {e}"))?;
        let sig = b.hugr.get_optype(b.main).as_func_defn().ok_or("main")?.signature().clone();
        let check = |h: &Hugr| -> Result<(), String> {
            h.validate().map_err(|e| format!("invalid result: {e}"))?;
            let f = h.get_optype(b.main).as_func_defn().ok_or("main is gone")?;
            if *f.signature() != sig {
                return Err(format!("signature {}", f.signature()));
            }
            for reverse in [false, true] {
                let after = behave_with(ctx, h, b.main, &Opts { reverse, ..o.clone() }).map_err(|e| format!("result: {e}"))?;
                same(&before, &after)?;
            }
            ctx.traces(1);
            Ok(())
        };
        let combos: Vec<u32> = if ctx.thorough { (0..64).collect() } else { (0..6).flat_map(|i| [1u32 << i, 63 & !(1 << i)]).chain([63, 0]).collect() };
        for root in [false, true] {
            for c in &combos {
                if root && c & 8 != 0 {
                    continue; // without an entrypoint every function counts as dead
                }
                let mut h = b.hugr.clone();
                h.set_entrypoint(if root { h.module_root() } else { b.main });
                let orig = h.clone();
                let f = |h: &mut Hugr| -> Result<(), String> {
                    pass(*c).run(h).map_err(|e| format!("pass failed: {e}"))?;
                    check(h)?;
                    if c & 2 != 0 && c & 16 == 0 && packed(h) {
                        return Err("a tuple is still packed and unpacked".into());
                    }
                    if c & 16 != 0 && h.entry_descendants().any(|n| n != h.entrypoint() && h.get_optype(n).is_dfg()) {
                        return Err("a nested region is left".into());
                    }
                    if *c == 0 && *h != orig {
                        return Err("changed although everything is switched off".into());
                    }
                    Ok(())
                };
                f(&mut h).map_err(|e| format!("options {c:06b} root {root}: {e}"))?;
            }
        }
        // the rewrites that remove tuples
        let mut h = b.hugr.clone();
        h.set_entrypoint(b.main);
        let mut circ = Circuit::new(h);
        #[allow(deprecated)]
        let rws: Vec<_> = tket::passes::tuple_unpack::find_tuple_unpack_rewrites(&circ).collect();
        for r in rws.iter() {
            let mut c = circ.clone();
            r.clone().apply(&mut c).map_err(|e| format!("one rewrite: {e}"))?;
            check(c.hugr()).map_err(|e| format!("one rewrite: {e}"))?;
        }
        if !rws.is_empty() {
            for r in rws {
                r.apply(&mut circ).map_err(|e| format!("rewrites: {e}"))?;
            }
            check(circ.hugr()).map_err(|e| format!("rewrites: {e}"))?;
            #[allow(deprecated)]
            let more = tket::passes::tuple_unpack::find_tuple_unpack_rewrites(&circ).count();
            let left = packed_top(circ.hugr(), b.main);
            if left != (more > 0) && !text.contains("dfgx") {
                return Err("rewrites found do not match the tuples present".into());
            }
        }
        Ok(())
    });
}
fn packed_top(h: &Hugr, main: Node) -> bool {
    h.children(main).any(|n| name(h, n) == "UnpackTuple" && h.single_linked_output(n, 0).is_some_and(|(m, _)| name(h, m) == "MakeTuple" && h.get_parent(m) == h.get_parent(n)))
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let mut jobs: Vec<String> = vec![];
    let mut add = |lib: &str, pre: &str, ins: &str, start: &str, al: &[&str], n: usize, post: &str| {
        jobs.extend(programs(ins, start, al, n, post).into_iter().map(|s| format!("{pre}{lib}{}", s.replace("){", ")->(*){"))));
    };
    let d = |q: usize, t: usize| if th { t } else { q };
    // tuples: linear, copyable, nested, empty; partially used, permuted, several consumers
    let a = ["pack q0 q1 -> Pqq0", "unpack Pqq0 -> q0 q1", "unpack Pqq0 -> q1 q0", "pack q0 b0 -> Pqb0", "unpack Pqb0 -> q0 b1", "pack b0 b1 -> Pbb0", "unpack Pbb0 -> b0 b1", "unpack Pbb0 -> b1 b0", "pack Pbb0 b0 -> T2Pbbb0", "unpack T2Pbbb0 -> Pbb0 b1", "pack Pqq0 b1 -> T2Pqqb0", "unpack T2Pqqb0 -> Pqq0 b0", "noop Pbb0 -> Pbb0", "noop Pqq0 -> Pqq0", "H q0", "not b0 -> b0"];
    for n in 1..=d(3, 4) {
        add("", "", "q0,q1,b0,b1", "", &a, n, "");
    }
    let a = ["pack b0 b1 -> Pbb0", "unpack Pbb0 -> b0 b1", "unpack Pbb0 -> b2 b0", "pack Pbb0 Pbb0 -> T2PbbPbb0", "unpack T2PbbPbb0 -> Pbb0 Pbb1", "unpack Pbb1 -> b1 b2", "dfg {unpack Pbb0 -> b0 b1}", "dfg {pack b1 b0 -> Pbb0}", "dfgx {unpack Pbb0 -> b0 b1}", "dfgx {not b0 -> b0; pack b0 b1 -> Pbb0}", "not b0 -> b0", "pack -> T0_1", "unpack T0_1 ->", "res_bool(r) b0 ->"];
    for n in 1..=d(4, 5) {
        add("", "ord:", "b0,b1", "", &a, n, "");
    }
    // all control-flow containers with tuples across them
    let lib = "fn f(q0,b0)->(Pqb0){X q0; pack q0 b0 -> Pqb0} fn g(Pqb0)->(q0,b0){unpack Pqb0 -> q0 b0; H q0} fn r(b0)->(b1){res_bool(f) b0 ->; not b0 -> b1} ";
    let a = [
        "call f q0 b0 -> Pqb0", "call g Pqb0 -> q0 b1", "unpack Pqb0 -> q0 b0", "pack q0 b0 -> Pqb0",
        "if b0 {X q0; not b1 -> b1} else {H q0}", "if b1 {true -> b0} else {false -> b0}", "cfg b0 {X q0; not b1 -> b1} else {H q0}", "cfg b0 {pack q0 b1 -> Pqb0; unpack Pqb0 -> q0 b1} else {Z q0}",
        "dfg {pack q0 b0 -> Pqb0; unpack Pqb0 -> q0 b0; H q0}", "dfg {dfg {X q0}; H q0}", "until b2 {X q0; true -> b2}", "until b2 {dfg {H q0}; noop b1 -> b2; true -> b1}",
        "Measure q0 -> q0 b0", "res_bool(m) b1 ->", "res_bool(n) b0 ->", "call r b0 -> b1", "dfgx {H q0}", "cfg b1 {cfg b0 {H q0} else {X q0}} else {dfg {Z q0}}",
    ];
    for n in 1..=d(3, 4) {
        add(lib, "ord:", "q0,b0,b1", "false -> b2", &a, n, "");
    }
    // arrays and constants
    let lib = "fn s(A2q0,u0)->(A2q0){borrow A2q0 u0 -> A2q0 q0; H q0; return A2q0 u0 q0 -> A2q0; borrow A2q0 u0 -> A2q0 q0; X q0; return A2q0 u0 q0 -> A2q0} ";
    let a = [
        "borrow A2q0 u1 -> A2q0 q2", "return A2q0 u1 q2 -> A2q0", "borrow A2q0 u2 -> A2q0 q3", "return A2q0 u2 q3 -> A2q0", "CX q2 q3", "call s A2q0 u1 -> A2q0",
        "dfg {borrow A2q0 u1 -> A2q0 q2; X q2}", "dfg {u(0) -> u5; borrow A2q0 u5 -> A2q0 q2; H q2; return A2q0 u5 q2 -> A2q0}", "iadd i0 i0 -> i0", "itousize i0 -> u1", "res_int(i) i0 ->",
        "if b0 {borrow A2q0 u2 -> A2q0 q2; X q2; return A2q0 u2 q2 -> A2q0; borrow A2q0 u2 -> A2q0 q2; H q2; return A2q0 u2 q2 -> A2q0}", "pack A2q0 u1 -> PA2qu0", "unpack PA2qu0 -> A2q0 u2",
    ];
    for n in 1..=d(3, 4) {
        add(lib, "ordb:", "q0,q1,b0", "int(1) -> i0; itousize i0 -> u1; u(0) -> u2; anew q0 q1 -> A2q0", &a, n, "");
    }
    jobs.sort();
    jobs.dedup();
    ctx.bound("programs", jobs.len() as u64);
    ctx.par(jobs.len(), |i| one(ctx, &jobs[i]));
}
