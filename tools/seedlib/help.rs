//! Compare the behaviour of a program before and after a transformation.
use crate::interp::*;
use crate::prog::build;
use tket::hugr::{hugr::hugrmut::HugrMut, Hugr, HugrView, Node};
pub fn behaviour(h: &Hugr, f: Node, o: &Opts) -> Behaviour {
    let sig = h.get_optype(f).as_func_defn().unwrap().signature().body().clone();
    let args = args_for(&sig.input.iter().cloned().collect::<Vec<_>>()).unwrap();
    explore(h, f, &args, o).unwrap_or_else(|e| panic!("{e}"))
}
pub fn build_main(t: &str) -> tket::Circuit {
    let b = build(t).unwrap();
    let mut h = b.hugr;
    h.set_entrypoint(b.main);
    tket::Circuit::new(h)
}
pub fn compare(text: &str, o: &Opts, f: impl FnOnce(&mut Hugr)) {
    let b = build(text).unwrap();
    let mut h = b.hugr.clone();
    h.set_entrypoint(b.main);
    f(&mut h);
    h.validate().unwrap_or_else(|e| panic!("invalid result: {e}"));
    let (x, y) = (behaviour(&b.hugr, b.main, o), behaviour(&h, h.entrypoint(), o));
    if let Err(e) = same(&x, &y) {
        panic!("behaviour changed: {text}\n{e}");
    }
}
