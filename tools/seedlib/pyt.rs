//! Stand-in: symbolic expressions and opaque pytket operations are not interpreted here.
use crate::interp::*;
pub fn expr(s: &str, syms: &std::collections::HashMap<String, f64>) -> f64 {
    s.trim().parse().ok().or(syms.get(s).cloned()).unwrap_or_else(|| panic!("expression {s}"))
}
pub fn opaque_op(_: &mut Machine, _: &serde_json::Value, _: &[V]) -> Result<Vec<V>, Stop> {
    Err(Stop::Bad("opaque pytket operation".into()))
}
