//! What pytket circuits (in their JSON form) mean: the reference for the pytket checks.
use crate::interp::*;
use crate::sim::*;
use serde_json::Value as J;
use std::collections::HashMap;

pub type Syms = HashMap<String, f64>;
type R<T> = Result<T, Stop>;
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}
/// Value of a parameter expression
pub fn expr(s: &str, syms: &Syms) -> f64 {
    match crate::c16::parse(s) {
        Some(e) => crate::c16::eval(&e, syms),
        None => crate::c16::unknown(s),
    }
}
fn n(j: &J) -> usize {
    j.as_u64().unwrap_or(0) as usize
}
fn clexpr(e: &J, j: &J, b: &[bool]) -> R<u64> {
    let pos = |list: &str, i: usize| -> Option<J> { j[list].as_array()?.iter().find(|x| n(&x[0]) == i).map(|x| x[1].clone()) };
    let mut a = vec![];
    for x in e["args"].as_array().ok_or(Stop::Bad("clexpr".into()))? {
        let i = &x["input"];
        a.push(if x["type"] == "expr" {
            clexpr(i, j, b)?
        } else if i["type"] == "int" {
            n(&i["term"]) as u64
        } else {
            let v = &i["term"];
            let k = n(&v["var"]["index"]);
            if v["type"] == "bit" {
                b[n(&pos("bit_posn", k).ok_or(Stop::Bad("bit".into()))?)] as u64
            } else {
                let p = pos("reg_posn", k).ok_or(Stop::Bad("reg".into()))?;
                p.as_array().unwrap().iter().enumerate().map(|(i, p)| (b[n(p)] as u64) << i).sum()
            }
        });
    }
    let op = e["op"].as_str().unwrap_or("");
    let two = |f: fn(u64, u64) -> u64| a.iter().copied().reduce(f).unwrap_or(0);
    Ok(match op {
        "BitAnd" | "RegAnd" => two(|x, y| x & y),
        "BitOr" | "RegOr" => two(|x, y| x | y),
        "BitXor" | "RegXor" => two(|x, y| x ^ y),
        "BitEq" | "RegEq" => (a[0] == a[1]) as u64,
        "BitNeq" | "RegNeq" => (a[0] != a[1]) as u64,
        "BitNot" => 1 - (a[0] & 1),
        "RegNot" => !a[0],
        "BitZero" | "RegZero" => 0,
        "BitOne" => 1,
        "RegOne" => u64::MAX,
        "RegAdd" => two(|x, y| x.wrapping_add(y)),
        "RegSub" => two(|x, y| x.wrapping_sub(y)),
        "RegLt" => (a[0] < a[1]) as u64,
        o => return bad(format!("clexpr {o}")),
    })
}
/// The text of an operation without what an importer may add
fn plain(op: &J) -> J {
    let mut o = op.clone();
    if let Some(m) = o.as_object_mut() {
        m.remove("signature");
        m.remove("params");
        m.remove("n_qb");
    }
    o
}
/// Operations with a meaning (see `op`)
pub fn known(t: &str) -> bool {
    let k = ["noop", "Barrier", "Phase", "CCX", "H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "Rx", "Ry", "Rz", "CX", "CY", "CZ", "CRz", "PhasedX", "TK1", "ZZPhase", "ZZMax", "Measure", "Reset", "SetBits", "CopyBits", "ClExpr", "Conditional", "CircBox"];
    k.contains(&t)
}
/// One operation on qubits and (in place) bits. `params`: their values.
pub fn op(m: &mut Machine, op: &J, q: &[usize], b: &mut [bool], params: Option<&[f64]>, syms: &Syms) -> R<()> {
    let own: Vec<f64> = op["params"].as_array().map(|p| p.iter().map(|s| expr(s.as_str().unwrap_or(""), syms)).collect()).unwrap_or_default();
    let p = params.unwrap_or(&own);
    let t = op["type"].as_str().unwrap_or("");
    let need = |nq: usize, nb: usize, np: usize| if q.len() != nq || b.len() != nb || p.len() != np { bad(format!("{t} on {} qubits, {} bits, {} parameters", q.len(), b.len(), p.len())) } else { Ok(()) };
    match t {
        "noop" => need(1, 0, 0)?,
        "Barrier" if !op["data"].as_str().is_some_and(|d| d.contains("HugrInline") || d.contains("HugrExternal")) => {}
        "Phase" => m.gate_ctl(&[], "phase", &[], &[p[0]], false)?,
        "CCX" => m.gate("Toffoli", q, &[])?,
        "H" | "X" | "Y" | "Z" | "S" | "Sdg" | "T" | "Tdg" | "V" | "Vdg" => {
            need(1, 0, 0)?;
            m.gate(t, q, &[])?
        }
        "Rx" | "Ry" | "Rz" => {
            need(1, 0, 1)?;
            m.gate(t, q, p)?
        }
        "CX" | "CY" | "CZ" => {
            need(2, 0, 0)?;
            m.gate(t, q, &[])?
        }
        "CRz" => {
            need(2, 0, 1)?;
            m.gate(t, q, p)?
        }
        "PhasedX" | "TK1" => {
            let s = m.s(q[0])?;
            let (a, bb, c) = if t == "TK1" { (p[0], p[1], p[2]) } else { (p[1], p[0], -p[1]) };
            m.st.u1(s, &mul2(&rz(a), &mul2(&rx(bb), &rz(c))))
        }
        "ZZPhase" | "ZZMax" => {
            need(2, 0, (t == "ZZPhase") as usize)?;
            let (s, r) = (m.s(q[0])?, m.s(q[1])?);
            m.st.zz(s, r, if t == "ZZMax" { 0.5 } else { p[0] })
        }
        "Measure" => {
            need(1, 1, 0)?;
            b[0] = m.collapse(q[0])?
        }
        "Reset" => {
            need(1, 0, 0)?;
            m.reset(q[0])?;
        }
        "SetBits" => {
            for (k, v) in op["classical"]["values"].as_array().into_iter().flatten().enumerate() {
                b[k] = v.as_bool().unwrap();
            }
        }
        "CopyBits" => {
            let k = n(&op["classical"]["n_i"]);
            for i in 0..k {
                b[k + i] = b[i];
            }
        }
        "ClExpr" => {
            let e = &op["expr"];
            let v = clexpr(&e["expr"], e, b)?;
            for (i, k) in e["output_posn"].as_array().into_iter().flatten().enumerate() {
                b[n(k)] = v >> i & 1 == 1;
            }
        }
        "Conditional" => {
            let c = &op["conditional"];
            let w = n(&c["width"]);
            let v: usize = (0..w).map(|k| (b[k] as usize) << k).sum();
            if v == n(&c["value"]) {
                self::op(m, &c["op"], q, &mut b[w..], None, syms)?
            }
        }
        "CircBox" => {
            let c = &op["box"]["circuit"];
            let r = run(m, c, q, b, syms)?;
            // inside a box the wires are moved, not renamed
            let mut cur = r.0.clone();
            for i in 0..q.len() {
                if cur[i] != q[i] {
                    let k = cur.iter().position(|x| *x == q[i]).ok_or(Stop::Bad("permutation".into()))?;
                    let (x, y) = (m.s(cur[i])?, m.s(q[i])?);
                    m.st.swap(x, y);
                    cur[k] = cur[i];
                    cur[i] = q[i];
                }
            }
            b.copy_from_slice(&r.1);
        }
        _ => {
            // something unknown, which may do anything with its arguments
            let name = format!("{} {:?} {:?}", plain(op), p.iter().map(|x| (x * 1e6).round() as i64).collect::<Vec<_>>(), b);
            if !q.is_empty() {
                m.opaque(&name, q)?;
            }
            for k in 0..b.len() {
                b[k] ^= name.bytes().fold(k as u32 + 7, |h, c| h.wrapping_mul(16777619) ^ c as u32) >> 7 & 1 == 1;
            }
        }
    }
    Ok(())
}
/// Run a circuit given as JSON on its qubits and bits
pub fn run(m: &mut Machine, j: &J, q: &[usize], b: &[bool], syms: &Syms) -> R<(Vec<usize>, Vec<bool>)> {
    let (jq, jb) = (j["qubits"].as_array().unwrap(), j["bits"].as_array().unwrap());
    if jq.len() != q.len() || jb.len() != b.len() {
        return bad(format!("a circuit of {} qubits and {} bits on {} and {}", jq.len(), jb.len(), q.len(), b.len()));
    }
    let mut bits = b.to_vec();
    for c in j["commands"].as_array().unwrap() {
        let (mut qa, mut ba) = (vec![], vec![]);
        for a in c["args"].as_array().unwrap() {
            if let Some(k) = jq.iter().position(|x| x == a) {
                qa.push(q[k]);
            } else if let Some(k) = jb.iter().position(|x| x == a) {
                ba.push(k);
            } else {
                return bad(format!("no register {a}"));
            }
        }
        let mut bv: Vec<bool> = ba.iter().map(|k| bits[*k]).collect();
        op(m, &c["op"], &qa, &mut bv, None, syms)?;
        for (k, v) in ba.iter().zip(bv) {
            bits[*k] = v;
        }
    }
    let mut out = q.to_vec();
    for p in j["implicit_permutation"].as_array().into_iter().flatten() {
        let at = |x: &J| jq.iter().position(|y| y == x).ok_or(Stop::Bad("permutation".into()));
        out[at(&p[1])?] = q[at(&p[0])?];
    }
    Ok((out, bits))
}
/// The program operation that stands for a pytket operation
pub fn opaque_op(m: &mut Machine, j: &J, a: &[V]) -> R<Vec<V>> {
    let (nq, nb) = (n(&j["num_qubits"]), n(&j["num_bits"]));
    let q: Vec<usize> = a[..nq].iter().map(|x| x.q()).collect();
    let mut b: Vec<bool> = a[nq..nq + nb].iter().map(|x| x.as_bool()).collect();
    let syms = m.syms.clone();
    let p: Vec<f64> = a[nq + nb..].iter().map(|x| x.f()).collect();
    op(m, &j["op"], &q, &mut b, Some(&p), &syms)?;
    Ok(q.into_iter().map(V::Q).chain(b.into_iter().map(V::bool)).collect())
}
