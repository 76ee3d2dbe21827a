//! Reference interpreter for HUGR programs over a dense quantum state, with *exhaustive*
//! exploration of every measurement outcome. This is the oracle: it knows nothing of tket's
//! passes; it only knows what each op means.
use crate::sim::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use tket::extension::bool::ConstBool;
use tket::extension::rotation::ConstRotation;
use tket::hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
use tket::hugr::ops::{OpTrait, OpType, Value};
use tket::hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
use tket::hugr::std_extensions::collections::{
    array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue,
    value_array::VArrayValue,
};
use tket::hugr::types::{Term, Type, TypeArg};
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};

#[derive(Clone, Debug)]
pub enum V {
    Sum(usize, Vec<V>),
    Int(u32, u64),
    US(u64),
    F(f64),
    Rot(f64),
    TB(bool),
    Q(usize),
    Arr(Vec<Option<V>>),
    SArr(Rc<Vec<V>>),
    List(Vec<V>),
    Fun(Node, Rc<Vec<TypeArg>>),
    /// a function given as a constant program of its own
    FunC(Rc<Hugr>),
    /// a function value under a stack of modifiers (innermost first); Some(n) = n controls, None = dagger
    Mfn(Rc<(V, Vec<Option<u64>>)>),
    /// future id
    Fut(usize),
    Str(String),
    Err(u32, String),
    /// opaque token (rng contexts, symbols)
    Tok(String),
}
impl V {
    pub fn bool(b: bool) -> V {
        V::Sum(b as usize, vec![])
    }
    pub fn as_bool(&self) -> bool {
        match self {
            V::Sum(t, _) => *t == 1,
            V::TB(b) => *b,
            _ => panic!("interp: not a bool {self:?}"),
        }
    }
    fn u(&self) -> u64 {
        match self {
            V::US(x) | V::Int(_, x) => *x,
            _ => panic!("interp: not an int {self:?}"),
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            V::F(x) | V::Rot(x) => *x,
            _ => panic!("interp: not a float {self:?}"),
        }
    }
    pub fn q(&self) -> usize {
        match self {
            V::Q(x) => *x,
            _ => panic!("interp: not a qubit {self:?}"),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Stop {
    Panic(String),
    Exit(String),
    Fuel,
    /// The interpreter met something it does not know or that is ill-formed
    /// (double-read future, use of freed qubit, missing input...).
    Bad(String),
}
type R<T> = Result<T, Stop>;

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}

/// Decision source for measurement outcomes.
#[derive(Default, Debug, Clone)]
pub struct Oracle {
    pub script: Vec<u8>,
    pub arity: Vec<u8>,
    pub pos: usize,
}
impl Oracle {
    pub fn choose(&mut self, n: u8) -> u8 {
        if self.pos == self.script.len() {
            self.script.push(0);
            self.arity.push(n);
        }
        let c = self.script[self.pos];
        self.arity[self.pos] = n;
        self.pos += 1;
        c
    }
    /// advance to the next script in DFS order; false when exhausted
    pub fn next(&mut self) -> bool {
        self.pos = 0;
        while let Some(c) = self.script.pop() {
            let a = self.arity.pop().unwrap();
            if c + 1 < a {
                self.script.push(c + 1);
                self.arity.push(a);
                return true;
            }
        }
        false
    }
}

/// One recorded unitary operation (see `run_modified`).
#[derive(Clone, Debug)]
pub struct Rec {
    ctl: Vec<usize>,
    name: String,
    q: Vec<usize>,
    ang: Vec<f64>,
    inv: bool,
}

#[derive(Clone, Debug)]
enum Fut {
    Live(V),
    Gone,
}

pub struct Machine {
    pub st: State,
    /// qubit handle -> slot (None = freed)
    pub slot: Vec<Option<usize>>,
    pub nref: usize,
    pub trace: Vec<String>,
    pub oplog: Vec<(String, Vec<usize>)>,
    pub log_ops: bool,
    futs: Vec<Fut>,
    pub oracle: Oracle,
    pub fuel: u64,
    pub max_qubits: usize,
    pub steps: u64,
    /// if set, TryQAlloc answers come from the oracle (both success and failure explored)
    pub alloc_may_fail: bool,
    pub tok: usize,
    /// recording mode: unitaries are listed instead of applied, anything else is an error
    pub rec: Option<Vec<Rec>>,
    /// values of the symbols that appear in symbolic expressions
    pub syms: Rc<HashMap<String, f64>>,
    /// if set, the calls made to the runtime of the generated code (see C23)
    pub rt: Option<Vec<String>>,
    /// runtime handles of futures
    fut_rt: Vec<usize>,
    nfut: usize,
    pub gpu: Gpu,
}
/// The GPU library as the generated code uses it: every call may fail if `may_fail`
#[derive(Default, Clone)]
pub struct Gpu {
    pub may_fail: bool,
    validated: bool,
    known: Vec<String>,
    contexts: u64,
    results: u64,
}
impl Gpu {
    pub fn id(name: &str) -> u64 {
        name.bytes().fold(17, |x, b| (x * 31 + b as u64) % 1_000_003)
    }
    pub fn context(&mut self) -> u64 {
        self.contexts += 1;
        0x1_0000_0000 * self.contexts + 5
    }
    /// An integer or the bits of a float
    pub fn result(&mut self, float: bool) -> u64 {
        self.results += 1;
        let n = self.results as i64;
        if float { (n as f64 * -0.375).to_bits() } else { (n * -0x1_0000_0001) as u64 }
    }
}

const EPS: f64 = 1e-12;

impl Machine {
    pub fn new() -> Self {
        Machine {
            st: State::new(),
            slot: vec![],
            nref: 0,
            trace: vec![],
            oplog: vec![],
            log_ops: false,
            futs: vec![],
            oracle: Oracle::default(),
            fuel: 200_000,
            max_qubits: 18,
            steps: 0,
            alloc_may_fail: false,
            tok: 0,
            rec: None,
            syms: Default::default(),
            rt: None,
            fut_rt: vec![],
            nfut: 0,
            gpu: Gpu::default(),
        }
    }
    pub fn ev(&mut self, s: impl FnOnce() -> String) {
        if let Some(r) = self.rt.as_mut() {
            r.push(s())
        }
    }
    pub fn fresh(&mut self) -> usize {
        let s = self.st.alloc();
        self.slot.push(Some(s));
        self.slot.len() - 1
    }
    pub fn alloc(&mut self) -> R<usize> {
        if self.rec.is_some() {
            return bad("allocation in a modified function");
        }
        if self.st.n >= self.max_qubits {
            return bad("too many qubits");
        }
        Ok(self.fresh())
    }
    pub fn s(&self, h: usize) -> R<usize> {
        match self.slot.get(h) {
            Some(Some(s)) => Ok(*s),
            _ => bad(format!("use of freed qubit {h}")),
        }
    }
    fn distinct(&self, hs: &[usize]) -> R<()> {
        for i in 0..hs.len() {
            for j in 0..i {
                if hs[i] == hs[j] {
                    return bad("qubit aliased");
                }
            }
        }
        Ok(())
    }
    pub fn collapse(&mut self, h: usize) -> R<bool> {
        if self.rec.is_some() {
            return bad("measurement in a modified function");
        }
        let s = self.s(h)?;
        let (w0, w1) = self.st.weights(s);
        let t = (w0 + w1).max(1e-300);
        let v = if w1 / t < EPS {
            0
        } else if w0 / t < EPS {
            1
        } else {
            self.oracle.choose(2) as usize
        };
        self.st.project(s, v);
        Ok(v == 1)
    }
    pub fn free_in(&mut self, h: usize, v: bool) -> R<()> {
        let s = self.s(h)?;
        self.st.remove(s, v as usize);
        self.slot[h] = None;
        for x in self.slot.iter_mut().flatten() {
            if *x > s {
                *x -= 1;
            }
        }
        Ok(())
    }
    pub fn free(&mut self, h: usize) -> R<()> {
        let v = self.collapse(h)?;
        self.free_in(h, v)
    }
    pub fn reset(&mut self, h: usize) -> R<bool> {
        let v = self.collapse(h)?;
        if v {
            let s = self.s(h)?;
            self.st.u1(s, &x2());
        }
        Ok(v)
    }
    pub fn fut(&mut self, v: V) -> V {
        self.nfut += 1;
        self.fut_of(v, self.nfut - 1)
    }
    fn fut_of(&mut self, v: V, rt: usize) -> V {
        self.futs.push(Fut::Live(v));
        self.fut_rt.push(rt);
        V::Fut(self.futs.len() - 1)
    }
    fn handle(&self, v: &V) -> usize {
        match v {
            V::Fut(i) => self.fut_rt[*i],
            _ => usize::MAX,
        }
    }
    fn fut_take(&mut self, v: &V) -> R<V> {
        let V::Fut(i) = v else {
            return bad("not a future");
        };
        match std::mem::replace(&mut self.futs[*i], Fut::Gone) {
            Fut::Live(v) => Ok(v),
            Fut::Gone => bad("future consumed twice"),
        }
    }
    pub fn live_futures(&self) -> usize {
        self.futs.iter().filter(|f| matches!(f, Fut::Live(_))).count()
    }
    pub fn live_qubits(&self) -> Vec<usize> {
        (0..self.slot.len()).filter(|i| self.slot[*i].is_some()).collect()
    }
    /// Semantics of the named gate of the tket.quantum extension.
    pub fn gate(&mut self, name: &str, q: &[usize], ang: &[f64]) -> R<()> {
        self.gate_ctl(&[], name, q, ang, false)
    }
    pub fn gate_ctl(&mut self, ctl: &[usize], name: &str, q: &[usize], ang: &[f64], inv: bool) -> R<()> {
        let all: Vec<usize> = ctl.iter().chain(q).copied().collect();
        self.distinct(&all)?;
        if let Some(r) = self.rec.as_mut() {
            r.push(Rec { ctl: ctl.to_vec(), name: name.into(), q: q.to_vec(), ang: ang.to_vec(), inv });
            return Ok(());
        }
        let sl: Vec<usize> = q.iter().map(|h| self.s(*h)).collect::<R<_>>()?;
        let cl: Vec<usize> = ctl.iter().map(|h| self.s(*h)).collect::<R<_>>()?;
        if self.log_ops {
            self.oplog.push((format!("{name}{ang:?}"), q.to_vec()));
        }
        let (name, ang): (&str, Vec<f64>) = if inv {
            match name {
                "S" => ("Sdg", vec![]),
                "Sdg" => ("S", vec![]),
                "T" => ("Tdg", vec![]),
                "Tdg" => ("T", vec![]),
                "V" => ("Vdg", vec![]),
                "Vdg" => ("V", vec![]),
                n => (n, ang.iter().map(|x| -x).collect()),
            }
        } else {
            (name, ang.to_vec())
        };
        if name == "phase" {
            // controlled phase: diag(1, e^{i pi a}) on the last control
            match cl.split_last() {
                None => self.st.phase(ang[0]),
                Some((t, rest)) => self.st.cu1(rest, *t, &diag(ang[0])),
            }
            return Ok(());
        }
        let st = &mut self.st;
        apply_gate(st, &cl, name, &sl, &ang).map_or_else(|| bad(format!("gate {name}")), Ok)
    }
    /// A fixed, generic (non-symmetric, entangling) unitary for opaque operations.
    pub fn opaque(&mut self, name: &str, q: &[usize]) -> R<()> {
        if self.rec.is_some() {
            return bad("opaque operation in a modified function");
        }
        self.distinct(q)?;
        let mut hsh: u64 = 1469598103934665603;
        for b in name.bytes() {
            hsh = (hsh ^ b as u64).wrapping_mul(1099511628211);
        }
        let mut r = || {
            hsh ^= hsh << 13;
            hsh ^= hsh >> 7;
            hsh ^= hsh << 17;
            (hsh % 997) as f64 / 997.0 * 2.0
        };
        let sl: Vec<usize> = q.iter().map(|h| self.s(*h)).collect::<R<_>>()?;
        if self.log_ops {
            self.oplog.push((name.to_string(), q.to_vec()));
        }
        for round in 0..2 {
            for &s in &sl {
                self.st.u1(s, &rx(r()));
                self.st.u1(s, &rz(r()));
            }
            for i in 1..sl.len() {
                self.st.zz(sl[i - 1], sl[i], r() * 0.5 + 0.1 * (round + 1) as f64);
            }
        }
        for &s in &sl {
            self.st.u1(s, &ry(r()));
        }
        Ok(())
    }
}

/// Unitary gates of tket.quantum (reference), optionally under extra controls. None: not a unitary gate.
pub fn apply_gate(st: &mut State, ctl: &[usize], name: &str, q: &[usize], a: &[f64]) -> Option<()> {
    let with = |extra: &[usize]| -> Vec<usize> { ctl.iter().chain(extra).copied().collect() };
    match name {
        "H" => st.cu1(ctl, q[0], &h2()),
        "X" => st.cu1(ctl, q[0], &x2()),
        "Y" => st.cu1(ctl, q[0], &y2()),
        "Z" => st.cu1(ctl, q[0], &z2()),
        "S" => st.cu1(ctl, q[0], &diag(0.5)),
        "Sdg" => st.cu1(ctl, q[0], &diag(-0.5)),
        "T" => st.cu1(ctl, q[0], &diag(0.25)),
        "Tdg" => st.cu1(ctl, q[0], &diag(-0.25)),
        "V" => st.cu1(ctl, q[0], &phase2(&rx(0.5), 0.25)),
        "Vdg" => st.cu1(ctl, q[0], &phase2(&rx(-0.5), -0.25)),
        "Rx" => st.cu1(ctl, q[0], &rx(a[0])),
        "Ry" => st.cu1(ctl, q[0], &ry(a[0])),
        "Rz" => st.cu1(ctl, q[0], &rz(a[0])),
        "CX" => st.cu1(&with(&q[..1]), q[1], &x2()),
        "CY" => st.cu1(&with(&q[..1]), q[1], &y2()),
        "CZ" => st.cu1(&with(&q[..1]), q[1], &z2()),
        "CRz" => st.cu1(&with(&q[..1]), q[1], &rz(a[0])),
        "Toffoli" => st.cu1(&with(&q[..2]), q[2], &x2()),
        _ => return None,
    }
    Some(())
}

/// Ports of one region child, resolved once.
struct Ins {
    node: Node,
    ins: Vec<Option<(Node, usize)>>,
    nout: usize,
}

pub struct Prog<'h> {
    pub h: &'h Hugr,
    order: RefCell<HashMap<Node, Rc<Vec<Ins>>>>,
    consts: RefCell<HashMap<Node, V>>,
    /// tie-breaking of the default schedule: false = lowest node index first, true = highest
    pub reverse: bool,
    /// what to do when the interpreter meets a call to a declared (bodyless) function or unknown op
    pub opaque_ok: bool,
}

type Frame = HashMap<(Node, usize), V>;
type Env = Rc<Vec<TypeArg>>;

pub fn subst(t: &Term, env: &[TypeArg]) -> Term {
    if env.is_empty() {
        return t.clone();
    }
    match t {
        Term::Variable(v) => env.get(v.index()).cloned().unwrap_or(t.clone()),
        Term::List(l) => Term::List(l.iter().map(|x| subst(x, env)).collect()),
        Term::Tuple(l) => Term::Tuple(l.iter().map(|x| subst(x, env)).collect()),
        _ => t.clone(),
    }
}

impl<'h> Prog<'h> {
    pub fn new(h: &'h Hugr) -> Self {
        Prog {
            h,
            order: Default::default(),
            consts: Default::default(),
            reverse: false,
            opaque_ok: true,
        }
    }

    fn region(&self, parent: Node) -> Rc<Vec<Ins>> {
        if let Some(r) = self.order.borrow().get(&parent) {
            return r.clone();
        }
        let h = self.h;
        let kids: Vec<Node> = h.children(parent).collect();
        let idx: HashMap<Node, usize> = kids.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut indeg = vec![0usize; kids.len()];
        let mut succ: Vec<Vec<usize>> = vec![vec![]; kids.len()];
        for (i, &n) in kids.iter().enumerate() {
            for p in h.node_inputs(n) {
                for (src, _) in h.linked_outputs(n, p) {
                    if let Some(&j) = idx.get(&src) {
                        indeg[i] += 1;
                        succ[j].push(i);
                    }
                }
            }
        }
        let mut ready: Vec<usize> = (0..kids.len()).filter(|i| indeg[*i] == 0).collect();
        let mut out = vec![];
        while !ready.is_empty() {
            let k = if self.reverse {
                (0..ready.len()).max_by_key(|&k| ready[k]).unwrap()
            } else {
                (0..ready.len()).min_by_key(|&k| ready[k]).unwrap()
            };
            let i = ready.swap_remove(k);
            let n = kids[i];
            let nin = self.n_value_in(n);
            let ins = (0..nin)
                .map(|p| {
                    h.single_linked_output(n, IncomingPort::from(p))
                        .map(|(s, sp)| (s, sp.index()))
                })
                .collect();
            let nout = h.get_optype(n).value_output_count();
            out.push(Ins { node: n, ins, nout });
            for &j in &succ[i] {
                indeg[j] -= 1;
                if indeg[j] == 0 {
                    ready.push(j);
                }
            }
        }
        if out.len() != kids.len() {
            // cycle: expose as an empty region marker
            out.clear();
        }
        let r = Rc::new(out);
        self.order.borrow_mut().insert(parent, r.clone());
        r
    }

    fn n_value_in(&self, n: Node) -> usize {
        self.h.get_optype(n).value_input_count()
    }

    pub fn call_fn(&self, m: &mut Machine, f: Node, args: Vec<V>, env: Env) -> R<Vec<V>> {
        match self.h.get_optype(f) {
            OpType::FuncDefn(_) | OpType::DFG(_) => {
                let mut fr = Frame::new();
                self.run_region(m, f, args, &mut fr, &env)
            }
            OpType::FuncDecl(d) => {
                if !self.opaque_ok {
                    return bad("call to declaration");
                }
                let name = d.func_name().to_string();
                self.opaque_call(m, &name, args, None)
            }
            o => bad(format!("call of {o}")),
        }
    }

    fn call_val(&self, m: &mut Machine, f: &V, args: Vec<V>) -> R<Vec<V>> {
        match f {
            V::Fun(f, e) => self.call_fn(m, *f, args, e.clone()),
            V::FunC(h) => {
                let p = Prog { opaque_ok: self.opaque_ok, reverse: self.reverse, ..Prog::new(h) };
                p.call_fn(m, h.entrypoint(), args, Rc::new(vec![]))
            }
            V::Mfn(x) => self.run_modified(m, &x.0, &x.1, args),
            x => bad(format!("call of {x:?}")),
        }
    }

    /// Opaque endofunction on its qubit arguments; non-qubit args are recorded in the trace and returned.
    fn opaque_call(&self, m: &mut Machine, name: &str, args: Vec<V>, n_out: Option<usize>) -> R<Vec<V>> {
        let mut qs = vec![];
        for a in &args {
            collect_q(a, &mut qs);
        }
        let cls: Vec<String> = args
            .iter()
            .filter(|a| !has_q(a))
            .map(|a| show(a, &mut |_| "q".into()))
            .collect();
        if !cls.is_empty() {
            m.trace.push(format!("{name}({})", cls.join(",")));
        }
        m.opaque(&format!("{name}|{}", cls.join(",")), &qs)?;
        if let Some(k) = n_out {
            if k != args.len() {
                return bad(format!("opaque op {name} not an endofunction"));
            }
        }
        Ok(args)
    }

    /// Reference meaning of a modified function: list the unitaries its body performs, then apply them
    /// under the controls (outermost modifier takes the first argument) and inverted/reversed.
    fn run_modified(&self, m: &mut Machine, f: &V, mods: &[Option<u64>], args: Vec<V>) -> R<Vec<V>> {
        let Some((last, rest)) = mods.split_last() else {
            let V::Fun(n, e) = f else { return bad("modified non-function") };
            return self.call_fn(m, *n, args, e.clone());
        };
        let mut args = args;
        let mut ctl = vec![];
        let mut ctl_val = None;
        if let Some(n) = last {
            let c = args.remove(0);
            collect_q(&c, &mut ctl);
            if ctl.len() as u64 != *n {
                return bad("control array size");
            }
            ctl_val = Some(c);
        }
        let mut inq = vec![];
        args.iter().for_each(|a| collect_q(a, &mut inq));
        // record the body on fresh labels 0..n, one per qubit of the arguments
        let mut sub = Machine::new();
        sub.fuel = m.fuel;
        sub.rec = Some(vec![]);
        sub.slot = vec![Some(0); inq.len()];
        let lab: Vec<V> = args.iter().map(|a| map_q(a, &mut |h| inq.iter().position(|x| *x == h).unwrap())).collect();
        let out = self.run_modified(&mut sub, f, rest, lab)?;
        m.steps += sub.steps;
        m.trace.extend(sub.trace);
        let recs = sub.rec.unwrap();
        let mut outl = vec![];
        out.iter().for_each(|a| collect_q(a, &mut outl));
        let perm = outl.iter().enumerate().any(|(i, l)| i != *l);
        if outl.len() != inq.len() {
            return bad("modified function is not an endofunction on qubits");
        }
        match last {
            Some(_) => {
                if perm {
                    return bad("PERM: controlled permutation of wires");
                }
                for r in &recs {
                    let c: Vec<usize> = ctl.iter().copied().chain(r.ctl.iter().map(|l| inq[*l])).collect();
                    let q: Vec<usize> = r.q.iter().map(|l| inq[*l]).collect();
                    m.gate_ctl(&c, &r.name, &q, &r.ang, r.inv)?;
                }
                let mut res: Vec<V> = vec![ctl_val.unwrap()];
                res.extend(out.iter().map(|v| map_q(v, &mut |l| inq[l])));
                Ok(res)
            }
            None => {
                // the argument in position i is what the body would have returned in position i
                let mut at = vec![0; inq.len()];
                for (i, l) in outl.iter().enumerate() {
                    at[*l] = inq[i];
                }
                for r in recs.iter().rev() {
                    let c: Vec<usize> = r.ctl.iter().map(|l| at[*l]).collect();
                    let q: Vec<usize> = r.q.iter().map(|l| at[*l]).collect();
                    m.gate_ctl(&c, &r.name, &q, &r.ang, !r.inv)?;
                }
                let mut i = 0;
                Ok(out
                    .iter()
                    .map(|v| {
                        map_q(v, &mut |_| {
                            i += 1;
                            at[i - 1]
                        })
                    })
                    .collect())
            }
        }
    }

    pub fn run_region(&self, m: &mut Machine, parent: Node, args: Vec<V>, fr: &mut Frame, env: &Env) -> R<Vec<V>> {
        let reg = self.region(parent);
        if reg.is_empty() {
            return bad("cyclic region");
        }
        let [inp, outp] = match self.h.get_io(parent) {
            Some(x) => x,
            None => return bad("no io"),
        };
        for (i, a) in args.into_iter().enumerate() {
            fr.insert((inp, i), a);
        }
        let mut result = None;
        for ins in reg.iter() {
            if ins.node == inp {
                continue;
            }
            let op = self.h.get_optype(ins.node);
            match op {
                OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_)
                | OpType::AliasDefn(_) => continue,
                _ => {}
            }
            let mut a = Vec::with_capacity(ins.ins.len());
            for s in &ins.ins {
                match s {
                    Some(k) => match fr.get(k) {
                        Some(v) => a.push(v.clone()),
                        None => return bad(format!("input of {} ({}) not available", ins.node, op)),
                    },
                    None => return bad(format!("unconnected input of {} ({})", ins.node, op)),
                }
            }
            if ins.node == outp {
                result = Some(a);
                continue;
            }
            m.steps += 1;
            if m.fuel == 0 {
                return Err(Stop::Fuel);
            }
            m.fuel -= 1;
            let o = self.exec(m, ins.node, op, a, fr, env)?;
            if o.len() != ins.nout {
                return bad(format!("{op}: {} outputs, expected {}", o.len(), ins.nout));
            }
            for (i, v) in o.into_iter().enumerate() {
                fr.insert((ins.node, i), v);
            }
        }
        match result {
            Some(r) => Ok(r),
            None => bad("output not reached"),
        }
    }

    fn static_src(&self, n: Node, p: IncomingPort) -> R<Node> {
        match self.h.single_linked_output(n, p) {
            Some((s, _)) => Ok(s),
            None => bad("no static source"),
        }
    }

    fn exec(&self, m: &mut Machine, n: Node, op: &OpType, a: Vec<V>, fr: &mut Frame, env: &Env) -> R<Vec<V>> {
        Ok(match op {
            OpType::DFG(_) => self.run_region(m, n, a, fr, env)?,
            OpType::Call(c) => {
                let f = self.static_src(n, c.called_function_port())?;
                let args: Vec<TypeArg> = c.type_args.iter().map(|t| subst(t, env)).collect();
                self.call_fn(m, f, a, Rc::new(args))?
            }
            OpType::LoadFunction(l) => {
                let f = self.static_src(n, IncomingPort::from(0))?;
                let args: Vec<TypeArg> = l.type_args.iter().map(|t| subst(t, env)).collect();
                vec![V::Fun(f, Rc::new(args))]
            }
            OpType::CallIndirect(_) => {
                let mut it = a.into_iter();
                let Some(f) = it.next() else { return bad("CallIndirect") };
                self.call_val(m, &f, it.collect())?
            }
            OpType::LoadConstant(_) => {
                let c = self.static_src(n, IncomingPort::from(0))?;
                if let Some(v) = self.consts.borrow().get(&c) {
                    return Ok(vec![v.clone()]);
                }
                let OpType::Const(k) = self.h.get_optype(c) else {
                    return bad("LoadConstant of non-const");
                };
                let v = konst(k.value())?;
                self.consts.borrow_mut().insert(c, v.clone());
                vec![v]
            }
            OpType::Tag(t) => vec![V::Sum(t.tag, a)],
            OpType::Conditional(_) => {
                let mut it = a.into_iter();
                let Some(V::Sum(tag, vals)) = it.next() else {
                    return bad("conditional on non-sum");
                };
                let case = match self.h.children(n).nth(tag) {
                    Some(c) => c,
                    None => return bad("tag out of range"),
                };
                let args = vals.into_iter().chain(it).collect();
                self.run_region(m, case, args, fr, env)?
            }
            OpType::TailLoop(tl) => {
                let mut args = a;
                let _ = tl;
                loop {
                    if m.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    m.fuel -= 1;
                    let out = self.run_region(m, n, args, fr, env)?;
                    let mut it = out.into_iter();
                    let Some(V::Sum(tag, vals)) = it.next() else {
                        return bad("loop on non-sum");
                    };
                    args = vals.into_iter().chain(it).collect();
                    if tag == 1 {
                        break args;
                    }
                }
            }
            OpType::CFG(_) => {
                let mut blk = self.h.children(n).next().unwrap();
                let mut args = a;
                loop {
                    match self.h.get_optype(blk) {
                        OpType::ExitBlock(_) => break args,
                        OpType::DataflowBlock(_) => {
                            if m.fuel == 0 {
                                return Err(Stop::Fuel);
                            }
                            m.fuel -= 1;
                            let out = self.run_region(m, blk, args, fr, env)?;
                            let mut it = out.into_iter();
                            let Some(V::Sum(tag, vals)) = it.next() else {
                                return bad("block on non-sum");
                            };
                            args = vals.into_iter().chain(it).collect();
                            blk = match self.h.single_linked_input(blk, OutgoingPort::from(tag)) {
                                Some((b, _)) => b,
                                None => return bad("no successor"),
                            };
                        }
                        _ => return bad("cfg child"),
                    }
                }
            }
            OpType::ExtensionOp(e) => {
                let args: Vec<TypeArg> = e.args().iter().map(|t| subst(t, env)).collect();
                self.ext(m, e.def().extension_id(), e.def().name(), &args, op, a)?
            }
            OpType::OpaqueOp(e) => {
                let args: Vec<TypeArg> = e.args().iter().map(|t| subst(t, env)).collect();
                let name = e.unqualified_id().clone();
                self.ext(m, e.extension(), &name, &args, op, a)?
            }
            o => return bad(format!("op {o}")),
        })
    }

    fn ext(&self, m: &mut Machine, ext: &str, name: &str, targs: &[TypeArg], op: &OpType, a: Vec<V>) -> R<Vec<V>> {
        let nat = |i: usize| -> R<u64> {
            match targs.get(i) {
                Some(Term::BoundedNat(n)) => Ok(*n),
                t => bad(format!("nat arg {t:?}")),
            }
        };
        match ext {
            "tket.quantum" if name == "symbolic_angle" => match &targs[0] {
                Term::String(s) => Ok(vec![V::Rot(crate::pyt::expr(s, &m.syms))]),
                _ => bad("symbolic angle"),
            },
            "tket.quantum" => tket_op(m, name, a),
            "tket.bool" => {
                let b = |i: usize| a[i].as_bool();
                Ok(vec![match name {
                    "read" => V::bool(b(0)),
                    "make_opaque" => V::TB(b(0)),
                    "eq" => V::TB(b(0) == b(1)),
                    "xor" => V::TB(b(0) != b(1)),
                    "and" => V::TB(b(0) && b(1)),
                    "or" => V::TB(b(0) || b(1)),
                    "not" => V::TB(!b(0)),
                    _ => return bad(format!("tket.bool.{name}")),
                }])
            }
            "tket.rotation" => Ok(vec![match name {
                "from_halfturns" => {
                    let f = a[0].f();
                    if f.is_finite() {
                        V::Sum(1, vec![V::Rot(f)])
                    } else {
                        V::Sum(0, vec![])
                    }
                }
                "from_halfturns_unchecked" => {
                    let f = a[0].f();
                    if !f.is_finite() {
                        return Err(Stop::Panic("non-finite rotation".into()));
                    }
                    V::Rot(f)
                }
                "to_halfturns" => V::F(a[0].f()),
                "radd" => V::Rot(a[0].f() + a[1].f()),
                _ => return bad(format!("tket.rotation.{name}")),
            }]),
            "tket.global_phase" => {
                m.gate_ctl(&[], "phase", &[], &[a[0].f()], false)?;
                Ok(vec![])
            }
            "TKET1" if name == "tk1op" => {
                let Term::String(s) = &targs[0] else { return bad("tk1op payload") };
                let j: serde_json::Value = serde_json::from_str(s).map_err(|e| Stop::Bad(e.to_string()))?;
                crate::pyt::opaque_op(m, &j, &a)
            }
            "TKET1" if name == "tk1" => {
                let q = a[0].q();
                let s = m.s(q)?;
                // TK1(a,b,c) = Rz(a) Rx(b) Rz(c)
                let u = mul2(&rz(a[1].f()), &mul2(&rx(a[2].f()), &rz(a[3].f())));
                m.st.u1(s, &u);
                if m.log_ops {
                    m.oplog.push((format!("tk1{:?}", [a[1].f(), a[2].f(), a[3].f()]), vec![q]));
                }
                Ok(vec![a[0].clone()])
            }
            "tket.modifier" => {
                let (f, mut mods) = match &a[0] {
                    V::Fun(..) => (a[0].clone(), vec![]),
                    V::Mfn(x) => (x.0.clone(), x.1.clone()),
                    x => return bad(format!("modifier of {x:?}")),
                };
                mods.push(match name {
                    "ControlModifier" => Some(nat(0)?),
                    "DaggerModifier" => None,
                    _ => return bad(name),
                });
                Ok(vec![V::Mfn(Rc::new((f, mods)))])
            }
            "tket.qsystem" => qsystem_op(m, name, targs, a),
            "tket.futures" => match name {
                "Read" => {
                    let f = m.handle(&a[0]);
                    let v = m.fut_take(&a[0])?;
                    m.ev(|| match &v {
                        V::Int(_, x) => format!("read_uint {f} {x}"),
                        v => format!("read_bool {f} {}", v.as_bool() as u8),
                    });
                    m.ev(|| format!("dec {f}"));
                    Ok(vec![v])
                }
                "Dup" => {
                    let f = m.handle(&a[0]);
                    let v = m.fut_take(&a[0])?;
                    m.ev(|| format!("inc {f}"));
                    Ok(vec![m.fut_of(v.clone(), f), m.fut_of(v, f)])
                }
                "Free" => {
                    let f = m.handle(&a[0]);
                    m.fut_take(&a[0])?;
                    m.ev(|| format!("dec {f}"));
                    Ok(vec![])
                }
                _ => bad(format!("futures.{name}")),
            },
            "tket.result" => {
                let tag = match &targs[0] {
                    Term::String(s) => s.clone(),
                    t => format!("{t}"),
                };
                let nm = if name.ends_with("uint") {
                    "uint"
                } else if name.ends_with("int") {
                    "int"
                } else if name.ends_with("bool") {
                    "bool"
                } else {
                    "f64"
                };
                let arr = if name.contains("array") { "arr_" } else { "" };
                let v = show_result(&a[0], nm == "int");
                if m.rt.is_some() {
                    let (f, t) = match nm {
                        "uint" => ("uint", "INT"),
                        "int" => ("int", "INT"),
                        "bool" => ("bool", "BOOL"),
                        _ => ("float", "FLOAT"),
                    };
                    let arr = name.contains("array");
                    let (x, y) = if arr { ("_arr", "ARR") } else { ("", "") };
                    let exact = rt_value(&a[0], nm);
                    m.ev(|| format!("print_{f}{x} USER:{t}{y}:{tag} {exact}"));
                }
                m.trace.push(format!("RESULT {arr}{nm} {tag} {v}"));
                Ok(vec![])
            }
            "tket.debug" => {
                let tag = match targs.first() {
                    Some(Term::String(s)) => s.clone(),
                    t => format!("{t:?}"),
                };
                let mut qs = vec![];
                for x in &a {
                    collect_q(x, &mut qs);
                }
                m.trace.push(format!("STATE {tag} n={}", qs.len()));
                m.ev(|| format!("print_state USER:STATE:{tag} {qs:?}"));
                if m.log_ops {
                    m.oplog.push((format!("state {tag}"), qs));
                }
                Ok(a)
            }
            "tket.guppy" => {
                // drop: release everything inside
                for x in &a {
                    self.drop_val(m, x)?;
                }
                Ok(vec![])
            }
            "tket.qsystem.utils" => {
                m.ev(|| "shot".into());
                Ok(vec![V::US(7)])
            }
            "tket.qsystem.random" => random_op(m, name, a),
            "tket.gpu" => gpu_op(m, name, targs, a),
            "logic" => {
                let b: Vec<bool> = a.iter().map(|x| x.as_bool()).collect();
                Ok(vec![V::bool(match name {
                    "And" => b.iter().all(|x| *x),
                    "Or" => b.iter().any(|x| *x),
                    "Eq" => b[0] == b[1],
                    "Xor" => b[0] != b[1],
                    "Not" => !b[0],
                    _ => return bad(format!("logic.{name}")),
                })])
            }
            "prelude" => match name {
                "Noop" => Ok(a),
                "Barrier" => {
                    if m.log_ops {
                        let mut qs = vec![];
                        let tys: Vec<Type> = op.dataflow_signature().map(|s| s.input().iter().cloned().collect()).unwrap_or_default();
                        for (t, x) in tys.iter().zip(&a) {
                            covered(t, x, &mut qs);
                        }
                        m.oplog.push(("Barrier".into(), qs));
                    }
                    Ok(a)
                }
                "MakeTuple" => Ok(vec![V::Sum(0, a)]),
                "UnpackTuple" => match a.into_iter().next() {
                    Some(V::Sum(0, v)) => Ok(v),
                    x => bad(format!("UnpackTuple {x:?}")),
                },
                "panic" | "exit" => {
                    let msg = match &a[0] {
                        V::Err(s, msg) => {
                            m.ev(|| format!("panic {} EXIT:INT:{msg}", s.wrapping_add(if name == "panic" { 1000 } else { 0 })));
                            format!("{s}:{msg}")
                        }
                        x => format!("{x:?}"),
                    };
                    Err(if name == "panic" { Stop::Panic(msg) } else { Stop::Exit(msg) })
                }
                "MakeError" => match (&a[0], &a[1]) {
                    (x, V::Str(s)) => Ok(vec![V::Err(x.u() as u32, s.clone())]),
                    _ => bad("MakeError"),
                },
                "print" => {
                    m.trace.push(format!("PRINT {}", show(&a[0], &mut |_| "q".into())));
                    Ok(vec![])
                }
                "load_nat" => Ok(vec![V::US(nat(0)?)]),
                _ => bad(format!("prelude.{name}")),
            },
            "arithmetic.float" => float_op(name, a),
            "arithmetic.int" => int_op(name, targs, a),
            "arithmetic.conversions" => conv_op(name, targs, a),
            "collections.array" | "collections.value_array" | "collections.borrow_arr" => {
                self.array_op(m, name, targs, a)
            }
            "collections.static_array" => match (name, &a[0]) {
                ("get", V::SArr(x)) => Ok(vec![match x.get(a[1].u() as usize) {
                    Some(v) => V::Sum(1, vec![v.clone()]),
                    None => V::Sum(0, vec![]),
                }]),
                ("len", V::SArr(x)) => Ok(vec![V::US(x.len() as u64)]),
                _ => bad(format!("static_array.{name}")),
            },
            _ => {
                if !self.opaque_ok {
                    return bad(format!("unknown op {ext}.{name}"));
                }
                let k = op.value_output_count();
                self.opaque_call(m, &format!("{ext}.{name}"), a, Some(k))
            }
        }
    }

    fn drop_val(&self, m: &mut Machine, v: &V) -> R<()> {
        match v {
            V::Q(h) => m.free(*h),
            V::Sum(_, x) => x.iter().try_for_each(|y| self.drop_val(m, y)),
            V::Arr(x) => x.iter().flatten().try_for_each(|y| self.drop_val(m, y)),
            V::Fut(_) => m.fut_take(v).map(|_| ()),
            _ => Ok(()),
        }
    }

    fn array_op(&self, m: &mut Machine, name: &str, targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
        let pan = |s: &str| -> R<Vec<V>> { Err(Stop::Panic(s.to_string())) };
        let full = |x: Vec<Option<V>>| -> R<Vec<V>> {
            let mut o = vec![];
            for v in x {
                match v {
                    Some(v) => o.push(v),
                    None => return Err(Stop::Panic("array element borrowed".into())),
                }
            }
            Ok(o)
        };
        if name == "new_array" {
            return Ok(vec![V::Arr(a.into_iter().map(Some).collect())]);
        }
        if name == "new_all_borrowed" {
            let n = match &targs[0] {
                Term::BoundedNat(n) => *n as usize,
                t => return bad(format!("size {t}")),
            };
            return Ok(vec![V::Arr(vec![None; n])]);
        }
        if name == "repeat" {
            let n = match &targs[0] {
                Term::BoundedNat(n) => *n as usize,
                t => return bad(format!("size {t}")),
            };
            let mut o = vec![];
            for _ in 0..n {
                let mut r = self.call_val(m, &a[0], vec![])?;
                o.push(Some(r.remove(0)));
            }
            return Ok(vec![V::Arr(o)]);
        }
        let mut it = a.into_iter();
        let Some(V::Arr(mut arr)) = it.next() else {
            return bad(format!("array op {name} on non-array"));
        };
        let rest: Vec<V> = it.collect();
        match name {
            "unpack" => full(arr),
            "get" => {
                let i = rest[0].u() as usize;
                let r = match arr.get(i) {
                    Some(Some(v)) => V::Sum(1, vec![v.clone()]),
                    Some(None) => return pan("array element borrowed"),
                    None => V::Sum(0, vec![]),
                };
                Ok(vec![r, V::Arr(arr)])
            }
            "set" => {
                let i = rest[0].u() as usize;
                let v = rest[1].clone();
                match arr.get_mut(i) {
                    Some(x) => {
                        let old = match x.take() {
                            Some(o) => o,
                            None => return pan("array element borrowed"),
                        };
                        *x = Some(v);
                        Ok(vec![V::Sum(1, vec![old, V::Arr(arr)])])
                    }
                    None => Ok(vec![V::Sum(0, vec![v, V::Arr(arr)])]),
                }
            }
            "swap" => {
                let (i, j) = (rest[0].u() as usize, rest[1].u() as usize);
                if i < arr.len() && j < arr.len() {
                    if arr[i].is_none() || arr[j].is_none() {
                        return pan("array element borrowed");
                    }
                    arr.swap(i, j);
                    Ok(vec![V::Sum(1, vec![V::Arr(arr)])])
                } else {
                    Ok(vec![V::Sum(0, vec![V::Arr(arr)])])
                }
            }
            "pop_left" | "pop_right" => {
                if arr.is_empty() {
                    return Ok(vec![V::Sum(0, vec![])]);
                }
                let x = if name == "pop_left" { arr.remove(0) } else { arr.pop().unwrap() };
                match x {
                    Some(v) => Ok(vec![V::Sum(1, vec![v, V::Arr(arr)])]),
                    None => pan("array element borrowed"),
                }
            }
            "discard_empty" => Ok(vec![]),
            "clone" => {
                full(arr.clone())?;
                Ok(vec![V::Arr(arr.clone()), V::Arr(arr)])
            }
            "discard" => {
                full(arr)?;
                Ok(vec![])
            }
            "scan" => {
                let mut rest = rest.into_iter();
                let Some(f) = rest.next() else {
                    return bad("scan");
                };
                let mut acc: Vec<V> = rest.collect();
                let mut o = vec![];
                for x in full(arr)? {
                    let mut args = vec![x];
                    args.extend(acc);
                    let mut r = self.call_val(m, &f, args)?.into_iter();
                    o.push(r.next());
                    acc = r.collect();
                }
                let mut res = vec![V::Arr(o)];
                res.extend(acc);
                Ok(res)
            }
            "to_array" if arr.iter().any(|x| x.is_none()) => pan("Some array elements have been borrowed"),
            "from_array" | "to_array" => Ok(vec![V::Arr(arr)]),
            "borrow" => {
                let i = rest[0].u() as usize;
                match arr.get_mut(i) {
                    None => pan("index out of bounds"),
                    Some(x) => match x.take() {
                        Some(v) => Ok(vec![V::Arr(arr), v]),
                        None => pan("array element borrowed"),
                    },
                }
            }
            "return" => {
                let i = rest[0].u() as usize;
                match arr.get_mut(i) {
                    None => pan("index out of bounds"),
                    Some(x) => {
                        if x.is_some() {
                            return pan("array element not borrowed");
                        }
                        *x = Some(rest[1].clone());
                        Ok(vec![V::Arr(arr)])
                    }
                }
            }
            "discard_all_borrowed" => {
                if arr.iter().any(|x| x.is_some()) {
                    return pan("array not all borrowed");
                }
                Ok(vec![])
            }
            "is_borrowed" => {
                let i = rest[0].u() as usize;
                match arr.get(i) {
                    None => pan("index out of bounds"),
                    Some(x) => {
                        let b = x.is_none();
                        Ok(vec![V::Arr(arr), V::bool(b)])
                    }
                }
            }
            _ => bad(format!("array op {name}")),
        }
    }
}

pub fn map_q(v: &V, f: &mut dyn FnMut(usize) -> usize) -> V {
    match v {
        V::Q(h) => V::Q(f(*h)),
        V::Sum(t, x) => V::Sum(*t, x.iter().map(|y| map_q(y, f)).collect()),
        V::Arr(x) => V::Arr(x.iter().map(|y| y.as_ref().map(|y| map_q(y, f))).collect()),
        V::List(x) => V::List(x.iter().map(|y| map_q(y, f)).collect()),
        v => v.clone(),
    }
}
pub fn collect_q(v: &V, o: &mut Vec<usize>) {
    match v {
        V::Q(h) => o.push(*h),
        V::Sum(_, x) => x.iter().for_each(|y| collect_q(y, o)),
        V::Arr(x) => x.iter().flatten().for_each(|y| collect_q(y, o)),
        V::List(x) => x.iter().for_each(|y| collect_q(y, o)),
        _ => {}
    }
}
/// Qubits a barrier covers: those in tuples and arrays, and in arrays of optional qubits.
pub fn covered(t: &Type, v: &V, o: &mut Vec<usize>) {
    use tket::hugr::extension::prelude::{option_type, qb_t};
    match v {
        V::Q(h) => o.push(*h),
        V::Sum(_, x) => {
            if let Some(row) = t.as_sum().and_then(|s| s.as_tuple().cloned()) {
                for (t, y) in row.iter().zip(x) {
                    covered(&t.clone().try_into_type().unwrap(), y, o);
                }
            }
        }
        V::Arr(x) => {
            let Some(TypeArg::Runtime(e)) = t.as_extension().and_then(|c| c.args().last().cloned()) else { return };
            for y in x.iter().flatten() {
                if e == Type::from(option_type(vec![qb_t()])) {
                    collect_q(y, o);
                } else {
                    covered(&e, y, o);
                }
            }
        }
        _ => {}
    }
}
fn has_q(v: &V) -> bool {
    let mut o = vec![];
    collect_q(v, &mut o);
    !o.is_empty()
}
fn fnum(x: f64) -> String {
    // tolerate the last few ulps of re-association
    let r = (x * 1e9).round() / 1e9;
    let r = if r == 0.0 { 0.0 } else { r };
    format!("{r}")
}
/// Canonical text of a value; `q` names qubits. tket.bool, sum-bool and (bool|future) all read the same.
pub fn show(v: &V, q: &mut dyn FnMut(usize) -> String) -> String {
    match v {
        V::Sum(t, x) if x.is_empty() => format!("#{t}"),
        V::Sum(t, x) => format!("#{t}({})", x.iter().map(|y| show(y, q)).collect::<Vec<_>>().join(",")),
        V::Int(_, x) => format!("i{x}"),
        V::US(x) => format!("u{x}"),
        V::F(x) => format!("f{}", fnum(*x)),
        V::Rot(x) => format!("r{}", fnum(*x)),
        V::TB(b) => format!("#{}", *b as u8),
        V::Q(h) => q(*h),
        V::Arr(x) => format!(
            "[{}]",
            x.iter()
                .map(|y| y.as_ref().map_or("_".into(), |y| show(y, q)))
                .collect::<Vec<_>>()
                .join(",")
        ),
        V::SArr(x) => format!("s[{}]", x.iter().map(|y| show(y, q)).collect::<Vec<_>>().join(",")),
        V::List(x) => format!("l[{}]", x.iter().map(|y| show(y, q)).collect::<Vec<_>>().join(",")),
        V::Fun(..) | V::FunC(..) | V::Mfn(..) => "fn".into(),
        V::Fut(_) => "fut".into(),
        V::Str(s) => format!("{s:?}"),
        V::Err(a, b) => format!("err{a}:{b}"),
        V::Tok(s) => s.clone(),
    }
}
/// A reported value as it reaches the runtime
fn rt_value(v: &V, kind: &str) -> String {
    match v {
        V::F(x) => format!("{x:?}"),
        V::Arr(x) => format!("[ {}]", x.iter().map(|y| y.as_ref().map_or("_".into(), |y| rt_value(y, kind)) + " ").collect::<String>()),
        v => show_result(v, kind == "int"),
    }
}
fn show_result(v: &V, signed: bool) -> String {
    match v {
        V::Sum(t, _) => format!("{t}"),
        V::TB(b) => format!("{}", *b as u8),
        V::Int(w, x) => {
            if signed {
                format!("{}", sext(*x, *w))
            } else {
                format!("{x}")
            }
        }
        V::US(x) => format!("{x}"),
        V::F(x) => fnum(*x),
        V::Arr(x) => format!(
            "[{}]",
            x.iter()
                .map(|y| y.as_ref().map_or("_".into(), |y| show_result(y, signed)))
                .collect::<Vec<_>>()
                .join(",")
        ),
        _ => format!("{v:?}"),
    }
}

fn tket_op(m: &mut Machine, name: &str, a: Vec<V>) -> R<Vec<V>> {
    let mut qs = vec![];
    let mut ang = vec![];
    for x in &a {
        match x {
            V::Q(h) => qs.push(*h),
            V::Rot(f) | V::F(f) => ang.push(*f),
            _ => return bad(format!("tket op {name} arg {x:?}")),
        }
    }
    let outq = || qs.iter().map(|h| V::Q(*h)).collect::<Vec<_>>();
    let log = |m: &mut Machine, n: &str| {
        if m.log_ops {
            m.oplog.push((n.to_string(), qs.clone()));
        }
    };
    match name {
        "Measure" => {
            log(m, name);
            let b = m.collapse(qs[0])?;
            Ok(vec![V::Q(qs[0]), V::bool(b)])
        }
        "MeasureFree" => {
            log(m, name);
            let b = m.collapse(qs[0])?;
            m.free_in(qs[0], b)?;
            Ok(vec![V::TB(b)])
        }
        "Reset" => {
            log(m, name);
            m.reset(qs[0])?;
            Ok(outq())
        }
        "QAlloc" => {
            let h = m.alloc()?;
            if m.log_ops {
                m.oplog.push(("QAlloc".into(), vec![h]));
            }
            Ok(vec![V::Q(h)])
        }
        "TryQAlloc" => try_alloc(m),
        "QFree" => {
            log(m, name);
            m.free(qs[0])?;
            Ok(vec![])
        }
        _ => {
            m.gate(name, &qs, &ang)?;
            Ok(outq())
        }
    }
}
fn try_alloc(m: &mut Machine) -> R<Vec<V>> {
    if m.alloc_may_fail && m.oracle.choose(2) == 1 {
        m.trace.push("ALLOC-FAIL".into());
        m.ev(|| "qalloc -1".into());
        return Ok(vec![V::Sum(0, vec![])]);
    }
    let h = m.alloc()?;
    m.ev(|| format!("qalloc {h}"));
    m.ev(|| format!("reset {h}"));
    if m.log_ops {
        m.oplog.push(("QAlloc".into(), vec![h]));
    }
    Ok(vec![V::Sum(1, vec![V::Q(h)])])
}

fn qsystem_op(m: &mut Machine, name: &str, _targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
    use std::f64::consts::PI;
    let mut qs = vec![];
    let mut ang = vec![];
    for x in &a {
        match x {
            V::Q(h) => qs.push(*h),
            V::F(f) => ang.push(*f / PI),
            V::Arr(_) => collect_q(x, &mut qs),
            _ => return bad(format!("qsystem op {name} arg {x:?}")),
        }
    }
    m.distinct(&qs)?;
    if m.log_ops {
        m.oplog.push((name.to_string(), qs.clone()));
    }
    let rad: Vec<f64> = a.iter().filter_map(|x| if let V::F(f) = x { Some(*f) } else { None }).collect();
    let outq = || qs.iter().map(|h| V::Q(*h)).collect::<Vec<_>>();
    match name {
        "Rz" => {
            let s = m.s(qs[0])?;
            m.ev(|| format!("rz {} {:?}", qs[0], rad[0]));
            m.st.u1(s, &rz(ang[0]));
            Ok(outq())
        }
        "PhasedX" => {
            let s = m.s(qs[0])?;
            m.ev(|| format!("rxy {} {:?} {:?}", qs[0], rad[0], rad[1]));
            let u = mul2(&rz(ang[1]), &mul2(&rx(ang[0]), &rz(-ang[1])));
            m.st.u1(s, &u);
            Ok(outq())
        }
        "ZZPhase" => {
            let (s, t) = (m.s(qs[0])?, m.s(qs[1])?);
            m.ev(|| format!("rzz {} {} {:?}", qs[0], qs[1], rad[0]));
            m.st.zz(s, t, ang[0]);
            Ok(outq())
        }
        "Measure" | "MeasureReset" | "LazyMeasure" | "LazyMeasureLeaked" | "LazyMeasureReset" => {
            let (q, f) = (qs[0], m.nfut);
            let b = m.collapse(q)?;
            m.ev(|| match name {
                "Measure" | "MeasureReset" => format!("measure {q} {}", b as u8),
                "LazyMeasureLeaked" => format!("lazy_leaked {q} {f}"),
                _ => format!("lazy {q} {f}"),
            });
            let keep = name.ends_with("Reset");
            let mut out = vec![];
            if keep {
                m.ev(|| format!("reset {q}"));
                m.reset(q)?;
                out.push(V::Q(q));
            } else {
                m.ev(|| format!("qfree {q}"));
                m.free_in(q, b)?;
            }
            out.push(match name {
                "Measure" | "MeasureReset" => V::TB(b),
                "LazyMeasureLeaked" => m.fut(V::Int(6, b as u64)),
                _ => m.fut(V::bool(b)),
            });
            Ok(out)
        }
        "Reset" => {
            m.ev(|| format!("reset {}", qs[0]));
            m.reset(qs[0])?;
            Ok(outq())
        }
        "TryQAlloc" => {
            if m.log_ops {
                m.oplog.pop();
            }
            try_alloc(m)
        }
        "QFree" => {
            m.ev(|| format!("qfree {}", qs[0]));
            m.free(qs[0])?;
            Ok(vec![])
        }
        "RuntimeBarrier" => Ok(a),
        _ => bad(format!("qsystem.{name}")),
    }
}

fn random_op(m: &mut Machine, name: &str, a: Vec<V>) -> R<Vec<V>> {
    if name == "DeleteRNGContext" {
        return Ok(vec![]);
    }
    m.tok += 1;
    let t = m.tok as u64;
    let v = m.random(name, a.get(1).map_or(0, |x| x.u()));
    Ok(match name {
        "NewRNGContext" => {
            m.ev(|| format!("random_seed {}", a[0].u()));
            vec![V::Sum(1, vec![V::Tok(format!("rng{}", a[0].u()))])]
        }
        "RandomInt" => {
            m.ev(|| "random_int".into());
            vec![V::Int(5, v), a[0].clone()]
        }
        "RandomFloat" => {
            m.ev(|| "random_float".into());
            vec![V::F(t as f64 * 0.125), a[0].clone()]
        }
        "RandomIntBounded" => {
            m.ev(|| format!("random_rng {}", a[1].u()));
            vec![V::Int(5, v), a[0].clone()]
        }
        "RandomAdvance" => {
            m.ev(|| format!("random_advance {}", a[1].u()));
            vec![a[0].clone()]
        }
        _ => return bad(format!("random.{name}")),
    })
}
impl Machine {
    /// The integer that the next random operation gives
    pub fn random(&self, name: &str, bound: u64) -> u64 {
        let x = self.tok as u64 * 7919;
        match name {
            "RandomInt" => x & 0xffff,
            _ => x % bound.max(1),
        }
    }
}

impl Machine {
    /// A call of the GPU library, and what happens if it fails
    fn gpu_call(&mut self, s: String) -> R<()> {
        self.ev(|| s);
        let k = if self.gpu.may_fail { self.oracle.choose(3) } else { 0 };
        if k == 0 {
            return Ok(());
        }
        self.ev(|| "gpu_get_error".into());
        let msg = if k == 1 { GPU_ERROR } else { "No error message available" };
        self.ev(|| format!("panic 70002 {msg}"));
        Err(Stop::Panic(msg.into()))
    }
    fn gpu_validate(&mut self) -> R<()> {
        if !self.gpu.validated {
            self.gpu_call("gpu_validate_api 0 1 0".into())?;
            self.gpu.validated = true;
        }
        Ok(())
    }
}
pub const GPU_ERROR: &str = "the library's own account of what went wrong";
fn gpu_op(m: &mut Machine, name: &str, targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
    let row = |k: usize| -> Vec<Type> {
        match targs.get(k) {
            Some(TypeArg::List(v)) => v.iter().filter_map(|t| t.as_runtime()).collect(),
            _ => vec![],
        }
    };
    let float = |t: &Type| *t == tket::hugr::std_extensions::arithmetic::float_types::float64_type();
    let handle = |v: &V| match v {
        V::Int(_, x) => *x,
        _ => 0,
    };
    Ok(match name {
        "get_context" => {
            m.gpu_validate()?;
            m.gpu_call(format!("gpu_init {}", a[0].u()))?;
            vec![V::Sum(1, vec![V::Int(6, m.gpu.context())])]
        }
        "dispose_context" => {
            m.gpu_call(format!("gpu_discard {}", handle(&a[0])))?;
            vec![]
        }
        "lookup_by_id" => match &targs[0] {
            TypeArg::BoundedNat(n) => vec![V::Int(6, *n)],
            t => return bad(format!("lookup_by_id {t:?}")),
        },
        "lookup_by_name" => {
            let TypeArg::String(n) = &targs[0] else { return bad("lookup_by_name".to_string()) };
            if !m.gpu.known.contains(&n.to_string()) {
                m.gpu_validate()?;
                m.gpu_call(format!("gpu_get_function_id {n}"))?;
                m.gpu.known.push(n.to_string());
            }
            vec![V::Int(6, Gpu::id(n))]
        }
        "call" => {
            let mut sig = String::new();
            let mut vals = vec![];
            for v in &a[2..] {
                let (c, x) = match v {
                    V::F(x) => ('f', format!("{x:?}")),
                    V::Int(_, x) | V::US(x) => ('i', format!("{x}")),
                    v => ('b', (v.as_bool() as u8).to_string()),
                };
                sig.push(c);
                vals.push(x);
            }
            sig.push(':');
            sig.push(match &row(1)[..] {
                [] => 'v',
                [t] => if float(t) { 'f' } else { 'i' },
                _ => return bad("gpu outputs".to_string()),
            });
            m.gpu_call(format!("gpu_call {} {} {sig} {}", handle(&a[0]), handle(&a[1]), vals.join(",")))?;
            vec![a[0].clone()]
        }
        "read_result" => {
            let mut out = vec![a[0].clone()];
            for t in row(0) {
                m.gpu_call(format!("gpu_get_result {} 8", handle(&a[0])))?;
                let x = m.gpu.result(float(&t));
                out.push(if float(&t) { V::F(f64::from_bits(x)) } else { V::Int(6, x) });
            }
            out
        }
        _ => return bad(format!("gpu.{name}")),
    })
}

fn float_op(name: &str, a: Vec<V>) -> R<Vec<V>> {
    let x = a[0].f();
    let y = a.get(1).map_or(0.0, |v| v.f());
    Ok(vec![match name {
        "feq" => V::bool(x == y),
        "fne" => V::bool(x != y),
        "flt" => V::bool(x < y),
        "fgt" => V::bool(x > y),
        "fle" => V::bool(x <= y),
        "fge" => V::bool(x >= y),
        "fmax" => V::F(x.max(y)),
        "fmin" => V::F(x.min(y)),
        "fadd" => V::F(x + y),
        "fsub" => V::F(x - y),
        "fneg" => V::F(-x),
        "fabs" => V::F(x.abs()),
        "fmul" => V::F(x * y),
        "fdiv" => V::F(x / y),
        "fpow" => V::F(x.powf(y)),
        "ffloor" => V::F(x.floor()),
        "fceil" => V::F(x.ceil()),
        "fround" => V::F(x.round()),
        "ftostring" => V::Str(format!("{x}")),
        _ => return bad(format!("float.{name}")),
    }])
}
fn mask(w: u32) -> u64 {
    let b = 1u32 << w;
    if b >= 64 {
        u64::MAX
    } else {
        (1u64 << b) - 1
    }
}
pub fn sext(x: u64, w: u32) -> i64 {
    let b = 1u32 << w;
    if b >= 64 {
        x as i64
    } else {
        ((x << (64 - b)) as i64) >> (64 - b)
    }
}
fn int_op(name: &str, targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
    let w = match targs.last() {
        Some(Term::BoundedNat(n)) => *n as u32,
        t => return bad(format!("int width {t:?}")),
    };
    let mk = |x: u64| V::Int(w, x & mask(w));
    let x = a[0].u();
    let y = a.get(1).map_or(0, |v| v.u());
    let wi = match &a[0] {
        V::Int(w, _) => *w,
        _ => w,
    };
    let (sx, sy) = (sext(x, wi), a.get(1).map_or(0, |_| sext(y, wi)));
    let err = |ok: bool, v: Vec<V>| -> R<Vec<V>> {
        if ok {
            Ok(vec![V::Sum(1, v)])
        } else {
            Ok(vec![V::Sum(0, vec![V::Err(0, "err".into())])])
        }
    };
    Ok(vec![match name {
        "iwiden_u" => mk(x),
        "iwiden_s" => mk(sx as u64),
        "inarrow_u" => return err(x & mask(w) == x, vec![mk(x)]),
        "inarrow_s" => return err(sext(x & mask(w), w) == sx, vec![mk(x)]),
        "ieq" => V::bool(x == y),
        "ine" => V::bool(x != y),
        "ilt_u" => V::bool(x < y),
        "ilt_s" => V::bool(sx < sy),
        "igt_u" => V::bool(x > y),
        "igt_s" => V::bool(sx > sy),
        "ile_u" => V::bool(x <= y),
        "ile_s" => V::bool(sx <= sy),
        "ige_u" => V::bool(x >= y),
        "ige_s" => V::bool(sx >= sy),
        "imax_u" => mk(x.max(y)),
        "imax_s" => mk(sx.max(sy) as u64),
        "imin_u" => mk(x.min(y)),
        "imin_s" => mk(sx.min(sy) as u64),
        "iadd" => mk(x.wrapping_add(y)),
        "isub" => mk(x.wrapping_sub(y)),
        "ineg" => mk((x as i64).wrapping_neg() as u64),
        "imul" => mk(x.wrapping_mul(y)),
        "idiv_u" | "imod_u" | "idivmod_u" if y == 0 => return Err(Stop::Panic("div by zero".into())),
        "idiv_u" => mk(x / y),
        "imod_u" => mk(x % y),
        "idivmod_u" => return Ok(vec![mk(x / y), mk(x % y)]),
        "iabs" => mk(sx.unsigned_abs()),
        "iand" => mk(x & y),
        "ior" => mk(x | y),
        "ixor" => mk(x ^ y),
        "inot" => mk(!x),
        "ishl" => mk(if y >= 64 { 0 } else { x << y }),
        "ishr" => mk(if y >= 64 { 0 } else { x >> y }),
        "iu_to_s" | "is_to_u" => mk(x),
        "ipow" => mk(x.wrapping_pow(y as u32)),
        _ => return bad(format!("int.{name}")),
    }])
}
fn conv_op(name: &str, targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
    let w = match targs.last() {
        Some(Term::BoundedNat(n)) => *n as u32,
        _ => 6,
    };
    Ok(vec![match name {
        "itousize" => V::US(a[0].u()),
        "ifromusize" => V::Int(6, a[0].u()),
        "itobool" => V::bool(a[0].u() == 1),
        "ifrombool" => V::Int(0, a[0].as_bool() as u64),
        "convert_u" => V::F(a[0].u() as f64),
        "convert_s" => match &a[0] {
            V::Int(wi, x) => V::F(sext(*x, *wi) as f64),
            _ => return bad("convert_s"),
        },
        "trunc_u" | "trunc_s" => {
            let f = a[0].f();
            let bits = 1u32 << w;
            let lim = |e: u32| 2f64.powi(e as i32);
            let ok = f.is_finite()
                && if name == "trunc_u" {
                    f.trunc() >= 0.0 && f.trunc() < lim(bits)
                } else {
                    f.trunc() >= -lim(bits - 1) && f.trunc() < lim(bits - 1)
                };
            if !ok {
                V::Sum(0, vec![V::Err(0, "err".into())])
            } else if name == "trunc_u" {
                V::Sum(1, vec![V::Int(w, f.trunc() as u64 & mask(w))])
            } else {
                V::Sum(1, vec![V::Int(w, f.trunc() as i64 as u64 & mask(w))])
            }
        }
        "bytecast_int64_to_float64" => V::F(f64::from_bits(a[0].u())),
        "bytecast_float64_to_int64" => V::Int(6, a[0].f().to_bits()),
        _ => return bad(format!("conv.{name}")),
    }])
}

pub fn konst(v: &Value) -> R<V> {
    if let Value::Sum(s) = v {
        return Ok(V::Sum(s.tag, s.values.iter().map(konst).collect::<R<_>>()?));
    }
    if let Some(c) = v.get_custom_value::<ConstInt>() {
        return Ok(V::Int(c.log_width() as u32, c.value_u()));
    }
    if let Some(c) = v.get_custom_value::<ConstUsize>() {
        return Ok(V::US(c.value()));
    }
    if let Some(c) = v.get_custom_value::<ConstF64>() {
        return Ok(V::F(c.value()));
    }
    if let Some(c) = v.get_custom_value::<ConstRotation>() {
        return Ok(V::Rot(c.half_turns()));
    }
    if let Some(c) = v.get_custom_value::<ConstBool>() {
        return Ok(V::TB(c.value()));
    }
    if let Some(c) = v.get_custom_value::<ConstString>() {
        return Ok(V::Str(c.value().to_string()));
    }
    if let Some(c) = v.get_custom_value::<ConstError>() {
        return Ok(V::Err(c.signal, c.message.clone()));
    }
    let arr = |vs: Vec<&Value>| -> R<V> {
        Ok(V::Arr(vs.into_iter().map(|x| konst(x).map(Some)).collect::<R<_>>()?))
    };
    if let Some(c) = v.get_custom_value::<ArrayValue>() {
        return arr(c.get_contents().iter().collect());
    }
    if let Some(c) = v.get_custom_value::<BArrayValue>() {
        return arr(c.get_contents().iter().collect());
    }
    if let Some(c) = v.get_custom_value::<VArrayValue>() {
        return arr(c.get_contents().iter().collect());
    }
    if let Some(c) = v.get_custom_value::<StaticArrayValue>() {
        return Ok(V::SArr(Rc::new(
            c.get_contents().iter().map(konst).collect::<R<_>>()?,
        )));
    }
    if let Some(c) = v.get_custom_value::<ListValue>() {
        return Ok(V::List(c.get_contents().iter().map(konst).collect::<R<_>>()?));
    }
    if v.get_custom_value::<tket_qsystem::extension::gpu::ConstGpuModule>().is_some() {
        return Ok(V::Tok("gpu module".into()));
    }
    if let Value::Function { hugr } = v {
        return Ok(V::FunC(Rc::new((**hugr).clone())));
    }
    bad(format!("constant {v:?}"))
}

// ---------------------------------------------------------------------------------------
// Whole-program exploration

/// Observable behaviour: canonical text (trace + outputs or stop reason) -> unnormalised density
/// matrix over reference qubits ++ output qubits (in order of appearance).
#[derive(Clone, Debug, Default)]
pub struct Behaviour {
    /// outcome text -> (number of qubits, unnormalised ensemble of pure states)
    pub map: BTreeMap<String, (usize, Vec<Vec<C>>)>,
    pub leaves: u64,
    pub steps: u64,
    pub leaked_qubits: usize,
    pub leaked_futures: usize,
    pub oplogs: Vec<Vec<(String, Vec<usize>)>>,
}

/// An input argument: a qubit (half of a Bell pair) or a classical value.
#[derive(Clone, Debug)]
pub enum Arg {
    Qubit,
    QubitArray(usize),
    /// every truth value is tried; the choice is part of the trace
    Bool,
    /// 0, 1 and 2 are tried
    Usize,
    Int,
    Val(V),
    TBool,
    Future,
    Tuple(Vec<Arg>),
}
/// The value of an input; choices are part of the trace
fn arg_value(m: &mut Machine, refs: &mut Vec<usize>, a: &Arg, name: &str) -> V {
    let mut bell = |m: &mut Machine| {
        let r = m.fresh();
        let q = m.fresh();
        let (rs, qs) = (m.slot[r].unwrap(), m.slot[q].unwrap());
        m.st.u1(rs, &h2());
        m.st.cu1(&[rs], qs, &x2());
        refs.push(r);
        V::Q(q)
    };
    match a {
        Arg::Qubit => bell(m),
        Arg::QubitArray(n) => V::Arr((0..*n).map(|_| Some(bell(m))).collect()),
        Arg::Val(v) => v.clone(),
        Arg::Tuple(l) => V::Sum(0, l.iter().enumerate().map(|(k, a)| arg_value(m, refs, a, &format!("{name}.{k}"))).collect()),
        Arg::Bool | Arg::Usize | Arg::Int | Arg::TBool | Arg::Future => {
            let two = matches!(a, Arg::Bool | Arg::TBool | Arg::Future);
            let k = m.oracle.choose(if two { 2 } else { 3 });
            m.trace.push(format!("IN{name}={k}"));
            match a {
                Arg::Bool => V::bool(k == 1),
                Arg::TBool => V::TB(k == 1),
                Arg::Future => m.fut(V::bool(k == 1)),
                Arg::Usize => V::US(k as u64),
                _ => V::Int(6, k as u64),
            }
        }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub unordered_trace: bool,
    pub log_ops: bool,
    pub reverse: bool,
    pub alloc_may_fail: bool,
    /// Treat the messages of panics as equal
    pub hide_panic: bool,
    pub max_leaves: u64,
    pub fuel: u64,
    pub syms: HashMap<String, f64>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            unordered_trace: true,
            log_ops: false,
            reverse: false,
            alloc_may_fail: false,
            hide_panic: false,
            max_leaves: 100_000,
            fuel: 200_000,
            syms: HashMap::new(),
        }
    }
}

/// The type tket.bool is compiled to
fn lowered_bool() -> Type {
    use tket::hugr::extension::prelude::bool_t;
    tket::hugr::types::SumType::new([bool_t(), tket_qsystem::extension::futures::future_type(bool_t())]).into()
}
/// Read what is returned lazily: values of type bool-or-future become plain booleans.
fn rd_fut(m: &mut Machine, v: V, t: &Type, lb: &Type) -> R<V> {
    if t == lb {
        let V::Sum(k, mut x) = v else { return bad("lowered bool") };
        return if k == 1 { m.fut_take(&x[0]) } else { Ok(x.remove(0)) };
    }
    Ok(match v {
        V::Fut(_) => m.fut_take(&v)?,
        V::Sum(k, x) => {
            let row = t.as_sum().and_then(|s| s.get_variant(k).cloned());
            let Some(row) = row else { return bad("sum type") };
            let row: Vec<_> = row.iter().cloned().collect();
            V::Sum(
                k,
                x.into_iter()
                    .zip(row)
                    .map(|(y, t)| match Type::try_from(t) {
                        Ok(t) => rd_fut(m, y, &t, lb),
                        Err(_) => bad("row variable"),
                    })
                    .collect::<R<_>>()?,
            )
        }
        V::Arr(x) => {
            let el = match t.as_extension().map(|c| c.args()) {
                Some([TypeArg::BoundedNat(_), TypeArg::Runtime(e)]) => e.clone(),
                _ => return bad("array type"),
            };
            V::Arr(x.into_iter().map(|y| y.map(|y| rd_fut(m, y, &el, lb)).transpose()).collect::<R<_>>()?)
        }
        v => v,
    })
}

/// Run `root` (FuncDefn or DFG) on all measurement outcomes.
pub fn explore(h: &Hugr, root: Node, args: &[Arg], o: &Opts) -> Result<Behaviour, String> {
    let mut prog = Prog::new(h);
    prog.reverse = o.reverse;
    let outs: Vec<Type> = match h.get_optype(root) {
        OpType::FuncDefn(f) => f.signature().body().output.iter().cloned().collect(),
        o => o.dataflow_signature().ok_or("no signature")?.output.iter().cloned().collect(),
    };
    explore_fn(args, &outs, o, &mut |m, vals| prog.call_fn(m, root, vals, Rc::new(vec![])))
}
/// The same for anything that can be run on a machine
pub fn explore_fn(args: &[Arg], outs: &[Type], o: &Opts, run: &mut dyn FnMut(&mut Machine, Vec<V>) -> R<Vec<V>>) -> Result<Behaviour, String> {
    let mut b = Behaviour::default();
    let mut oracle = Oracle::default();
    let lb = lowered_bool();
    loop {
        let mut m = Machine::new();
        m.oracle = oracle;
        m.log_ops = o.log_ops;
        m.alloc_may_fail = o.alloc_may_fail;
        m.fuel = o.fuel;
        m.syms = Rc::new(o.syms.clone());
        // inputs: bell pairs
        let mut refs = vec![];
        let mut vals = vec![];
        for (k, a) in args.iter().enumerate() {
            let v = arg_value(&mut m, &mut refs, a, &k.to_string());
            vals.push(v);
        }
        m.nref = refs.len();
        let res = run(&mut m, vals);
        b.steps += m.steps;
        b.leaves += 1;
        if b.leaves > o.max_leaves {
            return Err(format!("more than {} leaves", o.max_leaves));
        }
        let res = match res {
            Ok(v) => v
                .into_iter()
                .zip(outs)
                .map(|(x, t)| rd_fut(&mut m, x, t, &lb))
                .collect::<R<Vec<_>>>(),
            Err(e) => Err(e),
        };
        let mut keep = refs.clone();
        let tail = match res {
            Ok(v) => {
                let mut outq = vec![];
                let txt = v
                    .iter()
                    .map(|x| {
                        show(x, &mut |h| {
                            outq.push(h);
                            "q".into()
                        })
                    })
                    .collect::<Vec<_>>()
                    .join(";");
                for q in &outq {
                    if m.s(*q).is_err() {
                        return Err(format!("output is a freed qubit"));
                    }
                }
                let all = m.live_qubits().len();
                let leaked = all - refs.len() - outq.len().min(all - refs.len());
                b.leaked_qubits = b.leaked_qubits.max(leaked);
                b.leaked_futures = b.leaked_futures.max(m.live_futures());
                for i in 0..outq.len() {
                    for j in 0..i {
                        if outq[i] == outq[j] {
                            return Err("qubit duplicated in outputs".into());
                        }
                    }
                }
                keep.extend(outq);
                format!("RET {txt}")
            }
            Err(Stop::Panic(s)) => {
                if o.hide_panic {
                    "PANIC".into()
                } else {
                    format!("PANIC {s}")
                }
            }
            Err(Stop::Exit(s)) => format!("EXIT {s}"),
            Err(Stop::Fuel) => return Err("fuel exhausted (non-termination?)".into()),
            Err(Stop::Bad(s)) => return Err(format!("interp: {s}")),
        };
        let mut tr = m.trace.clone();
        if o.unordered_trace {
            tr.sort();
        }
        let key = format!("{} | {}", tr.join(" ; "), tail);
        if o.log_ops {
            b.oplogs.push(m.oplog.clone());
        }
        // trace out everything but `keep`
        let others: Vec<usize> = (0..m.slot.len())
            .filter(|x| m.slot[*x].is_some() && !keep.contains(x))
            .collect();
        let ord: Vec<usize> = keep
            .iter()
            .chain(&others)
            .map(|x| m.slot[*x].unwrap())
            .collect();
        let amps = m.st.permuted(&ord);
        let d = 1usize << keep.len();
        let e = b.map.entry(key).or_insert_with(|| (keep.len(), vec![]));
        if e.0 != keep.len() {
            return Err("inconsistent output qubit count".into());
        }
        for blk in amps.chunks(d) {
            if blk.iter().map(|x| x.n2()).sum::<f64>() > 1e-12 {
                e.1.push(blk.to_vec());
            }
        }
        oracle = std::mem::take(&mut m.oracle);
        if !oracle.next() {
            break;
        }
    }
    b.map.retain(|_, (_, e)| e.iter().flatten().map(|x| x.n2()).sum::<f64>() > 1e-9);
    Ok(b)
}

pub const TOL: f64 = 1e-6;

pub fn same(a: &Behaviour, b: &Behaviour) -> Result<(), String> {
    for (k, (n, ra)) in &a.map {
        let Some((n2, rb)) = b.map.get(k) else {
            return Err(format!(
                "outcome `{k}` only on one side; other side has {:?}",
                b.map.keys().collect::<Vec<_>>()
            ));
        };
        if n != n2 {
            return Err(format!("outcome `{k}`: qubit count {n} vs {n2}"));
        }
        // || rho_a - rho_b ||_F from the Gram matrices of the two ensembles
        let gram = |x: &Vec<Vec<C>>, y: &Vec<Vec<C>>| -> f64 {
            x.iter()
                .flat_map(|u| y.iter().map(move |v| u.iter().zip(v).fold(C::O, |s, (a, b)| s + a.conj() * *b).n2()))
                .sum()
        };
        let d = (gram(ra, ra) + gram(rb, rb) - 2.0 * gram(ra, rb)).max(0.0).sqrt();
        if d > TOL {
            return Err(format!("outcome `{k}`: states differ by {d:.6}"));
        }
    }
    for k in b.map.keys() {
        if !a.map.contains_key(k) {
            return Err(format!("outcome `{k}` only on the other side"));
        }
    }
    Ok(())
}

/// Argument list for a function/DFG signature made of qubits, qubit arrays and simple classical types.
fn qarr(t: &Type) -> Option<u64> {
    let c = t.as_extension()?;
    match c.args() {
        [TypeArg::BoundedNat(n), TypeArg::Runtime(e)] if *e == tket::hugr::extension::prelude::qb_t() => Some(*n),
        _ => None,
    }
}
pub fn args_for(tys: &[Type]) -> Option<Vec<Arg>> {
    tys.iter().enumerate().map(|(i, t)| arg_for(i as f64 * 0.217, t)).collect()
}
/// no two angles equal, or simply related
fn arg_for(k: f64, t: &Type) -> Option<Arg> {
    use tket::hugr::extension::prelude::{bool_t, qb_t};
    use tket::hugr::types::TypeEnum;
    if let Some(n) = qarr(t) {
        Some(Arg::QubitArray(n as usize))
    } else if *t == qb_t() {
        Some(Arg::Qubit)
    } else if *t == bool_t() {
        Some(Arg::Bool)
    } else if *t == tket::extension::bool::bool_type() {
        Some(Arg::TBool)
    } else if *t == tket_qsystem::extension::futures::future_type(bool_t()) {
        Some(Arg::Future)
    } else if *t == tket::hugr::extension::prelude::usize_t() {
        Some(Arg::Usize)
    } else if *t == tket::hugr::std_extensions::arithmetic::int_types::int_type(6) {
        Some(Arg::Int)
    } else if *t == tket::extension::rotation::rotation_type() {
        Some(Arg::Val(V::Rot(0.37 + k)))
    } else if *t == tket::hugr::std_extensions::arithmetic::float_types::float64_type() {
        Some(Arg::Val(V::F(0.41 + k)))
    } else if let TypeEnum::Sum(s) = t.as_type_enum() {
        if s.num_variants() != 1 {
            return None;
        }
        let row = s.as_tuple()?;
        let args = row.iter().enumerate().map(|(i, x)| arg_for(k + 0.031 * (i as f64 + 1.0), &x.clone().try_into().ok()?));
        Some(Arg::Tuple(args.collect::<Option<_>>()?))
    } else {
        None
    }
}
