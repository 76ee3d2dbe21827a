//! Boring dense state-vector simulator. Amplitudes are kept unnormalised: the squared norm
//! of a branch is its probability weight.
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C(pub f64, pub f64);
impl C {
    pub const O: C = C(0., 0.);
    pub const I: C = C(1., 0.);
    pub fn cis(t: f64) -> C {
        C(t.cos(), t.sin())
    }
    pub fn conj(self) -> C {
        C(self.0, -self.1)
    }
    pub fn n2(self) -> f64 {
        self.0 * self.0 + self.1 * self.1
    }
    pub fn s(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
}
impl std::ops::Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
}
impl std::ops::Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(
            self.0 * o.0 - self.1 * o.1,
            self.0 * o.1 + self.1 * o.0,
        )
    }
}

pub type M2 = [[C; 2]; 2];

pub fn rz(ht: f64) -> M2 {
    let t = ht * PI / 2.;
    [[C::cis(-t), C::O], [C::O, C::cis(t)]]
}
pub fn rx(ht: f64) -> M2 {
    let t = ht * PI / 2.;
    let (c, s) = (t.cos(), t.sin());
    [[C(c, 0.), C(0., -s)], [C(0., -s), C(c, 0.)]]
}
pub fn ry(ht: f64) -> M2 {
    let t = ht * PI / 2.;
    let (c, s) = (t.cos(), t.sin());
    [[C(c, 0.), C(-s, 0.)], [C(s, 0.), C(c, 0.)]]
}
pub fn mul2(a: &M2, b: &M2) -> M2 {
    let mut r = [[C::O; 2]; 2];
    for i in 0..2 {
        for j in 0..2 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j];
        }
    }
    r
}
pub fn dag2(a: &M2) -> M2 {
    [
        [a[0][0].conj(), a[1][0].conj()],
        [a[0][1].conj(), a[1][1].conj()],
    ]
}
pub fn phase2(a: &M2, ht: f64) -> M2 {
    let p = C::cis(ht * PI);
    [[a[0][0] * p, a[0][1] * p], [a[1][0] * p, a[1][1] * p]]
}
pub fn h2() -> M2 {
    let r = std::f64::consts::FRAC_1_SQRT_2;
    [[C(r, 0.), C(r, 0.)], [C(r, 0.), C(-r, 0.)]]
}
pub fn x2() -> M2 {
    [[C::O, C::I], [C::I, C::O]]
}
pub fn y2() -> M2 {
    [[C::O, C(0., -1.)], [C(0., 1.), C::O]]
}
pub fn z2() -> M2 {
    [[C::I, C::O], [C::O, C(-1., 0.)]]
}
pub fn diag(ht: f64) -> M2 {
    [[C::I, C::O], [C::O, C::cis(ht * PI)]]
}
/// V = exp(iπ/4) * Rx(1/2)?  TKET's V is Rx(1/2) exactly (SU(2)).
pub fn v2() -> M2 {
    rx(0.5)
}

/// State over `n` slots; slot k is bit k of the index.
#[derive(Clone, Debug)]
pub struct State {
    pub n: usize,
    pub a: Vec<C>,
}
impl State {
    pub fn new() -> Self {
        State { n: 0, a: vec![C::I] }
    }
    pub fn alloc(&mut self) -> usize {
        self.a.extend(std::iter::repeat(C::O).take(1 << self.n));
        self.n += 1;
        self.n - 1
    }
    pub fn norm2(&self) -> f64 {
        self.a.iter().map(|x| x.n2()).sum()
    }
    pub fn u1(&mut self, q: usize, m: &M2) {
        let b = 1usize << q;
        for i in 0..self.a.len() {
            if i & b == 0 {
                let (x, y) = (self.a[i], self.a[i | b]);
                self.a[i] = m[0][0] * x + m[0][1] * y;
                self.a[i | b] = m[1][0] * x + m[1][1] * y;
            }
        }
    }
    /// Apply `m` on `q` controlled on all `cs`.
    pub fn cu1(&mut self, cs: &[usize], q: usize, m: &M2) {
        let b = 1usize << q;
        let cm: usize = cs.iter().map(|c| 1usize << c).sum();
        for i in 0..self.a.len() {
            if i & b == 0 && i & cm == cm {
                let (x, y) = (self.a[i], self.a[i | b]);
                self.a[i] = m[0][0] * x + m[0][1] * y;
                self.a[i | b] = m[1][0] * x + m[1][1] * y;
            }
        }
    }
    pub fn phase(&mut self, ht: f64) {
        let p = C::cis(ht * PI);
        for x in &mut self.a {
            *x = *x * p;
        }
    }
    pub fn zz(&mut self, q: usize, r: usize, ht: f64) {
        let (p, m) = (C::cis(-ht * PI / 2.), C::cis(ht * PI / 2.));
        for i in 0..self.a.len() {
            let par = ((i >> q) ^ (i >> r)) & 1;
            self.a[i] = self.a[i] * if par == 0 { p } else { m };
        }
    }
    pub fn swap(&mut self, q: usize, r: usize) {
        if q == r {
            return;
        }
        for i in 0..self.a.len() {
            if (i >> q) & 1 == 1 && (i >> r) & 1 == 0 {
                let j = i ^ (1 << q) ^ (1 << r);
                self.a.swap(i, j);
            }
        }
    }
    /// Weight of outcomes 0 and 1.
    pub fn weights(&self, q: usize) -> (f64, f64) {
        let (mut w0, mut w1) = (0., 0.);
        for (i, x) in self.a.iter().enumerate() {
            if (i >> q) & 1 == 0 {
                w0 += x.n2()
            } else {
                w1 += x.n2()
            }
        }
        (w0, w1)
    }
    pub fn project(&mut self, q: usize, v: usize) {
        for (i, x) in self.a.iter_mut().enumerate() {
            if (i >> q) & 1 != v {
                *x = C::O;
            }
        }
    }
    /// Remove slot q, which must be in classical state v. Slots above shift down.
    pub fn remove(&mut self, q: usize, v: usize) {
        let lo = (1usize << q) - 1;
        let mut b = Vec::with_capacity(self.a.len() / 2);
        for j in 0..self.a.len() / 2 {
            let i = ((j & !lo) << 1) | (v << q) | (j & lo);
            b.push(self.a[i]);
        }
        self.a = b;
        self.n -= 1;
    }
    /// Amplitudes with slots permuted: new slot k holds old slot `ord[k]`. ord must be a permutation.
    pub fn permuted(&self, ord: &[usize]) -> Vec<C> {
        assert_eq!(ord.len(), self.n);
        let mut out = vec![C::O; self.a.len()];
        for (i, x) in self.a.iter().enumerate() {
            let mut j = 0;
            for (k, &o) in ord.iter().enumerate() {
                j |= ((i >> o) & 1) << k;
            }
            out[j] = *x;
        }
        out
    }
}
