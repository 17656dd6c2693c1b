//! The reference model: a dense state vector over the qubits that may be in superposition or entangled, and a
//! plain bit for each of the others; every operation written down from its textbook definition. Nothing is
//! deferred, nothing is pruned, no layout tricks.
//! Hidden nondeterminism of the implementation (the unreported measurement inside `release`/`reset`) is
//! modelled by a *set* of candidate states.

use crate::engine::Fnv;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use std::collections::BTreeSet;

pub const TOL: f64 = 1e-8;
/// Outcomes below this probability are treated as impossible, above as possible.
pub const PMIN: f64 = 1e-9;

pub type M2 = [[C; 2]; 2];

pub fn c(re: f64, im: f64) -> C {
    C::new(re, im)
}
const I: C = C::new(0.0, 1.0);
const ONE: C = C::new(1.0, 0.0);
const ZERO: C = C::new(0.0, 0.0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum G {
    X,
    Y,
    Z,
    H,
    S,
    Sadj,
    T,
    Tadj,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    I,
    X,
    Y,
    Z,
}

pub fn gate(g: G) -> M2 {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    match g {
        G::X => [[ZERO, ONE], [ONE, ZERO]],
        G::Y => [[ZERO, -I], [I, ZERO]],
        G::Z => [[ONE, ZERO], [ZERO, -ONE]],
        G::H => [[c(h, 0.0), c(h, 0.0)], [c(h, 0.0), c(-h, 0.0)]],
        G::S => [[ONE, ZERO], [ZERO, I]],
        G::Sadj => [[ONE, ZERO], [ZERO, -I]],
        G::T => [[ONE, ZERO], [ZERO, c(h, h)]],
        G::Tadj => [[ONE, ZERO], [ZERO, c(h, -h)]],
    }
}
/// exp(-i theta P / 2)
pub fn rot(p: P, theta: f64) -> M2 {
    let (s, k) = ((theta / 2.0).sin(), (theta / 2.0).cos());
    match p {
        P::I => [[C::exp(c(0.0, -theta / 2.0)), ZERO], [ZERO, C::exp(c(0.0, -theta / 2.0))]],
        P::X => [[c(k, 0.0), c(0.0, -s)], [c(0.0, -s), c(k, 0.0)]],
        P::Y => [[c(k, 0.0), c(-s, 0.0)], [c(s, 0.0), c(k, 0.0)]],
        P::Z => [[C::exp(c(0.0, -theta / 2.0)), ZERO], [ZERO, C::exp(c(0.0, theta / 2.0))]],
    }
}
pub fn phase(theta: f64) -> M2 {
    [[ONE, ZERO], [ZERO, C::exp(c(0.0, theta))]]
}

#[derive(Clone, Debug)]
pub struct Model {
    pub alloc: BTreeSet<usize>,
    /// Qubits of the dense vectors, lowest bit first.
    pub touched: Vec<usize>,
    /// Those of the other qubits that are in |1>.
    pub ones: BTreeSet<usize>,
    pub cand: Vec<Vec<C>>,
}

impl Default for Model {
    fn default() -> Self {
        Model { alloc: BTreeSet::new(), touched: vec![], ones: BTreeSet::new(), cand: vec![vec![ONE]] }
    }
}

impl Model {
    /// The lowest identifier not in use.
    pub fn lowest_free(&self) -> usize {
        (0..).find(|i| !self.alloc.contains(i)).unwrap()
    }
    pub fn allocate(&mut self) -> usize {
        let id = self.lowest_free();
        self.alloc.insert(id);
        id
    }
    /// The value of a qubit that is not in the dense vectors.
    fn classical(&self, id: usize) -> Option<bool> {
        if self.touched.contains(&id) {
            None
        } else {
            Some(self.ones.contains(&id))
        }
    }
    /// Takes a qubit whose value is `val` in every candidate out of the dense vectors.
    fn settle(&mut self, id: usize, val: bool) {
        let p = self.touched.iter().position(|q| *q == id).unwrap();
        let (low, bit) = ((1usize << p) - 1, usize::from(val) << p);
        for v in &mut self.cand {
            *v = (0..v.len() / 2).map(|b| v[(b & low) | ((b & !low) << 1) | bit]).collect();
        }
        self.touched.remove(p);
        if val {
            self.ones.insert(id);
        }
        self.dedup();
    }
    /// Position of the qubit in the dense vectors (extending them if it was not in there).
    pub fn pos(&mut self, id: usize) -> usize {
        debug_assert!(self.alloc.contains(&id));
        if let Some(p) = self.touched.iter().position(|q| *q == id) {
            return p;
        }
        self.touched.push(id);
        let one = self.ones.remove(&id);
        for v in &mut self.cand {
            let n = v.len();
            v.resize(2 * n, ZERO);
            if one {
                v.rotate_right(n);
            }
        }
        self.touched.len() - 1
    }
    fn mask(&mut self, ids: &[usize]) -> usize {
        ids.iter().fold(0, |m, q| m | 1 << self.pos(*q))
    }
    /// Controls with a definite value either have no influence or prevent the operation.
    fn dense_controls(&self, ctls: &[usize]) -> Option<Vec<usize>> {
        if ctls.iter().any(|k| self.classical(*k) == Some(false)) {
            return None;
        }
        Some(ctls.iter().copied().filter(|k| self.classical(*k).is_none()).collect())
    }
    pub fn one(&mut self, m: &M2, ctls: &[usize], t: usize) {
        let Some(ctls) = self.dense_controls(ctls) else { return };
        if let (true, Some(x)) = (ctls.is_empty(), self.classical(t)) {
            // a definite value remains one under diagonal and antidiagonal operations
            if m[0][1] == ZERO && m[1][0] == ZERO {
                return;
            }
            if m[0][0] == ZERO && m[1][1] == ZERO {
                if x {
                    self.ones.remove(&t);
                } else {
                    self.ones.insert(t);
                }
                return;
            }
        }
        let ctls = &ctls;
        let cm = self.mask(ctls);
        let tb = 1usize << self.pos(t);
        for v in &mut self.cand {
            for b in 0..v.len() {
                if b & tb == 0 && b & cm == cm {
                    let (a0, a1) = (v[b], v[b | tb]);
                    v[b] = m[0][0] * a0 + m[0][1] * a1;
                    v[b | tb] = m[1][0] * a0 + m[1][1] * a1;
                }
            }
        }
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        match (self.classical(a), self.classical(b)) {
            (Some(x), Some(y)) => {
                for (q, v) in [(a, y), (b, x)] {
                    if v {
                        self.ones.insert(q);
                    } else {
                        self.ones.remove(&q);
                    }
                }
                return;
            }
            (Some(x), None) | (None, Some(x)) => {
                let (c, q) = if self.classical(a).is_some() { (a, b) } else { (b, a) };
                self.ones.remove(&c);
                if x {
                    self.ones.insert(q);
                }
                for t in &mut self.touched {
                    if *t == q {
                        *t = c;
                    }
                }
                return;
            }
            (None, None) => {}
        }
        let (x, y) = (1usize << self.pos(a), 1usize << self.pos(b));
        for v in &mut self.cand {
            for k in 0..v.len() {
                if k & x != 0 && k & y == 0 {
                    v.swap(k, k ^ x ^ y);
                }
            }
        }
    }
    /// exp(i theta P1 x P2 x ...), controlled.
    pub fn exp(&mut self, ctls: &[usize], ps: &[P], theta: f64, ts: &[usize]) {
        let Some(ctls) = self.dense_controls(ctls) else { return };
        let cm = self.mask(&ctls);
        // on a qubit of definite value, I does nothing and Z is a sign
        let mut theta = theta;
        let (mut rest, mut ts2) = (vec![], vec![]);
        for (p, t) in ps.iter().zip(ts) {
            match (p, self.classical(*t)) {
                (P::I, Some(_)) | (P::Z, Some(false)) => {}
                (P::Z, Some(true)) => theta = -theta,
                _ => {
                    rest.push(*p);
                    ts2.push(*t);
                }
            }
        }
        let ps = rest;
        let pos: Vec<usize> = ts2.iter().map(|t| self.pos(*t)).collect();
        for v in &mut self.cand {
            // w = P v
            let mut w = vec![ZERO; v.len()];
            for (b, a) in v.iter().enumerate() {
                let (mut k, mut f) = (b, ONE);
                for (p, q) in ps.iter().zip(&pos) {
                    let bit = b >> q & 1;
                    match p {
                        P::I => {}
                        P::X => k ^= 1 << q,
                        P::Y => {
                            k ^= 1 << q;
                            f *= if bit == 0 { I } else { -I };
                        }
                        P::Z => {
                            if bit == 1 {
                                f = -f;
                            }
                        }
                    }
                }
                w[k] += f * a;
            }
            for b in 0..v.len() {
                if b & cm == cm {
                    v[b] = v[b] * theta.cos() + I * theta.sin() * w[b];
                }
            }
        }
    }
    /// Arbitrary unitary: `ts[0]` is the most significant bit of the matrix index; all controls must be 1.
    pub fn unitary(&mut self, u: &[Vec<C>], ctls: &[usize], ts: &[usize]) {
        let Some(ctls) = self.dense_controls(ctls) else { return };
        let cm = self.mask(&ctls);
        let pos: Vec<usize> = ts.iter().map(|t| self.pos(*t)).collect();
        let k = ts.len();
        let place = |b: usize, m: usize| -> usize {
            let mut b = b;
            for (j, p) in pos.iter().enumerate() {
                b = (b & !(1 << p)) | ((m >> (k - 1 - j) & 1) << p);
            }
            b
        };
        let index = |b: usize| -> usize {
            pos.iter().enumerate().fold(0, |m, (j, p)| m | ((b >> p & 1) << (k - 1 - j)))
        };
        for v in &mut self.cand {
            let old = v.clone();
            for b in 0..v.len() {
                if b & cm == cm {
                    let row = index(b);
                    v[b] = (0..1 << k).map(|m| u[row][m] * old[place(b, m)]).sum();
                }
            }
        }
    }
    fn prob_mask(v: &[C], m: usize) -> f64 {
        v.iter().enumerate().filter(|(b, _)| (b & m).count_ones() & 1 == 1).map(|(_, a)| a.norm_sqr()).sum()
    }
    /// Probability of odd parity on `ids`, per candidate.
    pub fn prob(&mut self, ids: &[usize]) -> Vec<f64> {
        let (m, odd) = self.parity(ids);
        self.cand.iter().map(|v| Self::prob_mask(v, m)).map(|p| if odd { 1.0 - p } else { p }).collect()
    }
    /// The dense qubits among `ids`, and whether the others have odd parity. (A qubit named twice counts once.)
    fn parity(&mut self, ids: &[usize]) -> (usize, bool) {
        let set: BTreeSet<usize> = ids.iter().copied().collect();
        let dense: Vec<usize> = set.iter().copied().filter(|q| self.classical(*q).is_none()).collect();
        (self.mask(&dense), set.intersection(&self.ones).count() % 2 == 1)
    }
    fn project(v: &[C], m: usize, val: bool) -> Vec<C> {
        // normalised by what is kept, so that rounding errors do not grow from one measurement to the next
        let kept: f64 = v.iter().enumerate().filter(|(b, _)| ((b & m).count_ones() & 1 == 1) == val).map(|(_, a)| a.norm_sqr()).sum();
        let s = 1.0 / kept.sqrt();
        v.iter()
            .enumerate()
            .map(|(b, a)| if ((b & m).count_ones() & 1 == 1) == val { a * s } else { ZERO })
            .collect()
    }
    /// A reported parity outcome. Err if no candidate state allows it.
    pub fn observe(&mut self, ids: &[usize], val: bool) -> Result<(), String> {
        let (m, odd) = self.parity(ids);
        let mut out = vec![];
        let want = val != odd;
        for v in &self.cand {
            let p1 = Self::prob_mask(v, m);
            let p = if want { p1 } else { 1.0 - p1 };
            if p > PMIN {
                out.push(Self::project(v, m, want));
            }
        }
        if out.is_empty() {
            return Err(format!("outcome {val} for {ids:?} was reported but has probability zero"));
        }
        self.cand = out;
        self.dedup();
        if m.is_power_of_two() {
            self.settle(self.touched[m.trailing_zeros() as usize], want);
        }
        Ok(())
    }
    /// A hidden measurement of one qubit followed by clearing it to |0> (release, reset).
    pub fn reset_hidden(&mut self, id: usize) {
        if self.classical(id).is_some() {
            self.ones.remove(&id);
            return;
        }
        let p = self.pos(id);
        let m = 1usize << p;
        let mut out = vec![];
        for v in &self.cand {
            let p1 = Self::prob_mask(v, m);
            if p1 > PMIN {
                let w = Self::project(v, m, true);
                let mut z = vec![ZERO; w.len()];
                for (b, a) in w.iter().enumerate() {
                    if b & m != 0 {
                        z[b ^ m] = *a;
                    }
                }
                out.push(z);
            }
            if 1.0 - p1 > PMIN {
                out.push(Self::project(v, m, false));
            }
        }
        self.cand = out;
        self.dedup();
        self.settle(id, false);
    }
    pub fn release(&mut self, id: usize) {
        if self.alloc.len() == 1 {
            *self = Model::default();
            return;
        }
        self.reset_hidden(id);
        self.alloc.remove(&id);
    }
    fn canon(v: &[C]) -> u64 {
        // largest amplitude (first among near-equals) made real positive
        let mut big = 0;
        for (b, a) in v.iter().enumerate() {
            if a.norm_sqr() > v[big].norm_sqr() + 1e-6 {
                big = b;
            }
        }
        let ph = if v[big].norm() > 0.0 { v[big].conj() / v[big].norm() } else { ONE };
        let mut h = Fnv::new();
        for a in v {
            let z = a * ph;
            h.u64((z.re * 65536.0).round() as i64 as u64);
            h.u64((z.im * 65536.0).round() as i64 as u64);
        }
        h.0
    }
    fn dedup(&mut self) {
        if self.cand.len() > 1 {
            let mut seen = std::collections::HashSet::new();
            self.cand.retain(|v| seen.insert(Self::canon(v)));
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = Fnv::new();
        for a in &self.alloc {
            h.u64(*a as u64);
        }
        h.u64(u64::MAX);
        for t in &self.touched {
            h.u64(*t as u64);
        }
        h.u64(u64::MAX);
        for t in &self.ones {
            h.u64(*t as u64);
        }
        for v in &self.cand {
            h.u64(Self::canon(v));
        }
        h.0
    }

    /// Compares a snapshot of the implementation with the model, and keeps the candidates that match.
    /// Also checks that the snapshot itself is well formed.
    pub fn compare(&mut self, snap: &[(BigUint, C)], n: usize) -> Result<(), String> {
        let got = self.densify(snap, n)?;
        let mut keep = vec![];
        let mut first: Option<String> = None;
        for (k, v) in self.cand.iter().enumerate() {
            match same_state(v, &got) {
                Ok(()) => keep.push(k),
                Err(e) => first = first.or(Some(e)),
            }
        }
        if keep.is_empty() {
            return Err(format!(
                "state differs from the reference (qubits {:?}): {}; expected {} got {}",
                self.touched,
                first.unwrap_or_default(),
                show(&self.cand[0]),
                show(&got)
            ));
        }
        let mut k = 0;
        self.cand.retain(|_| {
            k += 1;
            keep.contains(&(k - 1))
        });
        // zero-amplitude entries must not be listed
        for (i, a) in snap {
            if a.re.abs() <= 1e-13 && a.im.abs() <= 1e-13 {
                return Err(format!("snapshot lists basis state {i} with amplitude {a}"));
            }
        }
        Ok(())
    }

    fn densify(&self, snap: &[(BigUint, C)], n: usize) -> Result<Vec<C>, String> {
        if n != self.alloc.len() {
            return Err(format!("snapshot reports {n} qubits, {} are allocated", self.alloc.len()));
        }
        let ids: Vec<usize> = self.alloc.iter().copied().collect();
        let rank: Vec<u64> =
            self.touched.iter().map(|t| ids.iter().position(|i| i == t).unwrap() as u64).collect();
        let mut got = vec![ZERO; 1 << self.touched.len()];
        let mut norm = 0.0;
        // what the basis states look like outside the dense qubits
        let mut plain = BigUint::default();
        for q in &self.ones {
            plain.set_bit(ids.iter().position(|i| i == q).unwrap() as u64, true);
        }
        for (k, (i, a)) in snap.iter().enumerate() {
            if k > 0 && snap[k - 1].0 >= *i {
                return Err(format!("snapshot not strictly ascending at entry {k} (basis state {i})"));
            }
            if !a.re.is_finite() || !a.im.is_finite() {
                return Err(format!("amplitude of {i} is {a}"));
            }
            let mut b = 0usize;
            let mut rest = i.clone();
            for (p, r) in rank.iter().enumerate() {
                if i.bit(*r) {
                    b |= 1 << p;
                    rest.set_bit(*r, false);
                }
            }
            norm += a.norm_sqr();
            if rest != plain {
                if a.norm() > TOL {
                    return Err(format!(
                        "basis state {i} (amplitude {a}) differs in a qubit that has a definite value or sets a bit that does not exist; dense {:?}, ones {:?}, of {ids:?}",
                        self.touched, self.ones
                    ));
                }
                continue;
            }
            got[b] = *a;
        }
        if (norm - 1.0).abs() > TOL {
            return Err(format!("total probability is {norm}"));
        }
        Ok(got)
    }

    /// A model whose single candidate is the given snapshot (used by differential checks).
    #[allow(dead_code)]
    pub fn adopt(&mut self, snap: &[(BigUint, C)], n: usize) -> Result<(), String> {
        let got = self.densify(snap, n)?;
        self.cand = vec![got];
        Ok(())
    }
}

/// Equality up to one global phase.
pub fn same_state(want: &[C], got: &[C]) -> Result<(), String> {
    let mut big = 0;
    for (b, a) in want.iter().enumerate() {
        if a.norm_sqr() > want[big].norm_sqr() {
            big = b;
        }
    }
    let ph = if got[big].norm() > 1e-6 { got[big] / want[big] } else { ONE };
    let ph = ph / ph.norm();
    for b in 0..want.len() {
        let d = got[b] - want[b] * ph;
        if !(d.norm() <= TOL) {
            return Err(format!("amplitude {b:b}: expected {} got {} (up to one global phase)", want[b] * ph, got[b]));
        }
    }
    Ok(())
}

pub fn show(v: &[C]) -> String {
    let mut s = String::from("[");
    for (b, a) in v.iter().enumerate() {
        if a.norm() > 1e-9 {
            s += &format!(" |{b:b}>: {:.6}{:+.6}i", a.re, a.im);
        }
    }
    s + " ]"
}
