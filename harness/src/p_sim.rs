//! Properties of the simulator crate (quantum-sparse-sim), decided by exhaustive lock-step exploration.

use crate::engine::{guarded, job, Job, Res, Tier};
use crate::ops::{gate_model, gate_real, Mat, Op, Pair, R};
use crate::refmodel::{c, G, P};
use num_complex::Complex64 as C;
use quantum_sparse_sim::QuantumSim;
use std::f64::consts::PI;
use std::rc::Rc;

pub const GS: [G; 8] = [G::X, G::Y, G::Z, G::H, G::S, G::Sadj, G::T, G::Tadj];

pub type Choice = Vec<Op>;
pub type Stage = Rc<Vec<Choice>>;

#[derive(Clone)]
pub struct Scn {
    pub name: String,
    pub ids: Vec<usize>,
    pub prep: Vec<Op>,
}

fn each(ops: Vec<Op>) -> Stage {
    Rc::new(ops.into_iter().map(|o| vec![o]).collect())
}

/// Product of stages, run in lock step from the scenario's initial state; one case per element.
pub fn stages(name: &str, s: &Scn, st: Vec<Stage>) -> Job {
    let n: u64 = st.iter().map(|x| x.len() as u64).product();
    let s = s.clone();
    job(format!("{name}/{}", s.name), n, move |i, ctx| {
        let mut ops: Vec<&Op> = vec![];
        let mut p = Pair::new();
        for o in &s.prep {
            p.step(o, ctx)?;
        }
        let mut i = i;
        for x in st.iter().rev() {
            let k = (i % x.len() as u64) as usize;
            i /= x.len() as u64;
            for o in x[k].iter().rev() {
                ops.push(o);
            }
        }
        ops.reverse();
        p.run(&ops, ctx)
    })
}

// ------------------------------------------------------------------ scenarios

fn entangle(ids: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for (k, q) in ids.iter().enumerate() {
        let k = k as f64;
        v.push(Op::Rot(P::Y, 0.7 + 0.41 * k, *q));
        v.push(Op::Rot(P::Z, 0.3 + 0.53 * k, *q));
    }
    for w in ids.windows(2) {
        v.push(Op::MC(G::X, vec![w[0]], w[1]));
        v.push(Op::MCRot(P::Y, 0.9, vec![w[1]], w[0]));
    }
    v
}
fn allocs(n: usize) -> Vec<Op> {
    vec![Op::Alloc; n]
}
pub fn zero(n: usize) -> Scn {
    Scn { name: format!("zero{n}"), ids: (0..n).collect(), prep: allocs(n) }
}
pub fn generic(n: usize) -> Scn {
    let ids: Vec<usize> = (0..n).collect();
    let mut prep = allocs(n);
    prep.extend(entangle(&ids));
    prep.push(Op::Snap);
    Scn { name: format!("generic{n}"), ids, prep }
}
pub fn ghz(n: usize) -> Scn {
    let ids: Vec<usize> = (0..n).collect();
    let mut prep = allocs(n);
    prep.push(Op::G1(G::H, 0));
    for k in 1..n {
        prep.push(Op::MC(G::X, vec![k - 1], k));
    }
    prep.push(Op::Snap);
    Scn { name: format!("ghz{n}"), ids, prep }
}
/// Identifiers permuted relative to internal locations.
pub fn swapped(n: usize) -> Scn {
    let ids: Vec<usize> = (0..n).collect();
    let mut prep = allocs(n);
    prep.extend(entangle(&ids));
    for k in 0..n - 1 {
        prep.push(Op::Swap(k, k + 1));
    }
    prep.push(Op::Prob(ids.clone()));
    Scn { name: format!("swapped{n}"), ids, prep }
}
/// Identifiers (and internal locations) with holes left by releases, out of order.
pub fn holes(n: usize) -> Scn {
    let mut prep = allocs(n + 2);
    let all: Vec<usize> = (0..n + 2).collect();
    let gone = [0usize, 2];
    for q in gone {
        prep.push(Op::G1(G::X, q));
    }
    for q in gone {
        prep.push(Op::Release(q, R::Lo));
    }
    let ids: Vec<usize> = all.into_iter().filter(|q| !gone.contains(q)).collect();
    prep.extend(entangle(&ids));
    prep.push(Op::Prob(ids.clone()));
    Scn { name: format!("holes{n}"), ids, prep }
}
/// Identifiers re-used after releases so that identifier and location orders differ.
pub fn reused(n: usize) -> Scn {
    let mut prep = allocs(n);
    if n > 1 {
        prep.push(Op::Swap(0, n - 1));
        prep.push(Op::Release(n - 1, R::Lo));
        prep.push(Op::Alloc);
    }
    let ids: Vec<usize> = (0..n).collect();
    prep.extend(entangle(&ids));
    prep.push(Op::Prob(ids.clone()));
    Scn { name: format!("reused{n}"), ids, prep }
}
/// Many qubits: identifiers beyond 64 and 128.
pub fn wide(n: usize) -> Scn {
    let ids = match n {
        1 => vec![130],
        2 => vec![63, 64],
        3 => vec![0, 64, 130],
        _ => vec![31, 63, 64, 130],
    };
    Scn { name: format!("wide{n}"), ids, prep: allocs(131) }
}
/// Deferred-operation queue just below its limit.
pub fn padded(n: usize, at: usize) -> Scn {
    let mut prep = allocs(n);
    prep.push(Op::Pad(0, at));
    Scn { name: format!("padded{n}@{at}"), ids: (0..n).collect(), prep }
}

// ------------------------------------------------------------------ alphabets

pub fn singles(q: usize, angles: &[f64]) -> Vec<Op> {
    let mut v: Vec<Op> = GS.iter().map(|g| Op::G1(*g, q)).collect();
    for a in angles {
        for p in [P::X, P::Y, P::Z] {
            v.push(Op::Rot(p, *a, q));
        }
    }
    v
}
/// Controlled gates with the given controls and target.
pub fn ctl(k: &[usize], t: usize, angles: &[f64]) -> Vec<Op> {
    let mut v: Vec<Op> = GS.iter().map(|g| Op::MC(*g, k.to_vec(), t)).collect();
    for a in angles {
        for p in [P::X, P::Y, P::Z] {
            v.push(Op::MCRot(p, *a, k.to_vec(), t));
        }
    }
    v.push(Op::Phase(0.8, k.to_vec(), t));
    v
}
/// Every gate on every ordered choice of distinct qubits among `ids` (up to `ids.len()-1` controls).
pub fn gates(ids: &[usize], angles: &[f64]) -> Vec<Op> {
    let mut v = vec![];
    for &q in ids {
        v.extend(singles(q, angles));
        v.push(Op::Phase(0.8, vec![], q));
        let rest: Vec<usize> = ids.iter().copied().filter(|x| *x != q).collect();
        for m in 1..1usize << rest.len() {
            let k: Vec<usize> = (0..rest.len()).filter(|b| m >> b & 1 == 1).map(|b| rest[b]).collect();
            v.extend(ctl(&k, q, angles));
            if k.len() > 1 {
                // the order of controls is immaterial: exercise the reversed list as well
                let r: Vec<usize> = k.iter().rev().copied().collect();
                v.push(Op::MC(G::X, r.clone(), q));
                v.push(Op::MC(G::Y, r.clone(), q));
                v.push(Op::MC(G::Z, r, q));
            }
        }
    }
    for (i, &a) in ids.iter().enumerate() {
        for &b in &ids[i + 1..] {
            v.push(Op::Swap(a, b));
        }
    }
    v
}
/// Combinations of operations the simulator defers on one qubit.
pub fn deferred(q: usize) -> Stage {
    let h = || Op::G1(G::H, q);
    let rx = |a: f64| Op::Rot(P::X, a, q);
    let ry = |a: f64| Op::Rot(P::Y, a, q);
    Rc::new(vec![
        vec![],
        vec![h()],
        vec![rx(0.6)],
        vec![ry(0.6)],
        vec![h(), rx(0.6)],
        vec![h(), ry(0.6)],
        vec![rx(0.6), ry(0.9)],
        vec![h(), rx(0.6), ry(0.9)],
        vec![rx(PI)],
        vec![ry(PI)],
        vec![rx(PI), ry(0.9)],
        vec![h(), ry(PI)],
        vec![Op::G1(G::X, q)],
        vec![h(), Op::G1(G::S, q)],
    ])
}
fn deferred_few(q: usize) -> Stage {
    let d = deferred(q);
    Rc::new([0usize, 1, 2, 3, 5, 7].iter().map(|k| d[*k].clone()).collect())
}

// ------------------------------------------------------------------ larger operand lists

/// The list itself, its reversal and all rotations.
fn orders(l: &[usize]) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..l.len().max(1))
        .map(|k| l.iter().cycle().skip(k).take(l.len()).copied().collect())
        .collect();
    v.push(l.iter().rev().copied().collect());
    v.dedup();
    v
}
/// Every subset of the qubits carrying pending work, of each kind.
fn pending(ids: &[usize], kinds: usize) -> Stage {
    let mut v: Vec<Choice> = vec![vec![]];
    for m in subsets(ids).into_iter().filter(|m| !m.is_empty()) {
        for k in 0..kinds {
            v.push(
                m.iter()
                    .enumerate()
                    .flat_map(|(j, q)| match if k == 3 { j % 3 } else { k } {
                        0 => vec![Op::G1(G::H, *q)],
                        1 => vec![Op::Rot(P::Y, 0.6, *q)],
                        _ => vec![Op::Rot(P::X, 0.6, *q)],
                    })
                    .collect(),
            );
        }
    }
    Rc::new(v)
}
/// Pending work on one qubit, on all of them, or on none.
fn pending_few(ids: &[usize]) -> Stage {
    let mut v: Vec<Choice> = vec![vec![]];
    for k in 0..3 {
        let g = |q: &usize| match k {
            0 => Op::G1(G::H, *q),
            1 => Op::Rot(P::Y, 0.6, *q),
            _ => Op::Rot(P::X, 0.6, *q),
        };
        v.push(ids.iter().map(g).collect());
        v.push(ids[1..].iter().map(g).collect());
        v.push(ids[..ids.len() - 1].iter().map(g).collect());
        v.extend(ids.iter().map(|q| vec![g(q)]));
    }
    Rc::new(v)
}
fn big(t: Tier, lo: usize) -> Vec<Scn> {
    let mut v = vec![];
    for n in lo..=t.pick(6, 7) {
        v.extend([generic(n), swapped(n), holes(n), zero(n)]);
    }
    v
}

pub const A2: [f64; 2] = [0.6, PI];
pub const SPECIAL: [f64; 13] = [
    0.0,
    PI / 2.0,
    -PI / 2.0,
    PI,
    -PI,
    2.0 * PI,
    -2.0 * PI,
    3.0 * PI,
    4.0 * PI,
    0.6,
    -0.6,
    1e-3,
    1e-6,
];

// ------------------------------------------------------------------ C01: unitary semantics

pub fn c01(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let one = each(gates(&[0], &[0.6, PI, PI / 2.0]));
    let two = each(gates(&[0, 1], &A2));
    // every sequence over the full one-qubit gate set
    for d in 1..=t.pick(4, 5) {
        for s in [zero(1), generic(1)] {
            v.push(stages(&format!("1q-seq{d}"), &s, vec![one.clone(); d]));
        }
    }
    // every sequence over the full two-qubit gate set
    for d in 1..=3 {
        for s in [zero(2), generic(2)] {
            v.push(stages(&format!("2q-seq{d}"), &s, vec![two.clone(); d]));
        }
    }
    for s in [generic(2), swapped(2), holes(2), reused(2), ghz(2)] {
        let two = each(gates(&s.ids, &A2));
        v.push(stages("2q-seq2", &s, vec![two.clone(); 2]));
    }
    // every combination of deferred operations, then every gate (then a second gate)
    for s in [generic(2), zero(2), swapped(2), holes(2)] {
        let g = each(gates(&s.ids, &A2));
        let (a, b) = (deferred(s.ids[0]), deferred(s.ids[1]));
        v.push(stages("2q-deferred-gate-gate", &s, vec![a, b, g.clone(), g]));
    }
    for s in [generic(3), zero(3), swapped(3), holes(3), ghz(3)] {
        let g = each(gates(&s.ids, &A2));
        let d: Vec<Stage> = s.ids.iter().map(|q| deferred(*q)).collect();
        if t == Tier::Thorough || s.name == "generic3" {
            v.push(stages("3q-deferred-gate", &s, [d, vec![g.clone()]].concat()));
        }
        let few: Vec<Stage> = s.ids.iter().map(|q| deferred_few(*q)).collect();
        v.push(stages("3q-few-gate", &s, [few.clone(), vec![g.clone()]].concat()));
        v.push(stages("3q-seq2", &s, vec![g.clone(); 2]));
        if t == Tier::Thorough {
            v.push(stages("3q-few-gate-gate", &s, [few, vec![g.clone(), g]].concat()));
        }
    }
    // gate, deferred operations on both qubits, gate: interaction of the phase queue with later flushes
    for s in [generic(2)] {
        let g = each(gates(&s.ids, &[0.6]));
        let (a, b) = (deferred(0), deferred(1));
        v.push(stages("2q-gate-deferred-gate", &s, vec![g.clone(), a, b, g]));
    }
    // three controls
    {
        let s = generic(4);
        let d: Vec<Stage> = s.ids.iter().map(|q| deferred_few(*q)).collect();
        let mut g = vec![];
        for tq in 0..4 {
            let k: Vec<usize> = (0..4).filter(|x| *x != tq).collect();
            g.extend(ctl(&k, tq, &A2));
        }
        v.push(stages("4q-few-3controls", &s, [d, vec![each(g)]].concat()));
    }
    // four qubits: every pair of gates, with every ordered list of controls
    for s in if t == Tier::Thorough { vec![generic(4), swapped(4), holes(4)] } else { vec![generic(4)] } {
        let mut g = vec![];
        for &q in &s.ids {
            g.extend(singles(q, &[0.6]));
            for k in lists(&without(&s.ids, &[q])).into_iter().filter(|k| !k.is_empty()) {
                g.extend(ctl(&k, q, &[0.6]));
            }
        }
        let g = each(g);
        v.push(stages("4q-seq2", &s, vec![g.clone(), g]));
        // the same with work pending on any subset of the qubits, up to one control
        let kinds = [G::X, G::Y, G::Z, G::S, G::H];
        let mut g: Vec<Op> = vec![];
        for &q in &s.ids {
            g.extend(kinds.iter().map(|k| Op::G1(*k, q)));
            for c in without(&s.ids, &[q]) {
                g.extend(kinds.iter().map(|k| Op::MC(*k, vec![c], q)));
                g.push(Op::MCRot(P::Z, 0.6, vec![c], q));
            }
        }
        let g = each(g);
        v.push(stages("4q-pending-seq2", &s, vec![pending(&s.ids, t.pick(2, 4)), g.clone(), g]));
    }
    // special angles
    for s in [generic(1), zero(1)] {
        let a = each(gates(&[0], &SPECIAL));
        v.push(stages("1q-special-angles", &s, vec![a.clone(), a.clone()]));
        if t == Tier::Thorough {
            v.push(stages("1q-special-angles3", &s, vec![a.clone(), a.clone(), a]));
        }
    }
    for s in [generic(2), ghz(2)] {
        let a = each(gates(&[0, 1], &SPECIAL));
        v.push(stages("2q-special-angles", &s, vec![deferred_few(0), deferred_few(1), a.clone()]));
        v.push(stages("2q-special-angles2", &s, vec![a.clone(), a]));
    }
    // identifiers beyond 64 bits
    for n in [2, 3] {
        let s = wide(n);
        let g = each(gates(&s.ids, &[0.6]));
        let d: Vec<Stage> = s.ids.iter().map(|q| deferred_few(*q)).collect();
        v.push(stages("wide-deferred-gate", &s, [d, vec![g]].concat()));
    }
    // the deferred-operation queue reaches its limit inside the sequence
    for at in t.pick(vec![9_998, 9_999, 10_000], vec![9_996, 9_997, 9_998, 9_999, 10_000]) {
        let s = padded(2, at);
        let g = each(gates(&s.ids, &[0.6]));
        v.push(stages("queue-limit", &s, vec![deferred_few(1), g.clone()]));
        if t == Tier::Thorough {
            v.push(stages("queue-limit2", &s, vec![g.clone(), g]));
        }
    }
    // the same on a state in which phases show
    for at in t.pick(vec![9_999, 10_000], vec![9_998, 9_999, 10_000, 10_001, 19_999, 20_000]) {
        let mut s = generic(2);
        s.name = format!("generic2+pad{at}");
        s.prep.push(Op::Pad(0, at));
        let g = each(gates(&s.ids, &[0.6]).into_iter().chain([Op::Exp(vec![P::Z, P::X], 0.6, vec![0, 1]), Op::Exp(vec![P::Z, P::Z], 0.6, vec![0, 1])]).collect());
        v.push(stages("queue-limit-phases", &s, vec![deferred_few(1), g.clone()]));
        v.push(stages("queue-limit-phases2", &s, vec![g.clone(), each(mixers(&s.ids))]));
    }
    if t == Tier::Thorough {
        for s in [zero(2), generic(2)] {
            v.push(stages("2q-seq4", &s, vec![two.clone(); 4]));
        }
        for s in [zero(3), generic(3)] {
            let g = each(gates(&s.ids, &[0.6]));
            v.push(stages("3q-seq3", &s, vec![g.clone(); 3]));
        }
    }
    // many controls, pending work on any subset of the qubits
    for s in big(t, 4) {
        let n = s.ids.len();
        let mut g = vec![];
        for k in 3..n {
            for l in orders(&s.ids) {
                g.extend(ctl(&l[..k], l[k], &[0.6]));
            }
        }
        let g = each(g);
        if n < 6 || t == Tier::Thorough {
            v.push(stages("many-controls", &s, vec![pending(&s.ids, 4), g.clone()]));
        }
        v.push(stages("many-controls-few", &s, vec![pending_few(&s.ids), g]));
    }
    v
}


// ------------------------------------------------------------------ helpers

/// All ordered selections of `k` distinct elements.
pub fn arrangements(ids: &[usize], k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for (i, &x) in ids.iter().enumerate() {
        let rest: Vec<usize> = ids.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, y)| *y).collect();
        for mut r in arrangements(&rest, k - 1) {
            r.insert(0, x);
            v.push(r);
        }
    }
    v
}
pub fn pauli_strings(n: usize) -> Vec<Vec<P>> {
    let ps = [P::I, P::X, P::Y, P::Z];
    (0..4usize.pow(n as u32)).map(|k| (0..n).map(|j| ps[k >> (2 * j) & 3]).collect()).collect()
}
fn without(ids: &[usize], used: &[usize]) -> Vec<usize> {
    ids.iter().copied().filter(|q| !used.contains(q)).collect()
}
fn subsets(ids: &[usize]) -> Vec<Vec<usize>> {
    (0..1usize << ids.len())
        .map(|m| (0..ids.len()).filter(|b| m >> b & 1 == 1).map(|b| ids[b]).collect())
        .collect()
}
/// All ordered lists of distinct qubits (including the empty one).
fn lists(ids: &[usize]) -> Vec<Vec<usize>> {
    (0..=ids.len()).flat_map(|k| arrangements(ids, k)).collect()
}
fn few(s: &Scn) -> Vec<Stage> {
    s.ids.iter().map(|q| deferred_few(*q)).collect()
}
fn full(s: &Scn) -> Vec<Stage> {
    s.ids.iter().map(|q| deferred(*q)).collect()
}
/// The model's hidden branching and several operations need fewer gates: a mixing subset.
fn mixers(ids: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for &q in ids {
        v.push(Op::G1(G::H, q));
        v.push(Op::G1(G::X, q));
        v.push(Op::G1(G::Z, q));
        v.push(Op::Rot(P::X, 0.6, q));
        v.push(Op::Rot(P::Y, 0.6, q));
    }
    for p in arrangements(ids, 2) {
        v.push(Op::MC(G::X, vec![p[0]], p[1]));
        v.push(Op::MC(G::H, vec![p[0]], p[1]));
    }
    v
}

// ------------------------------------------------------------------ C02: Pauli exponentials

pub fn c02(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let angles: Vec<f64> = SPECIAL.iter().copied().chain([PI / 4.0, 1.1]).collect();
    let exps = |ids: &[usize], nt: usize, nc: usize, angles: &[f64], all_orders: bool| -> Stage {
        let mut o = vec![];
        for ts in arrangements(ids, nt) {
            for ks in arrangements(&without(ids, &ts), nc) {
                if !all_orders && (ts.windows(2).any(|w| w[0] > w[1]) || ks.windows(2).any(|w| w[0] > w[1])) {
                    continue;
                }
                for ps in pauli_strings(nt) {
                    for a in angles {
                        o.push(if nc == 0 {
                            Op::Exp(ps.clone(), *a, ts.clone())
                        } else {
                            Op::MCExp(ks.clone(), ps.clone(), *a, ts.clone())
                        });
                    }
                }
            }
        }
        each(o)
    };
    // every Pauli string, target order, control set and angle
    for s in [zero(3), generic(3), ghz(3), swapped(3), holes(3), reused(3)] {
        for (nt, nc) in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)] {
            v.push(stages(&format!("exp-{nt}t{nc}c"), &s, vec![exps(&s.ids, nt, nc, &angles, true)]));
        }
        for (nt, nc) in [(1, 0), (1, 1), (2, 0), (2, 1)] {
            let e = exps(&s.ids, nt, nc, t.pick(&[0.6][..], &[0.6, PI / 2.0][..]), true);
            v.push(stages(&format!("deferred-exp-{nt}t{nc}c"), &s, [few(&s), vec![e]].concat()));
        }
    }
    for s in [zero(2), generic(2), ghz(2)] {
        for (nt, nc) in [(1, 0), (2, 0), (1, 1)] {
            let e = exps(&s.ids, nt, nc, &[0.6, PI / 2.0, PI], true);
            v.push(stages(&format!("full-deferred-exp-{nt}t{nc}c"), &s, [full(&s), vec![e]].concat()));
        }
    }
    // pairs of exponentials (superposed and cancelling partners), and exponential between gates
    for s in [zero(2), generic(2)] {
        let e: Stage = Rc::new(
            [exps(&s.ids, 2, 0, &[0.6, -0.6, PI / 4.0, PI / 2.0, PI], true), exps(&s.ids, 1, 1, &[0.6, -0.6, PI / 2.0], true), exps(&s.ids, 1, 0, &[0.6, PI / 2.0], true)]
                .iter()
                .flat_map(|x| x.iter().cloned())
                .collect(),
        );
        v.push(stages("exp-exp", &s, vec![e.clone(), e.clone()]));
        let g = each(gates(&s.ids, &[0.6]));
        v.push(stages("gate-exp-gate", &s, vec![g.clone(), e.clone(), g]));
        if t == Tier::Thorough {
            v.push(stages("exp-exp-exp", &s, vec![e.clone(), e.clone(), e]));
        }
    }
    for s in [generic(4), zero(4)] {
        for (nt, nc) in [(4, 0), (3, 1), (2, 2), (1, 3)] {
            v.push(stages(&format!("exp4-{nt}t{nc}c"), &s, vec![exps(&s.ids, nt, nc, t.pick(&[0.6][..], &angles), t == Tier::Thorough || nt < 3)]));
        }
    }
    for n in [2, 3] {
        let s = wide(n);
        for (nt, nc) in [(1, 1), (2, 0), (2, 1)] {
            if nt + nc <= n {
                let e = exps(&s.ids, nt, nc, &[0.6, PI / 2.0], true);
                v.push(stages(&format!("wide-exp-{nt}t{nc}c"), &s, vec![deferred_few(s.ids[0]), e]));
            }
        }
    }
    // long operand lists
    for s in big(t, 5) {
        let n = s.ids.len();
        let mut o = vec![];
        for ps in pauli_strings(n) {
            o.push(Op::Exp(ps.clone(), 0.6, s.ids.clone()));
            o.push(Op::Exp(ps, PI / 2.0, s.ids.iter().rev().copied().collect()));
        }
        for k in 1..n {
            for ps in pauli_strings(n - k) {
                o.push(Op::MCExp(s.ids[..k].to_vec(), ps.clone(), 0.6, s.ids[k..].to_vec()));
            }
        }
        if n < 7 {
            v.push(stages("long-exp", &s, vec![each(o)]));
        }
        let mut o = vec![];
        for (j, ts) in orders(&s.ids).into_iter().enumerate() {
            for f in [[P::X; 4], [P::Y; 4], [P::Z; 4], [P::Y, P::X, P::Z, P::I], [P::Z, P::I, P::Y, P::X], [P::Y, P::Y, P::X, P::Z], [P::Z, P::Z, P::I, P::I]] {
                for k in 0..n {
                    let ps: Vec<P> = (0..n - k).map(|i| f[(i + j) % 4]).collect();
                    o.push(if k == 0 {
                        Op::Exp(ps, 0.6, ts.clone())
                    } else {
                        Op::MCExp(ts[..k].to_vec(), ps, 0.6, ts[k..].to_vec())
                    });
                }
            }
        }
        v.push(stages("long-exp-few", &s, vec![pending_few(&s.ids), each(o)]));
    }
    v
}

// ------------------------------------------------------------------ C03: arbitrary unitaries

fn mm(a: &[Vec<C>], b: &[Vec<C>]) -> Vec<Vec<C>> {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
fn kron(a: &[Vec<C>], b: &[Vec<C>]) -> Vec<Vec<C>> {
    let (n, m) = (a.len(), b.len());
    (0..n * m).map(|i| (0..n * m).map(|j| a[i / m][j / m] * b[i % m][j % m]).collect()).collect()
}
fn vm(m: crate::refmodel::M2) -> Vec<Vec<C>> {
    m.iter().map(|r| r.to_vec()).collect()
}
/// |j> -> phase_j |j+1 mod n>
fn cyclic(n: usize) -> Vec<Vec<C>> {
    let mut u = vec![vec![c(0.0, 0.0); n]; n];
    for j in 0..n {
        u[(j + 1) % n][j] = C::exp(c(0.0, 0.37 * j as f64));
    }
    u
}
pub fn matrices(k: usize) -> Vec<Rc<Mat>> {
    use crate::refmodel::{gate, rot};
    let gen1 = mm(&mm(&vm(rot(P::Z, 0.4)), &vm(rot(P::Y, 1.3))), &vm(rot(P::X, 0.7)));
    let gen1b = mm(&mm(&vm(rot(P::X, 1.9)), &vm(rot(P::Y, 0.3))), &vm(rot(P::Z, 2.7)));
    let cx = vec![
        vec![c(1., 0.), c(0., 0.), c(0., 0.), c(0., 0.)],
        vec![c(0., 0.), c(1., 0.), c(0., 0.), c(0., 0.)],
        vec![c(0., 0.), c(0., 0.), c(0., 0.), c(1., 0.)],
        vec![c(0., 0.), c(0., 0.), c(1., 0.), c(0., 0.)],
    ];
    let gen2 = mm(&kron(&gen1, &gen1b), &mm(&cx, &kron(&gen1b, &vm(gate(G::H)))));
    let m = match k {
        0 => vec![Mat("phase", vec![vec![C::exp(c(0.0, 0.9))]])],
        1 => vec![
            Mat("gen1", gen1),
            Mat("cyclic2", cyclic(2)),
            Mat("H", vm(gate(G::H))),
            Mat("S", vm(gate(G::S))),
        ],
        2 => vec![Mat("gen2", gen2), Mat("cyclic4", cyclic(4)), Mat("cnot", cx)],
        3 => vec![
            Mat("gen3", mm(&kron(&gen2, &gen1), &mm(&cyclic(8), &kron(&gen1b, &gen2)))),
            Mat("cyclic8", cyclic(8)),
        ],
        4 => vec![
            Mat("gen4", mm(&kron(&gen2, &kron(&gen1, &gen1b)), &mm(&cyclic(16), &kron(&gen1b, &kron(&gen1, &gen2))))),
            Mat("cyclic16", cyclic(16)),
        ],
        _ => vec![Mat("gen5", mm(&kron(&gen2, &kron(&gen1, &gen2)), &cyclic(32))), Mat("cyclic32", cyclic(32))],
    };
    m.into_iter().map(Rc::new).collect()
}
fn applies(ids: &[usize], max: usize, some_only: bool) -> Vec<Op> {
    let mut o = vec![];
    for nt in 0..=max.min(3) {
        for nc in 0..=(max - nt).min(2) {
            if nt + nc == 0 {
                continue;
            }
            for ts in arrangements(ids, nt) {
                for ks in arrangements(&without(ids, &ts), nc) {
                    for (i, m) in matrices(nt).into_iter().enumerate() {
                        if some_only && i > 1 {
                            continue;
                        }
                        if nc == 0 {
                            o.push(Op::Apply(m.clone(), ts.clone(), None));
                        }
                        if nc > 0 || !some_only {
                            o.push(Op::Apply(m, ts.clone(), Some(ks.clone())));
                        }
                    }
                }
            }
        }
    }
    o
}

pub fn c03(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for s in [zero(3), generic(3), ghz(3), swapped(3), holes(3), reused(3)] {
        let a = each(applies(&s.ids, 3, false));
        v.push(stages("apply", &s, [few(&s), vec![a.clone()]].concat()));
        v.push(stages("apply-apply", &s, vec![a.clone(), a.clone()]));
        let g = each(gates(&s.ids, &[0.6]));
        v.push(stages("gate-apply-gate", &s, vec![each(mixers(&s.ids)), a.clone(), g]));
        if t == Tier::Thorough {
            v.push(stages("deferred-apply", &s, [full(&s), vec![a]].concat()));
        }
    }
    for s in [generic(4), holes(4)] {
        let a = each(applies(&s.ids, 4, false));
        v.push(stages("apply4", &s, vec![deferred_few(s.ids[0]), a]));
    }
    // layouts made by histories: allocate/release/swap words, then apply, then a gate
    let words = t.pick(4, 5);
    let hist: Stage = each(vec![
        Op::Alloc,
        Op::Release(usize::MAX, R::Lo),
        Op::Release(0, R::Hi),
        Op::Release(1, R::Lo),
        Op::Release(2, R::Hi),
        Op::Swap(0, 1),
        Op::Swap(1, 2),
        Op::G1(G::H, 0),
        Op::MC(G::X, vec![0], 2),
        Op::Nop,
    ]);
    let hn = hist.len() as u64;
    v.push(job("history-apply", hn.pow(words) * 48, move |i, ctx| {
        let mut p = Pair::new();
        let mut i = i;
        let sel = (i % 48) as usize;
        i /= 48;
        let mut prep = allocs(4);
        prep.extend(entangle(&[0, 1, 2, 3]));
        let mut word = vec![];
        for _ in 0..words {
            word.push(hist[(i % hn) as usize][0].clone());
            i /= hn;
        }
        // symbolic validity first (cheap)
        let mut al: std::collections::BTreeSet<usize> = (0..4).collect();
        for o in &mut word {
            match o {
                Op::Alloc => {
                    let id = (0..).find(|k| !al.contains(k)).unwrap();
                    al.insert(id);
                    if al.len() > 5 {
                        return Ok(());
                    }
                }
                Op::Release(q, _) => {
                    if *q == usize::MAX {
                        match al.iter().next_back() {
                            Some(l) => *q = *l,
                            None => return Ok(()),
                        }
                    }
                    if !al.remove(q) {
                        return Ok(());
                    }
                }
                o => {
                    if o.qubits().iter().any(|q| !al.contains(q)) {
                        return Ok(());
                    }
                }
            }
        }
        let ids: Vec<usize> = al.into_iter().collect();
        let app = applies(&ids, 2.min(ids.len()), true);
        if app.is_empty() {
            return Ok(());
        }
        // spread the selector over the possible applications
        let a = app[sel * app.len() / 48].clone();
        for o in prep.iter().chain(&word) {
            p.step(o, ctx)?;
        }
        p.step(&a, ctx)?;
        p.step(&Op::G1(G::H, ids[0]), ctx)?;
        p.finish(ctx)
    }));
    for n in [2, 3] {
        let s = wide(n);
        v.push(stages("wide-apply", &s, vec![deferred_few(s.ids[0]), each(applies(&s.ids, 2, true))]));
    }
    // four and five targets
    for s in big(t, 4) {
        let n = s.ids.len();
        let mut a = vec![];
        for nt in 4..=n.min(5) {
            for m in matrices(nt) {
                for l in orders(&s.ids) {
                    for k in 0..=n - nt {
                        a.push(Op::Apply(m.clone(), l[..nt].to_vec(), (k > 0).then(|| l[nt..nt + k].to_vec())));
                    }
                }
            }
        }
        for nt in 1..=3usize {
            // few targets, many controls
            let m = matrices(nt)[0].clone();
            for l in orders(&s.ids) {
                a.push(Op::Apply(m.clone(), l[..nt].to_vec(), Some(l[nt..].to_vec())));
            }
        }
        v.push(stages("wide-matrix", &s, vec![pending_few(&s.ids), each(a)]));
    }
    v
}

// ------------------------------------------------------------------ C04: observations are transparent

pub fn same_snapshots(a: &(Vec<(num_bigint::BigUint, C)>, usize), b: &(Vec<(num_bigint::BigUint, C)>, usize)) -> Res {
    if a.1 != b.1 {
        return Err(format!("numbers of qubits differ: {} and {}", a.1, b.1));
    }
    let mut keys: Vec<&num_bigint::BigUint> = a.0.iter().chain(&b.0).map(|e| &e.0).collect();
    keys.sort();
    keys.dedup();
    let get = |s: &Vec<(num_bigint::BigUint, C)>, k: &num_bigint::BigUint| {
        s.iter().filter(|e| e.0 == *k).map(|e| e.1).sum::<C>()
    };
    let x: Vec<C> = keys.iter().map(|k| get(&a.0, k)).collect();
    let y: Vec<C> = keys.iter().map(|k| get(&b.0, k)).collect();
    crate::refmodel::same_state(&x, &y)
        .map_err(|e| format!("observed and unobserved runs differ: {e}; unobserved {:?} observed {:?}", a.0, b.0))
}

/// Executes on the real simulator only; returns reported measurement outcomes.
pub fn run_real(sim: &mut QuantumSim, ops: &[Op]) -> Vec<bool> {
    let mut out = vec![];
    for o in ops {
        match o {
            Op::Nop => {}
            Op::Alloc => {
                let _ = sim.allocate();
            }
            Op::Release(q, r) => {
                rand::verif_script::set(&[r.word()]);
                sim.release(*q);
            }
            Op::Measure(q, r) => {
                rand::verif_script::set(&[r.word()]);
                out.push(sim.measure(*q));
            }
            Op::Joint(q, r) => {
                rand::verif_script::set(&[r.word()]);
                out.push(sim.joint_measure(q));
            }
            Op::Force(q, v) => {
                sim.force_collapse(*v, *q);
            }
            Op::Prob(q) => {
                let _ = sim.joint_probability(q);
            }
            Op::IsZero(q) => {
                let _ = sim.qubit_is_zero(*q);
            }
            Op::Snap => {
                let _ = sim.get_state();
            }
            Op::Dump => {
                let _ = sim.dump();
            }
            g => gate_real(sim, g),
        }
    }
    out
}

pub fn differential(name: &str, s: &Scn, st: Vec<Stage>, obs: Vec<bool>) -> Job {
    // obs[k]: stage k consists of observations, left out of the second run
    let n: u64 = st.iter().map(|x| x.len() as u64).product();
    let s = s.clone();
    job(format!("{name}/{}", s.name), n, move |i, ctx| {
        let mut i = i;
        let mut pick = vec![];
        for x in st.iter().rev() {
            pick.push((i % x.len() as u64) as usize);
            i /= x.len() as u64;
        }
        pick.reverse();
        let (mut with, mut without) = (s.prep.clone(), s.prep.clone());
        for (k, x) in st.iter().enumerate() {
            for o in &x[pick[k]] {
                with.push(o.clone());
                if !obs[k] {
                    without.push(o.clone());
                }
            }
        }
        for o in &with {
            ctx.log(|| o.show());
        }
        ctx.transitions += (with.len() + without.len()) as u64;
        rand::verif_script::set(&[0]);
        let mut a = QuantumSim::new(None);
        let mut b = QuantumSim::new(None);
        let ra = run_real(&mut a, &without);
        let rb = run_real(&mut b, &with);
        if ra != rb {
            return Err(format!("outcomes without observation {ra:?}, with {rb:?}"));
        }
        let (sa, sb) = (a.get_state(), b.get_state());
        let mut h = crate::engine::Fnv::new();
        for (k, z) in &sa.0 {
            for d in k.to_u64_digits() {
                h.u64(d);
            }
            h.u64((z.norm() * 65536.0).round() as u64);
        }
        ctx.state(h.0);
        ctx.traces += 1;
        same_snapshots(&sa, &sb)
    })
}

fn observers(ids: &[usize]) -> Stage {
    let mut v = vec![Op::Snap, Op::Dump];
    for q in ids {
        v.push(Op::IsZero(*q));
    }
    for l in subsets(ids) {
        v.push(Op::Prob(l));
    }
    each(v)
}

pub fn c04(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for s in [zero(2), generic(2), swapped(2), holes(2), reused(2)] {
        let o = observers(&s.ids);
        let g = each(gates(&s.ids, &A2));
        v.push(differential("2q-deferred-obs-gate", &s, [full(&s), vec![o.clone(), g.clone()]].concat(), vec![false, false, true, false]));
        v.push(differential("2q-gate-obs-gate-obs", &s, vec![g.clone(), o.clone(), g.clone(), o.clone()], vec![false, true, false, true]));
        let def2: Vec<Stage> = full(&s);
        v.push(differential("2q-gate-obs-deferred", &s, [vec![each(mixers(&s.ids)), o.clone()], def2].concat(), vec![false, true, false, false]));
        if t == Tier::Thorough {
            v.push(differential(
                "2q-deferred-obs-gate-obs-gate",
                &s,
                [few(&s), vec![o.clone(), g.clone(), o.clone(), g]].concat(),
                vec![false, false, true, false, true, false],
            ));
        }
    }
    for s in [generic(3), swapped(3), holes(3), reused(3), zero(3)] {
        let o = observers(&s.ids);
        let g = each(gates(&s.ids, &[0.6]));
        v.push(differential("3q-few-obs-gate", &s, [few(&s), vec![o.clone(), each(mixers(&s.ids))]].concat(), vec![false, false, false, true, false]));
        v.push(differential("3q-gate-obs-gate", &s, vec![g.clone(), o.clone(), g.clone()], vec![false, true, false]));
        if t == Tier::Thorough {
            v.push(differential("3q-few-obs-gate-all", &s, [few(&s), vec![o.clone(), g]].concat(), vec![false, false, false, true, false]));
        }
    }
    // with lifecycle and measurement in between
    for s in [generic(3), holes(3)] {
        let o = observers(&s.ids);
        let mut l = vec![Op::Alloc];
        for q in &s.ids {
            l.push(Op::Release(*q, R::Lo));
            l.push(Op::Release(*q, R::Hi));
            l.push(Op::Measure(*q, R::Frac(1, 3)));
            l.push(Op::Force(*q, true));
        }
        for a in arrangements(&s.ids, 2) {
            l.push(Op::Swap(a[0], a[1]));
            l.push(Op::Joint(a, R::Frac(1, 2)));
        }
        v.push(differential("3q-few-obs-lifecycle-obs", &s, [few(&s), vec![o.clone(), each(l.clone())]].concat(), vec![false, false, false, true, false]));
        v.push(differential("3q-lifecycle-obs-lifecycle", &s, vec![each(mixers(&s.ids)), o.clone(), each(l[1..].iter().filter(|o| !matches!(o, Op::Release(..))).cloned().collect()), o, each(l)], vec![false, true, false, true, false]));
    }
    for n in [2, 3] {
        let s = wide(n);
        v.push(differential("wide-few-obs-gate", &s, [vec![deferred_few(s.ids[0]), deferred_few(s.ids[1])], vec![observers(&s.ids), each(mixers(&s.ids))]].concat(), vec![false, false, true, false]));
    }
    {
        let s = padded(2, 9_999);
        v.push(differential("queue-limit-obs", &s, vec![each(mixers(&s.ids)), observers(&s.ids), each(mixers(&s.ids))], vec![false, true, false]));
    }
    // longer query lists
    for s in big(t, 5) {
        let mut o = vec![Op::Snap, Op::Dump];
        for l in subsets(&s.ids).into_iter().filter(|l| l.len() > 3) {
            o.push(Op::Prob(l.iter().rev().copied().collect()));
            o.push(Op::Prob(l));
        }
        let mut g = vec![Op::G1(G::H, s.ids[0]), Op::Rot(P::Y, 0.6, s.ids[2]), Op::Measure(s.ids[1], R::Hi), Op::Joint(s.ids.clone(), R::Lo)];
        g.push(Op::MC(G::X, s.ids[1..].to_vec(), s.ids[0]));
        g.push(Op::Swap(s.ids[0], s.ids[3]));
        v.push(differential("long-lists", &s, vec![pending_few(&s.ids), each(o), each(g)], vec![false, true, false]));
    }
    v
}

// ------------------------------------------------------------------ C05: measurement

fn measures(ids: &[usize], rs: &[R]) -> Vec<Op> {
    let mut v = vec![];
    for r in rs {
        for q in ids {
            v.push(Op::Measure(*q, *r));
        }
        for l in lists(ids) {
            v.push(Op::Joint(l, *r));
        }
    }
    for q in ids {
        v.push(Op::Force(*q, false));
        v.push(Op::Force(*q, true));
    }
    v
}

/// Outcome counts over a grid of `n` equally spaced draws must equal n*p up to rounding.
fn born(name: &str, s: &Scn, st: Vec<Stage>, n: u32) -> Job {
    born_of(name, s, st, subsets(&s.ids).into_iter().filter(|l| !l.is_empty()).collect(), n)
}
pub fn born_of(name: &str, s: &Scn, st: Vec<Stage>, lists: Vec<Vec<usize>>, n: u32) -> Job {
    let tot: u64 = st.iter().map(|x| x.len() as u64).product::<u64>() * lists.len() as u64;
    let s = s.clone();
    job(format!("{name}/{}", s.name), tot, move |i, ctx| {
        let mut i = i;
        let l = &lists[(i % lists.len() as u64) as usize];
        i /= lists.len() as u64;
        let mut ops = s.prep.clone();
        let mut tail = vec![];
        for x in st.iter().rev() {
            tail.extend(x[(i % x.len() as u64) as usize].iter().rev().cloned());
            i /= x.len() as u64;
        }
        tail.reverse();
        ops.extend(tail);
        let mut m = crate::refmodel::Model::default();
        for o in &ops {
            ctx.log(|| o.show());
            match o {
                Op::Alloc => {
                    m.allocate();
                }
                Op::Snap | Op::Prob(_) => {}
                Op::Release(q, _) => m.release(*q),
                g => gate_model(&mut m, g),
            }
        }
        if m.cand.len() != 1 {
            return Ok(());
        }
        let p = m.prob(l)[0];
        ctx.log(|| format!("outcome statistics of {l:?} over {n} draws, expected probability {p}"));
        let mut count = 0u32;
        for k in 0..n {
            rand::verif_script::set(&[0]);
            let mut sim = QuantumSim::new(None);
            run_real(&mut sim, &ops);
            rand::verif_script::set(&[R::Frac(k, n).word()]);
            if if l.len() == 1 { sim.measure(l[0]) } else { sim.joint_measure(l) } {
                count += 1;
            }
            ctx.transitions += 1;
        }
        ctx.state(m.hash());
        ctx.traces += u64::from(n);
        let d = f64::from(count) - p * f64::from(n);
        if d.abs() > 1.0 + 1e-6 {
            return Err(format!("{count} of {n} equally spaced draws report odd parity of {l:?}, its probability is {p}"));
        }
        Ok(())
    })
}

pub fn c05(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let rs = [R::Lo, R::Hi, R::Frac(1, 2)];
    for s in [zero(2), generic(2), ghz(2), swapped(2), holes(2), reused(2)] {
        let m = each(measures(&s.ids, &rs));
        v.push(stages("2q-deferred-measure-measure", &s, [full(&s), vec![m.clone(), m.clone()]].concat()));
        v.push(stages("2q-gate-measure-gate", &s, vec![each(gates(&s.ids, &A2)), m.clone(), each(gates(&s.ids, &[0.6]))]));
        v.push(stages("2q-measure-gate-measure", &s, vec![m.clone(), each(mixers(&s.ids)), m.clone(), m.clone()]));
        if t == Tier::Thorough {
            v.push(stages("2q-gate-deferred-measure-gate", &s, [vec![each(mixers(&s.ids))], full(&s), vec![m, each(mixers(&s.ids))]].concat()));
        }
    }
    for s in [generic(3), ghz(3), zero(3), swapped(3), holes(3)] {
        let m = each(measures(&s.ids, &[R::Lo, R::Hi]));
        v.push(stages("3q-few-measure", &s, [few(&s), vec![m.clone()]].concat()));
        v.push(stages("3q-measure-measure-gate", &s, vec![m.clone(), m.clone(), each(mixers(&s.ids))]));
        v.push(stages("3q-gate-measure-measure", &s, vec![each(gates(&s.ids, &[0.6])), m.clone(), m.clone()]));
        if t == Tier::Thorough {
            v.push(stages("3q-deferred-measure-measure", &s, [few(&s), vec![m.clone(), m]].concat()));
        }
    }
    // a prefix of pending phase operations plus special angles: probabilities exactly 0, 1 and nearly so
    for s in [zero(1), generic(1)] {
        let a = each(gates(&[0], &SPECIAL));
        v.push(stages("1q-special-measure", &s, vec![a.clone(), a.clone(), each(measures(&[0], &rs)), each(measures(&[0], &rs))]));
    }
    for n in [2, 3] {
        let s = wide(n);
        v.push(stages("wide-few-measure", &s, vec![deferred_few(s.ids[0]), deferred_few(s.ids[1]), each(mixers(&s.ids)), each(measures(&s.ids, &[R::Lo, R::Hi]))]));
    }
    {
        let s = padded(2, 9_999);
        v.push(stages("queue-limit-measure", &s, vec![each(mixers(&s.ids)), each(measures(&s.ids, &[R::Lo, R::Hi]))]));
    }
    // Born rule by counting
    let n = t.pick(48, 240);
    for s in [zero(1), generic(1)] {
        v.push(born("born-1q", &s, vec![each(gates(&[0], &SPECIAL)), each(gates(&[0], &[0.6, 2.0]))], n));
    }
    for s in [zero(2), generic(2), swapped(2), holes(2)] {
        v.push(born("born-2q", &s, [few(&s), vec![each(mixers(&s.ids))]].concat(), n));
    }
    for s in [generic(3), ghz(3)] {
        v.push(born("born-3q", &s, vec![each(mixers(&s.ids)), each(mixers(&s.ids))], n));
    }
    v.push(born("born-fine", &generic(2), vec![each(mixers(&[0, 1]))], t.pick(2000, 20000)));
    // longer parity lists
    for s in big(t, 5).into_iter().chain([ghz(5), ghz(6)]) {
        let n = s.ids.len();
        let mut m = vec![];
        for r in [R::Lo, R::Hi, R::Frac(1, 2)] {
            for l in subsets(&s.ids).into_iter().filter(|l| l.len() > 3) {
                m.push(Op::Joint(l.iter().rev().copied().collect(), r));
                m.push(Op::Joint(l, r));
            }
            for q in &s.ids {
                m.push(Op::Measure(*q, r));
            }
        }
        let m = each(m);
        v.push(stages("long-parities", &s, vec![if n < 6 || t == Tier::Thorough { pending(&s.ids, 4) } else { pending_few(&s.ids) }, m.clone()]));
        if n == 5 {
            v.push(stages("long-parities2", &s, vec![m.clone(), each(vec![Op::G1(G::H, s.ids[0]), Op::G1(G::H, s.ids[4])]), m]));
        }
    }
    v
}

// ------------------------------------------------------------------ C06: queries

fn queries(ids: &[usize]) -> Stage {
    let mut v: Vec<Op> = ids.iter().map(|q| Op::IsZero(*q)).collect();
    v.extend(lists(ids).into_iter().map(Op::Prob));
    each(v)
}
pub fn c06(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for s in [zero(2), generic(2), ghz(2), swapped(2), holes(2), reused(2)] {
        let q = queries(&s.ids);
        let g = each(gates(&s.ids, &A2));
        v.push(stages("2q-deferred-gate-query", &s, [full(&s), vec![g.clone(), q.clone()]].concat()));
        v.push(stages("2q-gate-query-gate-query", &s, vec![g.clone(), q.clone(), each(mixers(&s.ids)), q.clone()]));
        v.push(stages("2q-gate-gate-query", &s, vec![g.clone(), g.clone(), q.clone()]));
        if t == Tier::Thorough {
            v.push(stages("2q-gate3-query", &s, vec![g.clone(), g.clone(), g, q]));
        }
    }
    for s in [zero(3), generic(3), ghz(3), swapped(3), holes(3), reused(3)] {
        let q = queries(&s.ids);
        v.push(stages("3q-few-query-query", &s, [few(&s), vec![q.clone(), q.clone()]].concat()));
        v.push(stages("3q-gate-gate-query", &s, vec![each(mixers(&s.ids)), each(mixers(&s.ids)), q.clone()]));
        v.push(stages("3q-few-gate-query", &s, [few(&s), vec![each(mixers(&s.ids)), q.clone()]].concat()));
        if t == Tier::Thorough {
            v.push(stages("3q-few-allgates-query", &s, [few(&s), vec![each(gates(&s.ids, &[0.6])), q]].concat()));
        }
    }
    for s in [zero(4), generic(4)] {
        v.push(stages("4q-few-query", &s, [few(&s), vec![queries(&s.ids)]].concat()));
    }
    for s in [zero(1), generic(1)] {
        let a = each(gates(&[0], &SPECIAL));
        v.push(stages("1q-special-query", &s, vec![a.clone(), a, queries(&[0])]));
    }
    for n in [2, 3] {
        let s = wide(n);
        v.push(stages("wide-few-query", &s, vec![deferred_few(s.ids[0]), deferred_few(s.ids[1]), each(mixers(&s.ids)), queries(&s.ids)]));
    }
    {
        let s = padded(2, 9_999);
        v.push(stages("queue-limit-query", &s, vec![each(mixers(&s.ids)), queries(&s.ids)]));
    }
    // longer query lists
    for s in big(t, 5).into_iter().chain([ghz(5), ghz(6)]) {
        let n = s.ids.len();
        let mut q = vec![];
        for l in subsets(&s.ids).into_iter().filter(|l| l.len() > 3) {
            for l in orders(&l) {
                q.push(Op::Prob(l));
            }
        }
        q.extend(s.ids.iter().map(|q| Op::IsZero(*q)));
        v.push(stages("long-queries", &s, vec![if n < 6 || t == Tier::Thorough { pending(&s.ids, 4) } else { pending_few(&s.ids) }, each(q)]));
    }
    v
}

// ------------------------------------------------------------------ C07, C09: lifecycle histories

/// Operations relative to the k-th smallest allocated identifier, instantiated while the history unfolds.
#[derive(Clone, Copy, Debug)]
enum Rel {
    Alloc,
    Release(usize, R),
    G(G, usize),
    Rot(P, f64, usize),
    CX(usize, usize),
    Swap(usize, usize),
    Measure(usize, R),
    Snap,
    Dump,
    Apply1(usize),
    Apply2(usize, usize),
}
fn rel_op(r: Rel, ids: &[usize], mats: &[Rc<Mat>; 2]) -> Option<Op> {
    let q = |k: usize| ids.get(k).copied();
    Some(match r {
        Rel::Alloc => {
            if ids.len() >= 5 {
                return None;
            }
            Op::Alloc
        }
        Rel::Release(k, r) => Op::Release(q(k)?, r),
        Rel::G(g, k) => Op::G1(g, q(k)?),
        Rel::Rot(p, a, k) => Op::Rot(p, a, q(k)?),
        Rel::CX(a, b) => Op::MC(G::X, vec![q(a)?], q(b)?),
        Rel::Swap(a, b) => Op::Swap(q(a)?, q(b)?),
        Rel::Measure(k, r) => Op::Measure(q(k)?, r),
        Rel::Snap => Op::Snap,
        Rel::Dump => Op::Dump,
        Rel::Apply1(k) => Op::Apply(mats[0].clone(), vec![q(k)?], None),
        Rel::Apply2(a, b) => Op::Apply(mats[1].clone(), vec![q(a)?, q(b)?], None),
    })
}
fn histories(name: &str, alphabet: Vec<Rel>, init: usize, depth: u32, tail: Vec<Rel>) -> Job {
    let n = alphabet.len() as u64;
    let mats = [matrices(1)[0].clone(), matrices(2)[1].clone()];
    job(format!("{name}/init{init}/depth{depth}"), n.pow(depth), move |i, ctx| {
        let mut i = i;
        let mut word = vec![];
        for _ in 0..depth {
            word.push(alphabet[(i % n) as usize]);
            i /= n;
        }
        word.reverse();
        // symbolic pass: drop words with an inapplicable operation
        let mut al: Vec<usize> = (0..init).collect();
        let mut ops = allocs(init);
        for r in word.iter().chain(&tail) {
            let Some(o) = rel_op(*r, &al, &mats) else { return Ok(()) };
            match &o {
                Op::Alloc => {
                    let id = (0..).find(|k| !al.contains(k)).unwrap();
                    al.push(id);
                    al.sort_unstable();
                }
                Op::Release(q, _) => al.retain(|x| x != q),
                _ => {}
            }
            ops.push(o);
        }
        let mut p = Pair::new();
        for o in &ops {
            p.step(o, ctx)?;
        }
        p.finish(ctx)
    })
}
fn life(n: usize, both: bool) -> Vec<Rel> {
    let mut v = vec![Rel::Alloc];
    for k in 0..n {
        v.push(Rel::Release(k, R::Lo));
        if both {
            v.push(Rel::Release(k, R::Hi));
        }
    }
    v
}
pub fn c07(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    // allocation/release patterns alone, deep
    let mut a = life(4, false);
    a.extend([Rel::G(G::X, 0), Rel::Swap(0, 1)]);
    for d in 1..=t.pick(8, 9) {
        v.push(histories("alloc-release", a.clone(), 0, d, vec![]));
    }
    // pending operations and entanglement
    let mut a = life(3, true);
    for k in 0..3 {
        a.extend([Rel::G(G::H, k), Rel::G(G::X, k), Rel::Rot(P::X, 0.6, k), Rel::Rot(P::Y, 0.6, k)]);
    }
    a.extend([Rel::CX(0, 1), Rel::CX(1, 2), Rel::CX(1, 0), Rel::Swap(0, 1), Rel::Swap(0, 2), Rel::Measure(0, R::Hi), Rel::Measure(1, R::Lo)]);
    for init in [0, 1, 2, 3] {
        for d in 1..=t.pick(5, 6) {
            v.push(histories("mixed", a.clone(), init, d, vec![]));
        }
    }
    // everything on two qubits, deeper
    let a = vec![
        Rel::Alloc,
        Rel::Release(0, R::Lo),
        Rel::Release(0, R::Hi),
        Rel::Release(1, R::Lo),
        Rel::G(G::H, 0),
        Rel::G(G::H, 1),
        Rel::Rot(P::Y, 0.6, 0),
        Rel::Rot(P::X, 0.9, 1),
        Rel::CX(0, 1),
        Rel::Swap(0, 1),
    ];
    v.push(histories("deep", a.clone(), 2, t.pick(7, 8), vec![]));
    v.push(histories("deep", a, 1, t.pick(7, 8), vec![]));
    // releasing in the presence of every deferred combination, then reusing the identifier
    for s in [generic(3), holes(3), zero(3), swapped(3)] {
        let rel: Stage = Rc::new(
            s.ids
                .iter()
                .flat_map(|q| [R::Lo, R::Hi].map(|r| vec![Op::Release(*q, r)]))
                .chain(s.ids.iter().map(|q| vec![Op::Release(*q, R::Lo), Op::Alloc]))
                .chain(s.ids.iter().map(|q| vec![Op::Release(*q, R::Hi), Op::Alloc, Op::Alloc]))
                .collect(),
        );
        v.push(stages("deferred-release", &s, [few(&s), vec![rel.clone()]].concat()));
        v.push(stages("gate-release", &s, vec![each(gates(&s.ids, &A2)), rel]));
    }
    // many qubits: identifiers are handed out and re-used in order
    v.push(job("wide-reuse", 131 * 8, |i, ctx| {
        let (q, k) = ((i / 8) as usize, i % 8);
        let s = wide(3);
        let mut p = Pair::new();
        for o in &s.prep {
            p.step(o, ctx)?;
        }
        p.step(&Op::G1(G::H, q), ctx)?;
        p.step(&Op::MC(G::X, vec![q], (q + 64) % 131), ctx)?;
        let r = if k & 1 == 0 { R::Lo } else { R::Hi };
        p.step(&Op::Release(q, r), ctx)?;
        if k & 2 != 0 {
            p.step(&Op::Release((q + 64) % 131, r), ctx)?;
        }
        if k & 4 != 0 {
            p.step(&Op::Alloc, ctx)?;
            p.step(&Op::G1(G::H, q.min(if k & 2 != 0 { (q + 64) % 131 } else { q })), ctx)?;
        }
        p.finish(ctx)
    }));
    // larger registers: release any two qubits, allocate again
    for s in big(t, 5) {
        let rel: Stage = Rc::new(
            arrangements(&s.ids, 2)
                .iter()
                .flat_map(|q| {
                    [
                        vec![Op::Release(q[0], R::Lo), Op::Release(q[1], R::Hi)],
                        vec![Op::Release(q[0], R::Hi), Op::Alloc, Op::Release(q[1], R::Lo), Op::Alloc, Op::Alloc],
                    ]
                })
                .collect(),
        );
        v.push(stages("release-two", &s, vec![pending_few(&s.ids), rel]));
    }
    v
}

pub fn c09(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let mut a = life(3, false);
    a.extend([
        Rel::G(G::H, 0),
        Rel::G(G::H, 1),
        Rel::G(G::X, 2),
        Rel::Rot(P::Y, 0.6, 1),
        Rel::CX(0, 1),
        Rel::CX(1, 2),
        Rel::Swap(0, 1),
        Rel::Swap(0, 2),
        Rel::Measure(0, R::Hi),
        Rel::Apply1(1),
        Rel::Apply2(0, 1),
        Rel::Apply2(2, 0),
        Rel::Snap,
        Rel::Dump,
    ]);
    for init in [1, 2, 3, 4] {
        for d in 1..=t.pick(5, 6) {
            v.push(histories("history-snapshot", a.clone(), init, d, vec![Rel::Dump, Rel::Snap, Rel::Dump]));
        }
        v.push(histories("history-dump", a.clone(), init, t.pick(4, 5), vec![Rel::Snap, Rel::Snap]));
    }
    // permutations of the layout: every word of swaps and releases on four qubits
    let mut b = vec![];
    for (x, y) in [(0, 1), (0, 2), (1, 2), (2, 3), (0, 3)] {
        b.push(Rel::Swap(x, y));
    }
    b.extend([Rel::Release(0, R::Lo), Rel::Release(1, R::Hi), Rel::Release(2, R::Lo), Rel::Alloc, Rel::Rot(P::Y, 0.7, 0), Rel::Rot(P::Y, 0.5, 1), Rel::CX(0, 1)]);
    v.push(histories("layout", b.clone(), 4, t.pick(5, 6), vec![Rel::Snap, Rel::Dump]));
    v.push(histories("layout", b, 3, t.pick(5, 6), vec![Rel::Dump, Rel::Snap]));
    // gates that shrink and grow the state: no zero-amplitude or duplicate entries
    for s in [zero(2), generic(2), ghz(2), swapped(2)] {
        let mut g = gates(&s.ids, &[0.6, PI, PI / 2.0, 0.0]);
        for ps in pauli_strings(2) {
            for a in [0.0, PI / 2.0, PI / 4.0, PI, 0.6] {
                g.push(Op::Exp(ps.clone(), a, s.ids.clone()));
            }
        }
        for ps in pauli_strings(1) {
            for a in [0.0, PI / 2.0, PI, 0.6] {
                g.push(Op::MCExp(vec![s.ids[0]], ps.clone(), a, vec![s.ids[1]]));
            }
        }
        g.extend(applies(&s.ids, 2, false));
        let g = each(g);
        v.push(stages("grow-shrink", &s, vec![g.clone(), g.clone(), each(vec![Op::Snap, Op::Dump])]));
        if t == Tier::Thorough {
            v.push(stages("grow-shrink3", &s, vec![g.clone(), g.clone(), g, each(vec![Op::Dump])]));
        }
    }
    for s in [wide(2), wide(3)] {
        v.push(stages("wide", &s, vec![each(mixers(&s.ids)), each(mixers(&s.ids)), each(vec![Op::Snap, Op::Dump])]));
    }
    v.push(job("empty", 3, |i, ctx| {
        let mut p = Pair::new();
        if i > 0 {
            for o in [Op::Alloc, Op::G1(G::H, 0), Op::Release(0, R::Lo)] {
                p.step(&o, ctx)?;
            }
        }
        p.step(if i == 2 { &Op::Dump } else { &Op::Snap }, ctx)?;
        p.finish(ctx)
    }));
    // larger layouts
    for s in big(t, 5) {
        let l: Stage = Rc::new(
            arrangements(&s.ids, 2)
                .iter()
                .flat_map(|q| {
                    [
                        vec![Op::Swap(q[0], q[1])],
                        vec![Op::Swap(q[0], q[1]), Op::Release(q[0], R::Hi)],
                        vec![Op::Release(q[0], R::Lo), Op::Release(q[1], R::Hi), Op::Alloc],
                    ]
                })
                .collect(),
        );
        v.push(stages("large-layout", &s, vec![pending_few(&s.ids), l, each(vec![Op::Snap, Op::Dump])]));
    }
    v
}

// ------------------------------------------------------------------ C08: invalid use

/// A refused operation leaves nothing behind for a caller that goes on: the state is the one before, a qubit allocated
/// later is fresh even when it has the identifier that was refused, and every qubit can still be used.
pub fn not_remembered(p: &mut Pair, op: &Op, ctx: &mut crate::engine::Ctx) -> Res {
    let ids = p.m.alloc.clone();
    p.finish(ctx).map_err(|e| format!("after {} was refused: {e}", op.show()))?;
    let top = op.qubits().into_iter().filter(|q| *q <= 64).max().unwrap_or(0);
    let r = guarded(|| {
        loop {
            let q = p.sim.allocate();
            if ids.contains(&q) || !p.sim.qubit_is_zero(q) {
                return Err(format!("after {} was refused, the new qubit {q} is not in state 0", op.show()));
            }
            if q >= top {
                return Ok(());
            }
        }
    });
    r.map_err(|e| format!("after {} was refused, allocation fails: {e}", op.show()))??;
    Ok(())
}

pub fn c08(t: Tier) -> Vec<Job> {
    // histories: which identifiers are valid, and which pending work exists
    let mut preps: Vec<(String, Vec<Op>, Vec<usize>)> = vec![];
    preps.push(("none".into(), vec![], vec![]));
    preps.push(("emptied".into(), vec![Op::Alloc, Op::G1(G::H, 0), Op::Release(0, R::Lo)], vec![]));
    for s in [zero(1), generic(1), zero(3), generic(3), holes(3), reused(3), holes(1)] {
        preps.push((s.name.clone(), s.prep.clone(), s.ids.clone()));
        for (j, d) in deferred(s.ids[0]).iter().enumerate().skip(1) {
            let mut p = s.prep.clone();
            p.extend(d.clone());
            if s.ids.len() > 1 {
                p.extend(deferred(s.ids[1])[(j * 5 + 1) % 14].clone());
                if t == Tier::Thorough {
                    p.extend(deferred(s.ids[2])[(j * 3 + 2) % 14].clone());
                }
            }
            preps.push((format!("{}+d{j}", s.name), p, s.ids.clone()));
        }
    }
    let mut cases: Vec<(usize, Op)> = vec![];
    for (pi, (_, _, ids)) in preps.iter().enumerate() {
        let bads: Vec<usize> = {
            let mut b: Vec<usize> = (0..6).filter(|q| !ids.contains(q)).take(3).collect();
            b.push(63);
            b.push(64);
            b.push(1000);
            b
        };
        let three: Vec<usize> = ids.iter().copied().chain([7, 8, 9]).take(3).collect();
        // templates over symbolic operands a,b,c (distinct), then every operand replaced
        let tmpl = |q: &[usize]| -> Vec<Op> {
            let mut v = vec![];
            for g in GS {
                v.push(Op::G1(g, q[0]));
                v.push(Op::MC(g, vec![], q[0]));
                v.push(Op::MC(g, vec![q[1]], q[0]));
                v.push(Op::MC(g, vec![q[1], q[2]], q[0]));
            }
            for p in [P::X, P::Y, P::Z] {
                for a in [0.6, 0.0, 1e-12, PI, -PI, 2.0 * PI, 4.0 * PI] {
                    v.push(Op::Rot(p, a, q[0]));
                    v.push(Op::MCRot(p, a, vec![], q[0]));
                    v.push(Op::MCRot(p, a, vec![q[1]], q[0]));
                    v.push(Op::MCRot(p, a, vec![q[1], q[2]], q[0]));
                }
            }
            // the angles include those for which the operation is the identity or a Pauli operation
            for a in [0.6, 0.0, PI, 2.0 * PI] {
                v.push(Op::Phase(a, vec![], q[0]));
                v.push(Op::Phase(a, vec![q[1]], q[0]));
                v.push(Op::Phase(a, vec![q[1], q[2]], q[0]));
            }
            for a in [0.6, 0.0, PI / 2.0, PI, 2.0 * PI] {
                for ps in [vec![P::X, P::Z], vec![P::Z, P::Z], vec![P::I, P::Y], vec![P::I, P::Z], vec![P::I, P::I]] {
                    v.push(Op::Exp(ps.clone(), a, vec![q[0], q[1]]));
                    v.push(Op::MCExp(vec![q[2]], ps, a, vec![q[0], q[1]]));
                }
                for p in [P::I, P::X, P::Y, P::Z] {
                    v.push(Op::Exp(vec![p], a, vec![q[0]]));
                    v.push(Op::MCExp(vec![q[1], q[2]], vec![p], a, vec![q[0]]));
                }
            }
            for m in matrices(1) {
                v.push(Op::Apply(m.clone(), vec![q[0]], None));
                v.push(Op::Apply(m.clone(), vec![q[0]], Some(vec![q[1]])));
                v.push(Op::Apply(m, vec![q[0]], Some(vec![q[1], q[2]])));
            }
            for m in matrices(2) {
                v.push(Op::Apply(m.clone(), vec![q[0], q[1]], None));
                v.push(Op::Apply(m, vec![q[0], q[1]], Some(vec![q[2]])));
            }
            for r in [R::Lo, R::Hi] {
                v.push(Op::Measure(q[0], r));
                v.push(Op::Release(q[0], r));
                v.push(Op::Joint(vec![q[0]], r));
                v.push(Op::Joint(vec![q[0], q[1]], r));
                v.push(Op::Joint(vec![q[0], q[1], q[2]], r));
            }
            v.push(Op::Force(q[0], false));
            v.push(Op::Force(q[0], true));
            v.push(Op::Prob(vec![q[0]]));
            v.push(Op::Prob(vec![q[0], q[1]]));
            v.push(Op::Prob(vec![q[0], q[1], q[2]]));
            v.push(Op::IsZero(q[0]));
            v.push(Op::Swap(q[0], q[1]));
            v
        };
        let valid = tmpl(&three);
        for pos in 0..3 {
            // an operand that is not allocated
            for b in &bads {
                let mut q = three.clone();
                q[pos] = *b;
                if three.iter().enumerate().any(|(k, x)| k != pos && x == b) {
                    continue;
                }
                for (o, w) in tmpl(&q).into_iter().zip(&valid) {
                    if o.qubits() != w.qubits() || !o.qubits().iter().all(|x| ids.contains(x)) {
                        if !o.qubits().iter().all(|x| ids.contains(x)) {
                            cases.push((pi, o));
                        }
                    }
                }
            }
            // the same qubit twice
            let other = (pos + 1) % 3;
            let mut q = three.clone();
            q[pos] = q[other];
            for o in tmpl(&q) {
                let qs = o.qubits();
                let mut u = qs.clone();
                u.sort_unstable();
                u.dedup();
                if u.len() < qs.len() && !matches!(o, Op::Swap(..)) {
                    cases.push((pi, o));
                }
            }
        }
    }
    let n = cases.len() as u64;
    let names: Vec<String> = preps.iter().map(|p| p.0.clone()).collect();
    let prep2 = preps.clone();
    let mut v = vec![job("invalid-operand", n, move |i, ctx| {
        let (pi, op) = &cases[i as usize];
        ctx.log(|| format!("history {}", names[*pi]));
        let mut p = Pair::new();
        for o in &prep2[*pi].1 {
            p.step(o, ctx)?;
        }
        ctx.state(p.m.hash());
        ctx.log(|| format!("invalid: {}", op.show()));
        ctx.transitions += 1;
        ctx.traces += 1;
        let r = guarded(|| {
            let Pair { sim, .. } = &mut p;
            run_real(sim, std::slice::from_ref(op));
        });
        match r {
            Err(msg) if msg.contains("overflow") || msg.contains("memory") => Err(format!("failed for an unrelated reason: {msg}")),
            Err(_) => not_remembered(&mut p, op, ctx),
            Ok(()) => Err(format!(
                "{} was accepted although its operands are not distinct allocated qubits (allocated: {:?})",
                op.show(),
                prep2[*pi].2
            )),
        }
    })];
    // longer operand lists: every position unallocated, every pair of positions equal
    {
        let mut cases: Vec<(Scn, usize, Op)> = vec![];
        for n in 4..=t.pick(6, 8) {
            for s in [zero(n), generic(n), holes(n)] {
                for d in 0..4 {
                    let mut lists: Vec<Vec<usize>> = vec![];
                    for i in 0..n {
                        for bad in [40, 64, 1000] {
                            let mut l = s.ids.clone();
                            l[i] = bad;
                            lists.push(l);
                        }
                        for j in 0..n {
                            if i != j {
                                let mut l = s.ids.clone();
                                l[i] = l[j];
                                lists.push(l);
                            }
                        }
                    }
                    for l in lists {
                        let (k, q) = (&l[..n - 1], l[n - 1]);
                        let ps = |f: [P; 3], m: usize| (0..m).map(|i| f[i % 3]).collect::<Vec<P>>();
                        let mut ops = vec![
                            Op::MC(G::X, k.to_vec(), q),
                            Op::MC(G::H, k.to_vec(), q),
                            Op::MC(G::T, k.to_vec(), q),
                            Op::MCRot(P::Y, 0.6, k.to_vec(), q),
                            Op::MCRot(P::Z, 0.6, k.to_vec(), q),
                            Op::MCRot(P::Z, 0.0, k.to_vec(), q),
                            Op::MCRot(P::X, 0.0, k.to_vec(), q),
                            Op::Phase(0.6, k.to_vec(), q),
                            Op::Phase(0.0, k.to_vec(), q),
                            Op::Joint(l.clone(), R::Lo),
                            Op::Joint(l.clone(), R::Hi),
                            Op::Prob(l.clone()),
                        ];
                        for f in [[P::X, P::Y, P::Z], [P::Z; 3], [P::I; 3]] {
                            ops.push(Op::Exp(ps(f, n), 0.6, l.clone()));
                            for c in 1..n {
                                ops.push(Op::MCExp(l[..c].to_vec(), ps(f, n - c), 0.6, l[c..].to_vec()));
                            }
                        }
                        for m in 1..=n.min(5) {
                            ops.push(Op::Apply(matrices(m)[0].clone(), l[..m].to_vec(), (m < n).then(|| l[m..].to_vec())));
                        }
                        for o in ops {
                            let qs = o.qubits();
                            let mut u = qs.clone();
                            u.sort_unstable();
                            u.dedup();
                            if u.len() < qs.len() || qs.iter().any(|x| !s.ids.contains(x)) {
                                let mut s = s.clone();
                                match d {
                                    0 => {}
                                    1 => s.prep.push(Op::G1(G::H, s.ids[0])),
                                    2 => s.prep.extend(s.ids.clone().iter().map(|q| Op::Rot(P::Y, 0.6, *q))),
                                    _ => s.prep.push(Op::Rot(P::X, 0.6, s.ids[n - 1])),
                                }
                                cases.push((s, d, o));
                            }
                        }
                    }
                }
            }
        }
        v.push(job("long-lists", cases.len() as u64, move |i, ctx| {
            let (s, d, op) = &cases[i as usize];
            ctx.log(|| format!("history {} variant {d}", s.name));
            let mut p = Pair::new();
            for o in &s.prep {
                p.step(o, ctx)?;
            }
            ctx.state(p.m.hash());
            ctx.log(|| format!("invalid: {}", op.show()));
            ctx.transitions += 1;
            ctx.traces += 1;
            match guarded(|| {
                run_real(&mut p.sim, std::slice::from_ref(op));
            }) {
                Err(msg) if msg.contains("overflow") || msg.contains("memory") => Err(format!("failed for an unrelated reason: {msg}")),
                Err(_) => not_remembered(&mut p, op, ctx),
                Ok(()) => Err(format!("{} was accepted although its operands are not distinct allocated qubits (allocated: {:?})", op.show(), s.ids)),
            }
        }));
    }
    // malformed matrices
    let ms: Vec<(usize, usize, usize)> =
        (0..5).flat_map(|r| (0..5).flat_map(move |cc| (0..3).map(move |t| (r, cc, t)))).filter(|(r, cc, t)| r != cc || *r != 1 << t).collect();
    let nd = deferred(0).len() as u64;
    v.push(job("matrix-shape", ms.len() as u64 * nd, move |i, ctx| {
        let (r, cc, t) = ms[(i / nd) as usize];
        let mut p = Pair::new();
        for o in [Op::Alloc, Op::Alloc, Op::Alloc].iter().chain(&deferred(0)[(i % nd) as usize]).chain(&deferred(1)[(i * 5 % nd) as usize]) {
            p.step(o, ctx)?;
        }
        let ids: Vec<usize> = (0..3).collect();
        ctx.log(|| format!("apply {r}x{cc} matrix to {t} targets"));
        let u = ndarray::Array2::from_shape_fn((r, cc), |(a, b)| if a == b { c(1.0, 0.0) } else { c(0.0, 0.0) });
        ctx.transitions += 1;
        ctx.traces += 1;
        match guarded(|| p.sim.apply(&u, &ids[..t], None)) {
            Err(_) => not_remembered(&mut p, &Op::IsZero(3), ctx),
            Ok(()) => Err(format!("{r}x{cc} matrix accepted for {t} targets")),
        }
    }));
    // a released identifier stays invalid however its slot was left, until it is handed out again
    let def = deferred(0);
    let after: Vec<Op> = vec![Op::G1(G::H, 0), Op::Rot(P::X, 0.6, 0), Op::Rot(P::Y, 0.6, 0), Op::G1(G::Z, 0), Op::MC(G::X, vec![0], 1), Op::Measure(0, R::Lo), Op::Release(0, R::Lo)];
    let na = after.len() as u64;
    v.push(job("use-after-release", def.len() as u64 * 3 * na, move |i, ctx| {
        let (d, k, a) = ((i / (3 * na)) as usize, (i / na % 3) as usize, (i % na) as usize);
        let mut p = Pair::new();
        for _ in 0..=k {
            p.step(&Op::Alloc, ctx)?;
        }
        for o in &def[d] {
            p.step(o, ctx)?;
        }
        p.step(&Op::Release(0, R::Hi), ctx)?;
        ctx.log(|| format!("after release: {}", after[a].show()));
        ctx.traces += 1;
        match guarded(|| {
            run_real(&mut p.sim, std::slice::from_ref(&after[a]));
        }) {
            Err(_) => not_remembered(&mut p, &after[a], ctx),
            Ok(()) => Err(format!("{} accepted after release of qubit 0", after[a].show())),
        }
    }));
    v
}

// ------------------------------------------------------------------ C10: swaps

pub fn c10(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for s in [zero(2), generic(2), swapped(2), holes(2), reused(2), wide(2)] {
        let sw: Stage = Rc::new(vec![
            vec![Op::Swap(s.ids[0], s.ids[1])],
            vec![Op::Swap(s.ids[1], s.ids[0])],
            vec![Op::Swap(s.ids[0], s.ids[1]), Op::Swap(s.ids[0], s.ids[1])],
            vec![Op::Swap(s.ids[0], s.ids[0])],
        ]);
        v.push(stages("2q-deferred-swap-gate", &s, [full(&s), vec![sw.clone(), each(gates(&s.ids, &[0.6]))]].concat()));
        if s.name != "wide2" {
            v.push(stages("2q-deferred-swap-deferred", &s, [full(&s), vec![sw.clone()], full(&s)].concat()));
            v.push(stages("2q-gate-swap-gate", &s, vec![each(gates(&s.ids, &A2)), sw, each(gates(&s.ids, &A2))]));
        }
    }
    for s in [generic(3), zero(3), swapped(3), holes(3)] {
        let sw = each(arrangements(&s.ids, 2).into_iter().map(|a| Op::Swap(a[0], a[1])).collect());
        v.push(stages("3q-deferred-swap", &s, [full(&s), vec![sw.clone()]].concat()));
        v.push(stages("3q-few-swap-swap-gate", &s, [few(&s), vec![sw.clone(), sw.clone(), each(mixers(&s.ids))]].concat()));
        v.push(stages("3q-swap-gate-swap-gate", &s, vec![sw.clone(), each(mixers(&s.ids)), sw.clone(), each(gates(&s.ids, &[0.6]))]));
        // swap, then lifecycle
        let mut l = vec![Op::Alloc, Op::Snap, Op::Dump];
        for q in &s.ids {
            l.push(Op::Release(*q, R::Lo));
            l.push(Op::Release(*q, R::Hi));
            l.push(Op::Measure(*q, R::Lo));
            l.push(Op::Prob(vec![*q]));
        }
        v.push(stages("3q-few-swap-lifecycle", &s, [few(&s), vec![sw.clone(), each(l)]].concat()));
        if t == Tier::Thorough {
            v.push(stages("3q-deferred-swap-gate", &s, [full(&s), vec![sw, each(mixers(&s.ids))]].concat()));
        }
    }
    {
        let s = padded(2, 9_999);
        v.push(stages("queue-limit-swap", &s, vec![each(mixers(&s.ids)), each(vec![Op::Swap(0, 1), Op::Swap(1, 0)]), each(mixers(&s.ids))]));
    }
    // larger registers
    for s in big(t, 4) {
        let sw: Stage = Rc::new(
            arrangements(&s.ids, 2)
                .iter()
                .flat_map(|q| {
                    let mut r: Vec<Choice> = vec![vec![Op::Swap(q[0], q[1])]];
                    for x in &s.ids {
                        r.push(vec![Op::Swap(q[0], q[1]), Op::Swap(q[0], *x)]);
                    }
                    r
                })
                .collect(),
        );
        v.push(stages("large-swap", &s, vec![pending_few(&s.ids), sw, each(vec![Op::Nop, Op::G1(G::H, s.ids[0]), Op::Release(s.ids[1], R::Hi)])]));
    }
    v
}

// ------------------------------------------------------------------ C11: seeds (simulator half)

/// One program of `k` coin flips (three ways of flipping), as a word of outcomes.
fn flips(sim: &mut QuantumSim, kind: usize, k: usize) -> Vec<bool> {
    let mut out = vec![];
    let a = sim.allocate();
    let b = sim.allocate();
    for j in 0..k {
        match (kind + j * (kind / 3)) % 3 {
            0 => {
                sim.h(a);
                out.push(sim.measure(a));
                if *out.last().unwrap() {
                    sim.x(a);
                }
            }
            1 => {
                sim.h(a);
                sim.h(b);
                out.push(sim.joint_measure(&[a, b]));
                sim.joint_measure(&[a]);
            }
            _ => {
                sim.ry(1.9, a);
                out.push(sim.measure(a));
            }
        }
    }
    sim.release(b);
    sim.release(a);
    out
}
pub fn c11_sim(t: Tier) -> Vec<Job> {
    let seeds: u64 = t.pick(256, 4096);
    vec![
        job("same-seed-same-outcomes", seeds * 6, |i, ctx| {
            rand::verif_script::clear();
            let (seed, kind) = (seed_of(i / 6), (i % 6) as usize);
            ctx.log(|| format!("seed {seed} program {kind}"));
            let run = |noise: bool| {
                let mut sim = QuantumSim::new(None);
                if noise {
                    // what happened before the seed was set must not matter
                    let _ = flips(&mut sim, 0, 3);
                }
                sim.set_rng_seed(seed);
                flips(&mut sim, kind, 48)
            };
            let (x, y, z) = (run(false), run(false), run(true));
            ctx.transitions += 3 * 48;
            ctx.traces += 3;
            ctx.state(word(&x));
            if x != y {
                return Err(format!("seed {seed}: two runs of one program differ: {x:?} {y:?}"));
            }
            if x != z {
                return Err(format!("seed {seed}: earlier draws influence the run after seeding: {x:?} {z:?}"));
            }
            Ok(())
        }),
        job("stream-continues", seeds * 16, |i, ctx| {
            rand::verif_script::clear();
            let (seed, cut) = (seed_of(i / 16), (i % 16) as usize * 3);
            ctx.log(|| format!("seed {seed}, generator handed over after {cut} flips"));
            let mut a = QuantumSim::new(None);
            a.set_rng_seed(seed);
            let mut whole = one_qubit(&mut a, 48);
            let more = one_qubit(&mut a, 48);
            let mut b = QuantumSim::new(None);
            b.set_rng_seed(seed);
            let mut parts = one_qubit(&mut b, cut);
            let mut b = QuantumSim::new(Some(b.take_rng()));
            parts.extend(one_qubit(&mut b, 48 - cut));
            ctx.transitions += 144;
            ctx.traces += 2;
            ctx.state(word(&whole));
            if whole != parts {
                return Err(format!("seed {seed}: handing the generator to a new simulator after {cut} flips changes the stream"));
            }
            if whole == more {
                return Err(format!("seed {seed}: the same 48 outcomes twice: the stream is restarted or constant"));
            }
            // a constant stream
            whole.dedup();
            if whole.len() < 2 {
                return Err(format!("seed {seed}: 48 fair coin flips all equal"));
            }
            Ok(())
        }),
        job("different-seeds", 1, move |_, ctx| {
            rand::verif_script::clear();
            let mut seen = std::collections::HashMap::new();
            for seed in distinct_seeds(seeds) {
                let mut a = QuantumSim::new(None);
                a.set_rng_seed(seed);
                let w = one_qubit(&mut a, 96);
                ctx.transitions += 96;
                ctx.traces += 1;
                ctx.state(word(&w));
                if let Some(o) = seen.insert(w, seed) {
                    return Err(format!("seeds {o} and {seed} give the same 96 outcomes"));
                }
            }
            Ok(())
        }),
        job("unseeded", 4, move |i, ctx| {
            // without a seed no two simulators draw the same: not in one thread, nor in several, nor after the generator was taken
            rand::verif_script::clear();
            ctx.log(|| format!("simulators without a seed, way {i}"));
            let simulator = |k: u64| -> QuantumSim {
                let mut s = if k % 2 == 0 { QuantumSim::new(None) } else { QuantumSim::default() };
                if i % 2 == 1 {
                    s.set_rng_seed(5);
                    let _ = s.take_rng();
                }
                s
            };
            let mut seen = std::collections::HashMap::new();
            for k in 0..16u64 {
                let w = if i / 2 == 0 {
                    one_qubit(&mut simulator(k), 128)
                } else {
                    std::thread::scope(|t| t.spawn(|| one_qubit(&mut simulator(k), 128)).join().map_err(|_| "panicked".to_string()))?
                };
                ctx.transitions += 128;
                ctx.traces += 1;
                ctx.state(word(&w));
                if let Some(o) = seen.insert(w, k) {
                    return Err(format!("simulators {o} and {k}, neither of them seeded, give the same 128 outcomes"));
                }
            }
            Ok(())
        }),
    ]
}
/// Seeds that are all different, among them those that differ in one bit.
pub fn distinct_seeds(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).map(seed_of).collect();
    for base in [0u64, 42, u64::MAX, 0x9E37_79B9_7F4A_7C15] {
        v.extend((0..64).map(|k| base ^ 1 << k));
    }
    v.sort_unstable();
    v.dedup();
    v
}
pub fn seed_of(k: u64) -> u64 {
    match k % 4 {
        0 => k / 4,
        1 => u64::MAX - k / 4,
        2 => (k / 4 + 1) << 32,
        _ => (k / 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5555,
    }
}
fn word(w: &[bool]) -> u64 {
    let mut h = crate::engine::Fnv::new();
    for b in w {
        h.u64(u64::from(*b));
    }
    h.0
}
fn one_qubit(sim: &mut QuantumSim, k: usize) -> Vec<bool> {
    let a = sim.allocate();
    let _keep = sim.allocate();
    let v = (0..k)
        .map(|_| {
            sim.h(a);
            let r = sim.measure(a);
            if r {
                sim.x(a);
            }
            r
        })
        .collect();
    v
}
